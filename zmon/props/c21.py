"""Copies of collections: equal content, untouched source, independence afterwards, nothing overwritten."""
import json, os, time
import numpy as np
import zcollection
from .. import audit, calls, env, gen, recsync, tree
from ..gen import chance, pick

CASES = {'quick': 130, 'thorough': 3000}


def setup(ctx, shard):
    return env.make(shard)


def config(place):
    return json.loads(place.fs.cat_file(f'{place.base}/.zcollection'))


def restrict(model, keys):
    m = gen.Model(model.spec)
    m.parts = {k: model.parts[k] for k in keys}
    m.fixed = model.fixed
    return m


def equal(ctx, what, spec, place, zc, model):
    """The collection holds exactly the content of the model: through the library and on storage."""
    gen.check_stored(ctx, what, spec, place.fs, place.base, model)
    got = list(zc.partitions(relative=True))
    ctx.check(got == [spec.path(k) for k in model.keys()], f'{what}: listing', got=got)
    for d in (False, True):
        zds = zc.load(delayed=d)
        if not model.parts:
            ctx.check(zds is None, f'{what}: loaded from an empty collection', got=zds)
        else:
            gen.check_dataset(ctx, what, spec, zds, model.expect(), delayed=d)
    ctx.count('contents_compared')


def immutable(ctx, what, spec, place, zc, model):
    if not spec.fixed_vars or not model.fixed or not model.parts:
        return
    names = [v.name for v in spec.fixed_vars]
    zds = zc.load(selected_variables=names, delayed=False)
    gen.check_dataset(ctx, what, spec, zds, dict(model.fixed), attrs=False, codecs=False)
    ctx.count('fixed_compared')


def change(ctx, rng, spec, place, zc, model, tag):
    """One modification of a collection, mirrored in the model."""
    op = pick(rng, ['insert', 'overwrite', 'drop', 'update', 'update'])
    if not model.parts:
        op = 'insert'
    ctx.log(tag, op)
    if op in ('insert', 'overwrite'):
        keys = gen.random_keys(rng, spec, int(rng.integers(1, 4))) if op == 'insert' else [k for k in model.keys() if chance(rng, .5)] or model.keys()[:1]
        rows = gen.rows_for(rng, spec, keys, nrows=(1, 4))
        if model.fixed:
            rows = dict(rows, **model.fixed)
        zc.insert(gen.make_dataset(spec, rows, chance(rng, .5), rng))
        model.insert(rows)
    elif op == 'drop':
        keys = [k for k in model.keys() if chance(rng, .5)]
        names = spec.key_names
        zc.drop_partitions(filters=lambda d: tuple(d[n] for n in names) in set(keys))
        model.drop(keys)
    else:
        v = pick(rng, [v for v in spec.part_vars if v.name != spec.axis and v.name not in spec.key_names and v.name not in spec.keys] or [None])
        if v is None:
            return
        salt = int(rng.integers(1 << 30))

        def func(zds):
            ax = gen.raw(zds.variables[spec.axis])
            return {v.name: gen.result_array(v, ax.shape[0], spec.sizes, spec.dim, [gen.ident(ax), salt])}

        zc.update(func, delayed=False)
        for k, rows in model.parts.items():
            ax = rows[spec.axis]
            model.parts[k] = dict(rows, **{v.name: gen.result_array(v, ax.shape[0], spec.sizes, spec.dim, [gen.ident(ax), salt])})
    ctx.count('changes_' + op)


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, .5), nvars=(1, 4))
    src, dst = gen.Place(ctx, rng), gen.Place(ctx, rng)
    if chance(rng, .08):
        zc, model = gen.create(spec, src), gen.Model(spec)
        ctx.count('empty_sources')
    else:
        zc, model = gen.populate(ctx, rng, spec, src, nparts=(1, 8))
    if chance(rng, .4):
        change(ctx, rng, spec, src, zc, model, 'source')
    # as another session sees it
    zc = gen.reopen(src, pick(rng, ['r', 'w'])) if chance(rng, .5) else zc
    flt, pred, fkind = gen.random_filter(rng, spec, model.keys())
    sel = model.keys(pred)
    kw = {}
    if chance(rng, .6):
        kw['npartitions'] = int(rng.integers(1, 12))
    if dst.fs is not src.fs or chance(rng, .5):
        kw['filesystem'] = dst.fs
    if flt is not None or chance(rng, .5):
        kw['filters'] = flt
    mode = pick(rng, ['w', 'w', 'w', 'r'])
    if mode == 'r' or chance(rng, .3):
        kw['mode'] = mode
    target = dst.base + ('/' if chance(rng, .2) and dst.kind == 'local' else '')
    ctx.log('copy', src.kind, dst.kind, fkind, {k: v for k, v in kw.items() if k in ('npartitions', 'mode')}, [spec.path(k) for k in sel])
    before = src.snap()
    cp = zc.copy(target, **kw)
    copied = restrict(model, sel)
    ctx.check(src.snap() == before, 'copying changed the source', diff=tree.diff(before, src.snap()))
    ctx.check(config(src) == config(dst), 'configuration of the copy', got=config(dst), want=config(src))
    ctx.check(cp.mode == mode and cp.partitioning.get_config() == zc.partitioning.get_config() and set(cp.metadata.variables) == set(zc.metadata.variables) and cp.axis == zc.axis, 'definition of the copy')
    equal(ctx, 'copy', spec, dst, cp, copied)
    immutable(ctx, 'copied fixed variables', spec, dst, cp, copied)
    reopened = gen.reopen(dst, 'w')
    equal(ctx, 'copy, reopened', spec, dst, reopened, copied)
    # file by file
    after = dst.snap()
    want = {p: h for p, h in before.items() if tree.part_of(p, spec.depth) is None and h is not None and '=' not in p or tree.part_of(p, spec.depth) in {spec.path(k) for k in sel}}
    for p, h in want.items():
        if h is not None:
            ctx.check(after.get(p) == h, 'file of the copy', path=p, got=after.get(p), want=h)
    ctx.count('files_compared', len(want))
    ctx.sig(src.kind, dst.kind, fkind, mode, bool(spec.fixed_vars), min(len(sel), 4), 'npartitions' in kw and min(kw['npartitions'], 4))
    # both collections live on their own
    other = gen.reopen(src, 'w')
    for i in range(int(rng.integers(1, 4))):
        if chance(rng, .5):
            frozen = dst.snap()
            change(ctx, rng, spec, src, other, model, 'source')
            ctx.check(dst.snap() == frozen, 'a change of the source reached the copy', diff=tree.diff(frozen, dst.snap()))
        else:
            frozen = src.snap()
            change(ctx, rng, spec, dst, reopened, copied, 'copy')
            ctx.check(src.snap() == frozen, 'a change of the copy reached the source', diff=tree.diff(frozen, src.snap()))
        ctx.count('independent_changes')
    equal(ctx, 'source, afterwards', spec, src, other, model)
    equal(ctx, 'copy, afterwards', spec, dst, reopened, copied)
    immutable(ctx, 'fixed variables, afterwards', spec, dst, reopened, copied)
    # a second copy onto the same target
    if chance(rng, .6):
        flt, pred, fkind = gen.random_filter(rng, spec, model.keys())
        sel = model.keys(pred)
        clash = [k for k in sel if k in copied.parts]
        frozen, source = dst.snap(), src.snap()
        ctx.log('copy again', fkind, [spec.path(k) for k in sel], 'present', [spec.path(k) for k in clash])
        again = {'npartitions': int(rng.integers(1, 6))} if chance(rng, .5) else {}
        if clash:
            ctx.expect_raises(Exception, lambda: other.copy(dst.base, filters=flt, filesystem=dst.fs, **again), 'a copy over existing partitions was accepted')
            ctx.count('refused_copies')
            stopped = dst.snap()
            time.sleep(.04)
            ctx.check(dst.snap() == stopped, 'a copy goes on after its failure was reported', diff=tree.diff(stopped, dst.snap()))
        else:
            other.copy(dst.base, filters=flt, filesystem=dst.fs, **again)
            for k in sel:
                copied.parts[k] = model.parts[k]
            if copied.fixed is None:
                copied.fixed = model.fixed      # the source was empty when it was first copied
            equal(ctx, 'completed copy', spec, dst, gen.reopen(dst, 'r'), copied)
            ctx.count('completed_copies', bool(sel))
        now = dst.snap()
        lost = {p: (h, now.get(p)) for p, h in frozen.items() if now.get(p) != h}
        ctx.check(not lost or set(lost) <= {'.zcollection'}, 'a copy overwrote files of the target', lost=lost)
        ctx.check(src.snap() == source, 'a second copy changed the source')
    src.close()
    dst.close()
