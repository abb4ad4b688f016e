"""One selection, every operation: listing, loading, mapping, updating, dropping and views against a predicate evaluated on the keys."""
import functools, warnings
import numpy as np
import zcollection
from zcollection import view
from .. import calls, env, gen, tree
from ..gen import chance, pick

CASES = {'quick': 200, 'thorough': 4000}


def setup(ctx, shard):
    return env.make(shard)


def trap_keys(rng, spec, n):
    """Keys whose textual and numeric orders differ, sharing prefixes."""
    if spec.kind == 'date':
        return gen.random_keys(rng, spec, n, spread=int(pick(rng, [2, 6, 40])))
    pool = [0, 1, 2, 9, 10, 11, 19, 20, 99, 100, 101, 110, 999, 1000]
    out = set()
    guard = 0
    while len(out) < n and guard < 500:
        guard += 1
        out.add(tuple(int(pick(rng, pool)) for _ in range(spec.depth)))
    return sorted(out)


def map_func(zds, *args, token=None, axis=None, **kw):
    seen = {n: gen.raw(v) for n, v in zds.variables.items()}
    calls.add(token, 1)
    return seen, args, kw


def upd(zds, token=None, spec=None, name=None, salt=0):
    ax = gen.raw(zds.variables[spec.axis])
    calls.add(token, ax.shape[0])
    return {name: gen.result_array(spec.var(name), ax.shape[0], spec.sizes, spec.dim, [gen.ident(ax), salt])}


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, .25), nvars=(1, 3), codecs=False)
    place = gen.Place(ctx, rng)
    zc = gen.create(spec, place)
    model = gen.Model(spec)
    keys = trap_keys(rng, spec, int(rng.integers(1, 10)))
    rows = gen.rows_for(rng, spec, keys, nrows=(1, 3))
    zc.insert(gen.make_dataset(spec, rows, chance(rng, .5), rng), npartitions=None if chance(rng, .5) else 3)
    model.insert(rows)
    # a second insertion in between the existing keys
    if chance(rng, .4):
        more = gen.rows_for(rng, spec, trap_keys(rng, spec, 3), nrows=(1, 3))
        zc.insert(gen.make_dataset(spec, more, False))
        model.insert(more)
    if chance(rng, .3):
        zc = gen.reopen(place, 'w')
    base = zc.partition_properties.dir
    order = sorted(model.parts)
    if [spec.path(k) for k in order] != sorted(spec.path(k) for k in order):
        ctx.count('numeric_differs_from_textual')
    ctx.log('spec', spec.describe(), place.kind, [spec.path(k) for k in order])
    for step in range(3):
        flt, pred, fkind = gen.random_filter(rng, spec, model.keys())
        sel = model.keys(pred)
        names = spec.key_names
        paths = [spec.path(k) for k in sel]
        ctx.log('filter', fkind, flt if isinstance(flt, str) else '', paths)
        # listing
        got = list(zc.partitions(filters=flt, relative=True, lock=chance(rng, .3)))
        ctx.check(got == paths, 'listing differs from the predicate', got=got, expected=paths, filter=str(flt))
        ctx.check(list(zc.partitions(filters=flt)) == [f'{base}/{p}' for p in paths], 'absolute listing differs')
        cached = list(zc.partitions())
        ctx.check(list(zc.partitions(filters=flt, cache=cached, relative=True)) == paths, 'listing from a cache differs')
        ctx.count('listings', 3)
        # the same predicate in the other form
        if isinstance(flt, str):
            ctx.check(list(zc.partitions(filters=lambda d: pred(d), relative=True)) == paths, 'text and function filters disagree')
            ctx.count('text_filters')
        # loading with variable selection
        selected = None if chance(rng, .5) else [n for n in spec.names if chance(rng, .5)]
        if selected is not None and not selected:
            selected = [spec.axis]
        d = chance(rng, .5)
        zds = zc.load(filters=flt, delayed=d, selected_variables=selected)
        exp = model.expect(pred)
        if not sel:
            ctx.check(zds is None, 'loading an empty selection returned a dataset')
            ctx.count('empty_selections')
        else:
            gen.check_dataset(ctx, 'load', spec, zds, exp, names=selected, delayed=d, codecs=False)
            ctx.count('loads')
        # mapping
        token = calls.new()
        kw = {}
        r = rng.random()
        if r < .3:
            kw['partition_size'] = int(rng.integers(1, 5))
        elif r < .6:
            kw['npartitions'] = int(rng.integers(1, 12))
        args = ('p', 4) if chance(rng, .3) else ()
        extra = {'opt': 1} if chance(rng, .3) else {}
        res = zc.map(functools.partial(map_func, token=token), *args, filters=flt, delayed=d, selected_variables=selected, **kw, **extra).compute()
        ctx.check([tuple(map(tuple, k)) for k, _ in res] == [tuple(zip(names, k)) for k in sel], 'mapping returned other keys or another order',
                  got=[k for k, _ in res], expected=sel, kw=kw)
        ctx.check(len(calls.get(token)) == len(sel), 'number of calls of the mapped function', got=len(calls.get(token)), expected=len(sel))
        for k, (_, (seen, a, x)) in zip(sel, res):
            exp_names = set(spec.names) if selected is None else set(selected)
            ctx.check(a == args and x == extra, 'mapped function received other arguments', got=(a, x))
            ctx.check(set(seen) == exp_names, 'mapped function received other variables', got=sorted(seen), expected=sorted(exp_names))
            for n, arr in seen.items():
                e_ = model.fixed[n] if n in (model.fixed or {}) else model.parts[k][n]
                ctx.check(gen.same(arr, e_), f'result of {spec.path(k)} computed from other data ({n})')
                ctx.count('map_arrays_checked')
        # a view over the same selection
        if step == 0 and chance(rng, .4):
            vplace = gen.Place(ctx, rng)
            v = zcollection.create_view(vplace.base, view.ViewReference(place.base, place.fs), filters=flt if isinstance(flt, str) else None,
                                        filesystem=vplace.fs)
            covered = sel if isinstance(flt, str) else model.keys()
            f2, p2, _ = gen.random_filter(rng, spec, model.keys())
            got = [p[len(v.base_dir) + 1:] for p in v.partitions(filters=f2)]
            want = [spec.path(k) for k in covered if p2(dict(zip(names, k)))]
            ctx.check(got == want, 'partitions of a view differ from the predicate', got=got, expected=want)
            ctx.count('view_listings')
            vplace.close()
        op = pick(rng, ['none', 'update', 'drop'])
        if op == 'update':
            cand = [x.name for x in spec.part_vars if x.name.startswith('var')]
            name = pick(rng, cand)
            salt = int(rng.integers(2**31))
            token = calls.new()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                zc.update(functools.partial(upd, token=token, spec=spec, name=name, salt=salt), filters=flt, variables=(name, ),
                          npartitions=None if chance(rng, .5) else int(rng.integers(1, 6)))
            ctx.check(len(calls.get(token)) == len(sel), 'update was applied to another number of partitions', got=len(calls.get(token)))
            for k in sel:
                r_ = dict(model.parts[k])
                r_[name] = gen.result_array(spec.var(name), spec.nrows(r_), spec.sizes, spec.dim, [gen.ident(r_[spec.axis]), salt])
                model.parts[k] = r_
            gen.check_dataset(ctx, 'after update', spec, zc.load(delayed=False), model.expect(), codecs=False)
            ctx.count('updates')
        elif op == 'drop':
            ret = list(zc.drop_partitions(filters=flt))
            ctx.check(sorted(ret) == sorted(f'{base}/{p}' for p in paths), 'drop selected other partitions', got=ret, expected=paths)
            model.drop(sel)
            ctx.check(list(zc.partitions(relative=True)) == [spec.path(k) for k in model.keys()], 'listing after the drop',
                      got=list(zc.partitions(relative=True)))
            ctx.count('drops')
        ctx.sig(spec.kind, spec.depth, fkind, op, selected is not None, d, min(len(sel), 5), 'size' if 'partition_size' in kw else 'n' if kw else '', place.kind)
        if not model.parts:
            break
    ctx.sample({'filter': str(flt)[:80], 'selected': paths[:5], 'of': len(order)})
    place.close()
