"""Histories of insertions and drops against a map {partition key: rows}, with a byte-level frame condition."""
import numpy as np
from .. import env, gen, tree
from ..gen import chance, pick

CASES = {'quick': 80, 'thorough': 1500}


def setup(ctx, shard):
    return env.make(shard)


def observe(ctx, what, spec, place, zc, model, rng):
    exp_paths = [spec.path(k) for k in model.keys()]
    got = list(zc.partitions(relative=True))
    ctx.check(got == exp_paths, f'{what}: listing differs', got=got, expected=exp_paths)
    base = zc.partition_properties.dir
    ctx.check(list(zc.partitions()) == [f'{base}/{p}' for p in exp_paths], f'{what}: absolute listing differs')
    ctx.check([p for p, _ in zc.iterate_on_records(relative=True)] == exp_paths, f'{what}: iteration differs')
    exp = model.expect()
    d = chance(rng, 0.5)
    zds = zc.load(delayed=d)
    if exp is None:
        ctx.check(zds is None, f'{what}: an empty collection loads data')
        ctx.count('emptied')
    else:
        gen.check_dataset(ctx, what, spec, zds, exp, delayed=d)


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, .25), nvars=(1, 2))
    place = gen.Place(ctx, rng)
    many = chance(rng, .15)
    universe = gen.random_keys(rng, spec, int(rng.integers(16, 34)) if many else int(rng.integers(3, 7)))
    sessions = [gen.create(spec, place)]
    model = gen.Model(spec)
    ops = []
    nsteps = int(rng.integers(2, 4) if many else rng.integers(3, 8))
    ctx.count('many_partitions', int(many))
    ctx.log('spec', spec.describe(), place.kind)
    for step in range(nsteps):
        zc = pick(rng, sessions)
        before = place.snap()
        touched = set()
        op = 'insert' if not model.parts or chance(rng, .6) else 'drop'
        if op == 'insert':
            ks = [k for k in universe if chance(rng, .8 if many else .5)] or [pick(rng, universe)]
            rows = gen.rows_for(rng, spec, ks, nrows=(1, 2) if many else (1, 6))
            delayed = chance(rng, .5)
            kw = {} if chance(rng, .3 if many else .6) else {'npartitions': int(rng.integers(1, 17 if many else 4))}
            ctx.log('insert', [spec.path(k) for k in ks], 'delayed', delayed, kw)
            over = [k for k in ks if k in model.parts]
            ctx.count('overwrites', len(over))
            ret = list(zc.insert(gen.make_dataset(spec, rows, delayed, rng), **kw))
            model.insert(rows)
            touched = set(map(spec.path, ks))
            ctx.check(sorted(ret) == sorted(f'{zc.partition_properties.dir}/{p}' for p in touched), 'insert returned other partitions', got=ret)
            ctx.count('ops_insert')
            if over:
                op = 'overwrite'
        else:
            mode = pick(rng, ['all', 'str', 'func', 'none'])
            ks = model.keys()
            if mode == 'all' and chance(rng, .5):
                sel, flt = ks, None
            elif mode in ('str', 'all'):
                k = pick(rng, ks)
                name = pick(rng, spec.key_names)
                val = dict(zip(spec.key_names, k))[name]
                opn = pick(rng, ['==', '<=', '>', '!='])
                flt = f'{name} {opn} {val}'
                cmp = {'==': lambda a: a == val, '<=': lambda a: a <= val, '>': lambda a: a > val, '!=': lambda a: a != val}[opn]
                sel = [q for q in ks if cmp(dict(zip(spec.key_names, q))[name])]
            elif mode == 'func':
                chosen = {q for q in ks if chance(rng, .5)}
                sel = [q for q in ks if q in chosen]
                names = spec.key_names
                flt = lambda keys, chosen=chosen, names=names: tuple(keys[n] for n in names) in chosen
            else:
                sel, flt = [], lambda keys: False
            ctx.log('drop', mode, flt if isinstance(flt, str) else '', [spec.path(k) for k in sel])
            ret = list(zc.drop_partitions(filters=flt))
            ctx.check(sorted(ret) == sorted(f'{zc.partition_properties.dir}/{spec.path(k)}' for k in sel), 'drop returned other partitions',
                      got=ret, expected=[spec.path(k) for k in sel])
            model.drop(sel)
            touched = set(map(spec.path, sel))
            ctx.count('ops_drop')
            if not sel:
                op = 'dropnone'
        ops.append(op)
        after = place.snap()
        # frame: whatever is not addressed keeps its bytes
        skip = tuple(touched)
        keep = lambda t: {p: v for p, v in t.items() if v is not None and not any(p.startswith(s + '/') for s in skip) and
                          not p.startswith('.immutable')}
        a, b = keep(before), keep(after)
        ctx.check(a == b, f'{op} changed files it does not address', **tree.diff(a, b))
        if any(p.startswith('.immutable') for p in before):
            a = {p: v for p, v in before.items() if p.startswith('.immutable')}
            b = {p: v for p, v in after.items() if p.startswith('.immutable')}
            ctx.check(a == b, f'{op} changed the non-partitioned variables', **tree.diff(a, b))
        ctx.count('frame_partitions_checked', len(model.parts) - len([k for k in model.parts if spec.path(k) in touched]))
        observe(ctx, f'after step {step} ({op})', spec, place, zc, model, rng)
        if len(sessions) > 1:
            observe(ctx, f'other session after step {step}', spec, place, pick(rng, sessions), model, rng)
        if chance(rng, .35):
            zr = gen.reopen(place, pick(rng, ['r', 'w']))
            observe(ctx, f'reopened after step {step}', spec, place, zr, model, rng)
            ctx.count('reopens')
            if zr.mode == 'w' and len(sessions) < 3:
                sessions.append(zr)
    gen.check_stored(ctx, 'stored', spec, place.fs, place.base, model)
    for a, b in zip(ops, ops[1:]):
        ctx.sig(a, b, spec.kind, spec.depth, place.kind)
    ctx.sample({'ops': ops, 'partitions': [spec.path(k) for k in model.keys()][:4]})
    place.close()
