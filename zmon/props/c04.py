"""merge_time_series against its definition on numpy arrays, called directly and through Collection.insert."""
import numpy as np
from zcollection import merging
from .. import env, gen
from ..gen import Var, chance, pick

CASES = {'quick': 700, 'thorough': 12000}


def setup(ctx, shard):
    return env.make(shard)


def oracle(spec, old, new, tolerance):
    """Rows of `old` strictly outside every run of `new`, plus all rows of `new`, by time."""
    t_old, t_new = old[spec.axis].astype('i8'), new[spec.axis].astype('i8')
    if tolerance is None:
        runs = [(t_new[0], t_new[-1])]
    else:
        tol = int(np.timedelta64(tolerance).astype(f'm8[{np.datetime_data(np.dtype(spec.axis_dtype))[0]}]').astype('i8'))
        cut = [0] + [i for i in range(1, len(t_new)) if t_new[i] - t_new[i - 1] > tol] + [len(t_new)]
        runs = [(t_new[a], t_new[b - 1]) for a, b in zip(cut, cut[1:])]
    keep = np.ones(len(t_old), bool)
    for a, b in runs:
        keep &= (t_old < a) | (t_old > b)
    kept = spec.take(old, np.where(keep)[0])
    t = np.concatenate([kept[spec.axis].astype('i8'), t_new])
    order = np.argsort(t, kind='stable')
    return spec.take(spec.concat([kept, new]), order), keep, runs


def times(rng, ctx):
    """Two sorted integer time sequences in small coordinates, so that touching and one-unit gaps are common."""
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    span = pick(rng, [4, 8, 12, 20, 40])
    if chance(rng, .02):
        n, m, span = int(rng.integers(20, 100)), int(rng.integers(1, 100)), 150
        ctx.count('long_series')
    a0, b0 = int(rng.integers(0, 12)), int(rng.integers(0, 12))
    dup = chance(rng, .2)
    a = np.sort(rng.integers(0, span, n)) if dup else np.sort(rng.permutation(max(span, n))[:n])
    b = np.sort(rng.integers(0, span, m)) if dup else np.sort(rng.permutation(max(span, m))[:m])
    return a + a0, b + b0


def run(ctx, e):
    rng = ctx.rng
    resolution = pick(rng, ['Y', 'M', 'D'])
    spec = gen.random_spec(rng, fixed=False, kinds=('date', 'date', 'seq'), nvars=(1, 3), resolutions=(resolution, ))
    unit = pick(rng, ['ns', 'us', 'ms', 's', 'm', 'h'] + (['D'] if resolution != 'D' else []))
    spec.axis_dtype = spec.var(spec.axis).dtype = f'M8[{unit}]'
    cap = {'D': 24 if unit == 'h' else 20 if unit == 'D' else 10**9}.get(resolution, 10**9)
    a, b = times(rng, ctx)
    if resolution == 'D' and unit == 'h':
        a, b = a % 24, b % 24
    if resolution == 'M' and unit == 'D':
        a, b = a % 28, b % 28
    a, b = np.sort(a), np.sort(b)
    base = np.datetime64(pick(rng, ['2019-05-01', '1969-12-01', '1970-01-01']), 'D').astype(f'M8[{resolution}]').astype(spec.axis_dtype).astype('i8')
    scale = pick(rng, [1, 1, 1, 3]) if unit in ('ns', 'us', 'ms', 's') else 1
    coarse = None
    if unit in ('ns', 'us', 'ms', 's') and chance(rng, .2):
        coarse = {'ns': 'us', 'us': 'ms', 'ms': 's', 's': 'm'}[unit]
        scale = 60 if unit == 's' else 1000
    seq = sorted(set(map(tuple, gen.random_keys(rng, spec, int(rng.integers(1, 3)))))) if spec.kind == 'seq' else None

    def rows(t):
        out = {}
        n = len(t)
        for v in spec.vars:
            shape = tuple(n if d == spec.dim else spec.sizes[d] for d in v.dims)
            out[v.name] = (base + t * scale).astype('i8').astype(spec.axis_dtype) if v.name == spec.axis else gen.random_values(rng, v, shape)
        if seq:
            # the first rows belong to the first key, the others to the second one
            cut = int(rng.integers(0, n + 1)) if len(seq) > 1 else n
            for i, k in enumerate(spec.keys):
                out[k] = np.array([seq[0][i]] * cut + [seq[-1][i]] * (n - cut), spec.var(k).dtype)
        return out

    old, new = rows(a), rows(b)
    tolerance = None
    if chance(rng, .45):
        tolerance = np.timedelta64(int(rng.integers(0, 6)) * scale, unit)
        if coarse:
            tolerance = np.timedelta64(int(rng.integers(0, 6)), coarse)
            ctx.count('tolerance_in_another_unit')
        elif unit in ('s', 'ms', 'us') and chance(rng, .2):
            tolerance = np.timedelta64(int(rng.integers(0, 12)) * scale * 500, {'s': 'ms', 'ms': 'us', 'us': 'ns'}[unit])
            ctx.count('tolerance_in_another_unit')
    exp, keep, runs = oracle(spec, old, new, tolerance)
    ao, bo = old[spec.axis].astype('i8'), new[spec.axis].astype('i8')
    if bo[-1] < ao[0]:
        pos = 'before'
    elif bo[0] > ao[-1]:
        pos = 'after'
    elif bo[0] <= ao[0] and bo[-1] >= ao[-1]:
        pos = 'contains'
    elif bo[0] > ao[0] and bo[-1] < ao[-1]:
        pos = 'inside'
    elif bo[0] <= ao[0]:
        pos = 'before_overlap'
    else:
        pos = 'after_overlap'
    ctx.count(f'pos_{pos}')
    if any(((ao - e2 == 1) | (ao - s2 == -1)).any() for s2, e2 in runs):
        ctx.count('adjacent_by_one_unit')
    delayed = chance(rng, .5) and len(runs) < 12     # merging many runs lazily is slow
    ctx.log('old', ao.tolist(), 'new', bo.tolist(), 'tolerance', tolerance, unit, 'delayed', delayed, spec.describe())
    ctx.count('kept_rows', int(keep.sum()))
    ctx.count('replaced_rows', int((~keep).sum()))
    if tolerance is not None:
        ctx.count('tolerance_runs', len(runs))
    how = 'direct' if chance(rng, .45) else 'insert'
    kw = {} if tolerance is None else {'tolerance': tolerance}
    ds_old, ds_new = gen.make_dataset(spec, old, delayed, rng), gen.make_dataset(spec, new, delayed, rng)
    if how == 'direct':
        res = merging.merge_time_series(ds_old, ds_new, spec.axis, spec.dim, **kw)
        gen.check_dataset(ctx, 'merge', spec, res, exp, attrs=False, delayed=delayed)
        gen.check_dataset(ctx, 'existing operand', spec, ds_old, old, attrs=False)
        gen.check_dataset(ctx, 'inserted operand', spec, ds_new, new, attrs=False)
        ctx.count('merges_direct')
    else:
        place = gen.Place(ctx, rng)
        zc = gen.create(spec, place)
        other = gen.rows_for(rng, spec, [k for k in gen.random_keys(rng, spec, 6) if k not in set(spec.row_keys(old)) | set(spec.row_keys(new))][:2] or
                             [(2031, 1, 1)[:spec.depth]])
        if chance(rng, .5):
            zc.insert(gen.make_dataset(spec, other, delayed, rng))
        else:
            other = None
        zc.insert(ds_old)
        before = place.snap()
        zc.insert(ds_new, merge_callable=merging.merge_time_series, **kw)
        model = gen.Model(spec)
        if other is not None:
            model.insert(other)
        # merging happens partition by partition
        po, pn = spec.split(old), spec.split(new)
        for k in set(po) | set(pn):
            model.parts[k] = oracle(spec, po[k], pn[k], tolerance)[0] if k in po and k in pn else (po.get(k) or pn.get(k))
        gen.check_stored(ctx, 'merged', spec, place.fs, place.base, model)
        gen.check_dataset(ctx, 'merged', spec, zc.load(delayed=chance(rng, .5)), model.expect())
        if other is not None:
            after = place.snap()
            for p in map(spec.path, spec.split(other)):
                ctx.check({f: h for f, h in before.items() if f.startswith(p + '/')} == {f: h for f, h in after.items() if f.startswith(p + '/')},
                          f'a merge changed the other partition {p}')
        ctx.count('merges_inserted')
        place.close()
    gap = min([abs(int(x) - int(y)) for x in ao for y in (bo[0], bo[-1])])
    ctx.sig(pos, min(gap, 3), None if tolerance is None else min(len(runs), 3), delayed, how, unit)
    ctx.sample({'old': ao.tolist(), 'new': bo.tolist(), 'tolerance': str(tolerance), 'kept': keep.tolist()})
