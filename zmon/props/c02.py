"""Row placement: every row gets a unique tag; the tags found in each stored partition are compared with the keys of the rows."""
import dataclasses
import datetime
import dask.array as da
import numpy as np
import zcollection
from zcollection import dataset, partitioning
from .. import env, gen, tree
from ..gen import Var, chance, pick

CASES = {'quick': 260, 'thorough': 5000}


def setup(ctx, shard):
    return env.make(shard)


def make_spec(rng):
    spec = gen.random_spec(rng, fixed=chance(rng, .2), nvars=(0, 1), codecs=False, dtypes=['f8', 'i4'])
    spec.vars.append(Var('tag', 'i8', (spec.dim, )))
    return spec


def date_axis(rng, spec, n):
    """Dates crowded around partition boundaries, before and after the epoch."""
    unit = np.datetime_data(np.dtype(spec.axis_dtype))[0]
    base = pick(rng, ['1969-12-31T23:59:58', '1970-01-01', '1965-02-28T23:59', '2000-02-29T12', '2016-12-31T23:59:59', '2024-12-30T01',
                      '1899-12-31T22'])
    start = np.datetime64(base, 's').astype(f'M8[{spec.resolution}]')
    edges = start + np.cumsum(rng.integers(0, 3, size=n))
    edges = np.sort(edges).astype(spec.axis_dtype).astype('i8')
    one = 1
    off = np.array([pick(rng, [0, 0, -one, one, 2 * one]) for _ in range(n)])
    return np.sort(edges + off).astype('i8').astype(spec.axis_dtype)


def seq_keys(rng, spec, n):
    lo = -3 if all(np.dtype(spec.var(k).dtype).kind == 'i' for k in spec.keys) and chance(rng, .3) else 0
    hi = pick(rng, [3, 12, 120])
    arr = rng.integers(lo, hi, size=(n, len(spec.keys)))
    arr = arr[np.lexsort(arr.T[::-1])]
    return arr


def build(rng, spec, n):
    rows = {}
    for v in spec.vars:
        shape = tuple(n if d == spec.dim else spec.sizes[d] for d in v.dims)
        if v.name == 'tag':
            rows[v.name] = rng.permutation(n).astype('i8')
        elif v.name == spec.axis and spec.kind == 'date':
            rows[v.name] = date_axis(rng, spec, n)
        elif v.name == spec.axis:
            rows[v.name] = np.arange(n).astype(v.dtype)
        else:
            rows[v.name] = gen.random_values(rng, v, shape)
    if spec.kind == 'seq':
        keys = seq_keys(rng, spec, n)
        for i, k in enumerate(spec.keys):
            rows[k] = keys[:, i].astype(spec.var(k).dtype)
    return rows


def large(ctx, rng):
    """Many rows, or large keys: the slices given by the partitioning, then what is stored, against a numpy grouping."""
    n = int(pick(rng, [255, 256, 257, 1000, 65535, 65536, 65537, 70001, 131073]))
    lazy = chance(rng, .6)
    cls = dataset.DelayedArray if lazy else dataset.Array
    box = (lambda a: da.from_array(a, chunks=int(pick(rng, [n, n // 2 + 1, 9973, 256])) if n > 300 else n)) if lazy else (lambda a: a)
    tag = np.arange(n)
    ncuts = int(pick(rng, [0, 1, 2, 5]))
    if n <= 257 and chance(rng, .4):
        ncuts = n - 1               # a partition per row
    cuts = np.sort(rng.choice(np.arange(1, n), size=min(ncuts, n - 1), replace=False))
    if chance(rng, .3) and ncuts and n > 65536:
        cuts = np.unique(np.append(cuts[:-1], pick(rng, [255, 256, 65535, 65536, n - 1])))
    group = np.searchsorted(cuts, tag, side='right')
    if chance(rng, .6):
        names = ('ka', 'kb', 'kc')[:int(rng.integers(1, 4))]
        hi = int(pick(rng, [2**8, 2**15, 2**31, 2**53, 2**62]))
        lead = [int(rng.integers(0, hi)) for _ in names]
        last = np.array(sorted({int(v) for v in rng.integers(0, min(hi, 2**62), size=4 * len(cuts) + 8)})[:len(cuts) + 1] if len(cuts) < 200 else np.arange(len(cuts) + 1))
        if len(last) <= len(cuts):
            last = np.arange(len(cuts) + 1)
        values = {k: np.full(n, lead[i], 'i8') for i, k in enumerate(names)}
        values[names[-1]] = last[group].astype('i8')
        part = partitioning.Sequence(names, ('int64', ) * len(names))
        paths = [tuple(f'{k}={int(values[k][i])}' for k in names) for i in (0, *cuts)]
    else:
        res = pick(rng, ['Y', 'M', 'D', 'h'])
        t = (np.datetime64('1998-03-01', res) + group).astype('M8[s]')
        values = {'ka': t.astype('M8[ns]')}
        part = partitioning.Date(('ka', ), res)
        paths = []
        for i in (0, *cuts):
            d = t[i].item()
            paths.append(tuple(f'{u}={v:02d}' for u, v in zip(('year', 'month', 'day', 'hour'), (d.year, d.month, d.day, d.hour)))[:'YMDh'.index(res) + 1])
    ctx.log('large', n, 'lazy', lazy, 'partitions', len(paths), paths[:4])
    ds = dataset.Dataset([cls(k, box(v), ('row', )) for k, v in values.items()] + [cls('tag', box(tag), ('row', ))])
    got = [(tuple(p), int(ix['row'].start), int(ix['row'].stop)) for p, ix in part.split_dataset(ds, 'row')]
    want = list(zip(paths, [0, *map(int, cuts)], [*map(int, cuts), n]))
    ctx.check(got == want, 'slices of a large dataset', got=got[:6], expected=want[:6], sizes=(len(got), len(want)))
    if len(paths) < 10 and chance(rng, .5):
        place = gen.Place(ctx, rng)
        zc = zcollection.create_collection('tag', ds, part, place.base, filesystem=place.fs)
        ret = list(zc.insert(ds))
        ctx.check(sorted(ret) == sorted(f'{zc.partition_properties.dir}/{"/".join(p)}' for p in paths), 'partitions of a large insertion', got=ret[:6])
        for p, a, b in want:
            r = gen.zarr_rows(place.fs, f'{place.base}/{"/".join(p)}')
            ctx.check(gen.same(r['tag'][0], tag[a:b]), f'rows of {"/".join(p)} in a large insertion', got=r['tag'][0][:5].tolist(), size=r['tag'][0].size)
        place.close()
        ctx.count('large_insertions')
    ctx.count('large_datasets')
    ctx.sig('large', n, lazy, min(len(paths), 6), type(part).__name__)


def run(ctx, e):
    rng = ctx.rng
    if chance(rng, .12):
        return large(ctx, rng)
    spec = make_spec(rng)
    place = gen.Place(ctx, rng)
    delayed = chance(rng, 0.5)
    n = int(rng.integers(1, 25))
    rows = build(rng, spec, n)
    ctx.log('spec', spec.describe(), place.kind, 'delayed', delayed, 'n', n, 'axis', rows[spec.axis].tolist()[:30] if n < 30 else '',
            [rows[k].tolist() for k in spec.keys])
    if chance(rng, 0.45):
        if chance(rng, .3):
            rows = build(rng, spec, int(rng.integers(50, 400)))
        return unsorted(ctx, rng, spec, place, delayed, rows)
    zc = gen.create(spec, place)
    kw = {} if chance(rng, .6) else {'npartitions': int(rng.integers(1, 5))}
    paths = list(zc.insert(gen.make_dataset(spec, rows, delayed, rng), **kw))
    keys = spec.row_keys(rows)
    expected = {}
    for i, k in enumerate(keys):
        expected.setdefault(spec.path(k), []).append(int(rows['tag'][i]))
    rel = [p[len(zc.partition_properties.dir) + 1:] for p in paths]
    ctx.check(sorted(rel) == sorted(expected) and all(p.startswith(zc.partition_properties.dir + '/') for p in paths),
              'paths returned by insert differ from the keys of the rows', got=rel, expected=sorted(expected))
    found = {}
    for p in gen.list_dirs(place.fs, place.base, spec.depth):
        found[p] = gen.zarr_rows(place.fs, f'{place.base}/{p}')
    ctx.check(set(found) == set(expected), 'stored partitions differ', got=sorted(found), expected=sorted(expected))
    seen = []
    for p, r in found.items():
        tags = r['tag'][0].tolist()
        seen += tags
        ctx.check(tags == expected[p], f'rows stored in {p} differ', got=tags, expected=expected[p])
        ix = [int(np.where(rows['tag'] == t)[0][0]) for t in tags]
        for v in spec.part_vars:
            ctx.check(gen.same(r[v.name][0], np.take(rows[v.name], ix, axis=v.dims.index(spec.dim))), f'{p}/{v.name}: values of other rows')
        ctx.count('partitions_seen')
    ctx.check(sorted(seen) == list(range(n)), 'rows lost or duplicated', got=sorted(seen))
    ctx.count('rows_placed', n)
    if len(expected) > 1:
        ctx.count('boundary_rows')
    ctx.sig('ok', spec.kind, spec.resolution, spec.depth, delayed, place.kind, len(expected) if len(expected) < 6 else 6)
    ctx.sample({'keys': keys[:8], 'partitions': sorted(expected)[:4]})
    place.close()


def level(rng, spec, rows):
    """Rows sorted, except that one key goes back while the keys before it are equal."""
    c = int(rng.integers(0, spec.depth))
    n = len(rows[spec.axis])
    if n < 4:
        return None
    if spec.kind == 'seq':
        cols = np.zeros((n, spec.depth), 'i8')
        cols[:, :c] = rng.integers(0, 5, size=c)
        col = np.sort(rng.integers(0, 4, size=n))
        i = int(rng.integers(1, n))
        col[:i] += 2 if col[i - 1] >= col[i] else col[i] - col[i - 1] + 1
        col[i:] = np.sort(col[i:])
        if chance(rng, .5):          # and comes back to the first value
            col[i:] = np.minimum(col[i:], col[i - 1] - 1)
            col[-1] = col[i - 1]
        cols[:, c] = col
        cols[:, c + 1:] = rng.integers(0, 6, size=(n, spec.depth - c - 1))
        out = dict(rows)
        for j, k in enumerate(spec.keys):
            out[k] = cols[:, j].astype(spec.var(k).dtype)
        return out
    t = rows[spec.axis].copy()
    unit = 'YMDhms'[c]
    i = int(rng.integers(1, n))
    t[i:] = (t[i - 1].astype('M8[s]').astype(f'M8[{unit}]') - 1).astype(t.dtype)
    return {**rows, spec.axis: t}


def unsorted(ctx, rng, spec, place, delayed, rows):
    how = pick(rng, ['return', 'swap', 'reverse', 'tail', 'level', 'level'])
    if how == 'level':
        bad = level(rng, spec, rows)
        if bad is None:
            return
        return refused(ctx, rng, spec, place, delayed, rows, bad, how)
    keys = spec.row_keys(rows)
    n = len(keys)
    distinct = sorted(set(keys))
    if len(distinct) < 2:
        ctx.count('single_partition')
        return
    order = list(range(n))
    first = {k: keys.index(k) for k in distinct}
    if how == 'return':      # A B ... A: an early key comes back later
        i = first[distinct[0]]
        order = order + [i]
    elif how == 'swap':
        b = first[distinct[1]]
        order[b - 1], order[b] = order[b], order[b - 1]
    elif how == 'reverse':
        order = order[::-1]
    else:
        order = order + [first[distinct[-1]] - 1]
    bad = spec.take(rows, order)
    for v in spec.fixed_vars:
        bad[v.name] = rows[v.name]
    refused(ctx, rng, spec, place, delayed, rows, bad, how)


def refused(ctx, rng, spec, place, delayed, rows, bad, how):
    bk = spec.row_keys(bad)
    if bk == sorted(bk):
        return
    zc = gen.create(spec, place)
    if chance(rng, 0.4) and len(bk) < 50:
        zc.insert(gen.make_dataset(spec, rows, delayed, rng))
    before = place.snap()
    ds = gen.make_dataset(spec, bad, delayed, rng)
    try:
        res = list(zc.insert(ds))
    except ValueError:
        ctx.count(f'unsorted_refused_{"lazy" if delayed else "eager"}')
    else:
        ctx.check(False, f'unsorted keys ({how}) were accepted', keys=bk[:20], returned=res)
    after = place.snap()
    ctx.check(before == after, 'a refused dataset changed the stored files', **tree.diff(before, after))
    ctx.sig('unsorted', how, spec.kind, spec.resolution, spec.depth, delayed, place.kind)
    place.close()
