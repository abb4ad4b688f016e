"""Partition keys through every encoding: paths, prefixes, encode/decode, ordering, splitting of datasets, directory listings."""
import datetime, json, pickle
import dask.array as da
import fsspec, numpy as np
from zcollection import dataset, partitioning
from zcollection.partitioning import registry
from .. import gen
from ..gen import RES, UNITS, chance, pick

CASES = {'quick': 1600, 'thorough': 40000}

NAMES = ['cycle', 'pass_number', 'a', 'aa', 'b', 'Year', 'x.y', 'a+b', 'é', 'p(1)', 'sat number', 'c$', '_', 'k0', 'month', 'time', '[z]', 'a|b', '^s', 'w*', 'q?', '{2}']
PREFIX = ['', '/', 'rel', '/base', '/a b/c', '/data/year=2020', '/x/cycle=5/pass_number=7', 's3://bucket/é', '/year=2000/month=01', 'a=1/b=2', '/tmp/./x', '/d.e=f', '/month=12', 'C:\\d']
DT = {'int8': (-128, 127), 'uint8': (0, 255), 'int16': (-2**15, 2**15 - 1), 'uint16': (0, 2**16 - 1), 'int32': (-2**31, 2**31 - 1), 'uint32': (0, 2**32 - 1),
      'int64': (-2**63, 2**63 - 1), 'uint64': (0, 2**64 - 1)}
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def random_date(rng, depth):
    year = int(pick(rng, [1, 9, 10, 99, 100, 476, 999, 1000, 1582, 1899, 1900, 1950, 1969, 1970, 1999, 2000, 2020, 2023, 2024, 2100, 9999]) if chance(rng, .6) else rng.integers(1, 10000))
    month = int(pick(rng, [1, 2, 9, 10, 12]) if chance(rng, .5) else rng.integers(1, 13))
    leap = year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)
    last = 29 if leap and month == 2 else DAYS[month - 1]
    day = int(pick(rng, [1, 9, 10, last]) if chance(rng, .6) else rng.integers(1, last + 1))
    rest = [int(pick(rng, [0, 1, 9, 10, top - 1]) if chance(rng, .6) else rng.integers(0, top)) for top in (24, 60, 60)]
    return (year, month, day, *rest)[:depth]


def random_int(rng, lo, hi):
    if chance(rng, .6):
        c = [v for v in (lo, lo + 1, -1, 0, 1, 2, 9, 10, 11, 99, 100, 101, hi - 1, hi) if lo <= v <= hi]
        return int(pick(rng, c))
    span = min(hi - lo, 10**int(rng.integers(1, 19)))
    base = lo if chance(rng, .3) else max(lo, min(0, hi))
    return int(min(hi, base + int(rng.integers(0, max(1, span), dtype='i8' if span < 2**63 else 'u8'))))


def check_dates(ctx):
    rng = ctx.rng
    res = pick(rng, RES)
    depth = RES.index(res) + 1
    part = partitioning.Date(('time', ), res)
    part = pick(rng, [lambda p: p, lambda p: pickle.loads(pickle.dumps(p)), lambda p: registry.get_codecs(json.loads(json.dumps(p.get_config())))])(part)
    names = UNITS[:depth]
    ctx.check(len(part) == depth and tuple(n for n, _ in part.dtype()) == names, 'the keys of the partitioning', got=part.dtype())
    keys = {random_date(rng, depth) for _ in range(12)}
    k0 = pick(rng, sorted(keys))
    keys |= {k0[:-1] + (v, ) for v in (1, 2, 10, 11) if names[-1] != 'day' or v <= 28}
    exact = {}
    for k in sorted(keys):
        scheme = tuple(zip(names, k))
        path = '/'.join(f'{n}={v:02d}' for n, v in scheme)
        ctx.check(part.join(scheme, '/') == path, 'joined path', key=k, got=part.join(scheme, '/'), want=path)
        one(ctx, rng, part, scheme, path)
        enc = part.encode(scheme)
        want = np.datetime64(datetime.datetime(*(k + (1, 1, 0, 0, 0)[depth - 1:]))if depth < 6 else datetime.datetime(*k), 's')
        ctx.check(len(enc) == 1 and isinstance(enc[0], np.datetime64) and enc[0].astype('M8[s]') == want, 'encoded date', key=k, got=enc, want=want)
        back = part.decode(enc)
        ctx.check(back == scheme, 'decoded key', key=scheme, got=back)
        for unit in ('s', 'us', 'ms'):
            ctx.check(part.decode((want.astype(f'M8[{unit}]'), )) == scheme, 'decoded from another unit', key=scheme, unit=unit)
        for (n, v), (m, dt) in zip(scheme, part.dtype()):
            ctx.check(n == m and int(np.array(v).astype(dt)) == v, 'the type of a key cannot hold it', key=scheme, dtype=part.dtype())
        exact[path] = (k, want)
        ctx.count('date_keys')
    order(ctx, part, exact)
    # the paths a dataset is split into
    units = ['s', 'us', 'ms'] + (['ns'] if all(1700 < k[0] < 2200 for k in keys) else [])
    t = np.array([exact[p][1] for p in sorted(exact, key=lambda p: exact[p][1])]).astype(f'M8[{pick(rng, units)}]')
    reps = rng.integers(1, 3, size=t.size)
    t = np.repeat(t, reps)
    arr = da.from_array(t, chunks=int(rng.integers(1, t.size + 1))) if chance(rng, .4) else t
    zds = dataset.Dataset([(dataset.DelayedArray if isinstance(arr, da.Array) else dataset.Array)('time', arr, ('n', ))])
    split(ctx, part, zds, exact, reps)
    ctx.sig('date', res, isinstance(arr, da.Array), str(t.dtype))


def check_sequence(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    names = tuple(str(x) for x in rng.permutation(NAMES)[:n])
    dtype = None if chance(rng, .3) else tuple(pick(rng, list(DT)) for _ in range(n))
    part = partitioning.Sequence(names, dtype)
    part = pick(rng, [lambda p: p, lambda p: pickle.loads(pickle.dumps(p)), lambda p: registry.get_codecs(json.loads(json.dumps(p.get_config())))])(part)
    dts = dtype or ('int64', ) * n
    ctx.check(part.dtype() == tuple(zip(names, dts)), 'the keys of the partitioning', got=part.dtype(), want=tuple(zip(names, dts)))
    keys = {tuple(random_int(rng, *DT[d]) for d in dts) for _ in range(12)}
    k0 = pick(rng, sorted(keys))
    keys |= {k0[:-1] + (v, ) for v in (1, 2, 10, 100)}
    exact = {}
    for k in sorted(keys):
        scheme = tuple(zip(names, k))
        path = '/'.join(f'{m}={v}' for m, v in scheme)
        ctx.check(part.join(scheme, '/') == path, 'joined path', key=k, got=part.join(scheme, '/'))
        one(ctx, rng, part, scheme, path)
        enc = part.encode(scheme)
        ctx.check(tuple(enc) == k, 'encoded key', key=k, got=enc)
        ctx.check(part.decode(enc) == scheme, 'decoded key', key=scheme, got=part.decode(enc))
        ctx.check(part.decode(tuple(np.array(v).astype(d)[()] for v, d in zip(k, dts))) == scheme, 'decoded from numpy scalars', key=scheme)
        exact[path] = (k, k)
        ctx.count('sequence_keys')
    order(ctx, part, exact)
    ks = sorted(exact, key=lambda p: exact[p][0])
    reps = rng.integers(1, 3, size=len(ks))
    hold = [d for d in ('int64', 'uint64') if all(DT[d][0] <= v <= DT[d][1] for k in keys for v in k)]
    if hold and all(m.strip() for m in names):
        dt = pick(rng, hold)
        cols = {m: np.repeat(np.array([exact[p][0][i] for p in ks], dtype=dt), reps) for i, m in enumerate(names)}
        lazy = chance(rng, .4)
        c = int(rng.integers(1, reps.sum() + 1))
        zds = dataset.Dataset([(dataset.DelayedArray if lazy else dataset.Array)(m, da.from_array(a, chunks=c) if lazy else a, ('n', )) for m, a in cols.items()])
        split(ctx, part, zds, exact, reps)
        ctx.sig('sequence', n, dts, dt, lazy)


def one(ctx, rng, part, scheme, path):
    """Parse and refusals of one key."""
    for prefix in {pick(rng, PREFIX) for _ in range(3)}:
        full = f'{prefix}/{path}' if prefix not in ('', '/') else prefix + path
        got = part.parse(full)
        ctx.check(got == scheme and all(type(v) is int for _, v in got), 'parsed key', path=full, got=got, want=scheme)
        ctx.count('parsed')
    if chance(rng, .3):
        ctx.check(part.parse(path + '/') == scheme, 'parsed key with a trailing slash', path=path)
    sep = pick(rng, ['/', '\\'])
    ctx.check(part.parse(part.join(scheme, sep)) == scheme, 'parsed key with another separator', sep=sep)
    parts = path.split('/')
    bad = [('extra', path + '/zz=1'), ('file', path + '/.zmetadata'), ('no value', '/'.join(parts[:-1] + [parts[-1].split('=')[0] + '='])),
           ('text value', '/'.join(parts[:-1] + [parts[-1].split('=')[0] + '=ab'])), ('other name', '/'.join(parts[:-1] + ['z' + parts[-1]])),
           ('prefixed name', '/'.join(['z' + parts[0]] + parts[1:])), ('trailing text', path + 'a'), ('decimal', path + '.5'), ('empty', ''), ('unrelated', '/data/other')]
    if len(parts) > 1:
        bad += [('missing first', '/'.join(parts[1:])), ('missing last', '/'.join(parts[:-1])), ('reversed', '/'.join(reversed(parts)))]
    for what, p in [bad[i] for i in rng.permutation(len(bad))[:3]]:
        ctx.expect_raises(ValueError, lambda: part.parse(p), f'a path of another scheme was accepted ({what}: {p})')
        ctx.count('refused')


def order(ctx, part, exact):
    paths = list(exact)
    ctx.check(len({part.parse(p) for p in paths}) == len(paths), 'distinct paths parse to the same key')
    got = sorted(paths, key=part.parse)
    want = sorted(paths, key=lambda p: exact[p][1])
    ctx.check(got == want, 'the order of the keys is not the order of what they denote', got=got[:5], want=want[:5])
    if want != sorted(paths):
        ctx.count('numeric_differs_from_textual')
    enc = [part.encode(part.parse(p)) for p in want]
    ctx.check(all(a < b for a, b in zip(enc, enc[1:])), 'encoded keys are not in order')
    ctx.count('orders')


class FakeFS:
    """A directory listing, in arbitrary order."""
    sep = '/'

    def __init__(self, base, paths, extra=()):
        self.tree = {}
        for p in [f'{base}/{p}' for p in paths] + list(extra):
            items = p.split('/')
            for i in range(1, len(items)):
                self.tree.setdefault('/'.join(items[:i]), {})['/'.join(items[:i + 1])] = 'directory'

    def ls(self, path, detail=True, **kwargs):
        names = sorted(self.tree.get(path.rstrip('/'), {}), key=lambda n: hash(n) % 1009)
        return [{'name': n, 'type': 'directory', 'size': 0} for n in names] if detail else names


def split(ctx, part, zds, exact, reps):
    want = sorted(exact, key=lambda p: exact[p][1])
    got = list(part.split_dataset(zds, 'n'))
    ctx.check(['/'.join(p) for p, _ in got] == want, 'a dataset is split into other paths', got=['/'.join(p) for p, _ in got][:6], want=want[:6])
    stops = np.cumsum(reps).tolist()
    ctx.check([(s['n'].start, s['n'].stop) for _, s in got] == list(zip([0] + stops[:-1], stops)), 'a dataset is split at other rows')
    ctx.count('splits')
    base = pick(ctx.rng, ['/base', '/a=1/b', 'mem'])
    if not any('/' in n for n in (k for k, _ in part.dtype())):
        fs = FakeFS(base, exact)
        names = list(part.list_partitions(fs, base))
        ctx.check(names == [f'{base}/{p}' for p in want], 'the listing is not in the order of the keys', got=names[:5], want=want[:5])
        ctx.count('listings')


def run(ctx, e):
    (check_dates if ctx.case % 2 else check_sequence)(ctx)
    ctx.sample({'case': ctx.case})
