"""Seeded generators of collections, datasets and histories, plus the reference model of a collection.

Nothing here calls zcollection to predict an answer: row -> partition placement, ordering and expected contents
are computed from numpy/datetime only.
"""
from __future__ import annotations
import dataclasses, datetime, itertools, os
import dask.array as da
import fsspec, numcodecs, numpy as np, zarr
import zcollection
from zcollection import collection, dataset, meta, partitioning
from zcollection.meta import Attribute, Dimension

UNITS = ('year', 'month', 'day', 'hour', 'minute', 'second')
RES = ('Y', 'M', 'D', 'h', 'm', 's')

INT = ['i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8']


@dataclasses.dataclass
class Var:
    name: str
    dtype: str
    dims: tuple
    fill: object = None
    compressor: object = None
    filters: tuple = ()
    attrs: dict = dataclasses.field(default_factory=dict)

    def attributes(self):
        return tuple(Attribute(k, v) for k, v in self.attrs.items())

    def meta(self):
        return meta.Variable(self.name, np.dtype(self.dtype), dimensions=self.dims, attrs=self.attributes(),
                             compressor=self.compressor, fill_value=self.fill, filters=self.filters)


@dataclasses.dataclass
class Spec:
    axis: str
    dim: str
    sizes: dict          # sizes of the other dimensions
    kind: str            # 'date' or 'seq'
    resolution: str | None
    keys: tuple          # names of the partitioning variables
    key_dtype: tuple | None
    vars: list
    attrs: dict
    chunks: dict
    block_size_limit: int | None = None
    axis_dtype: str = 'M8[ns]'

    # -- naming, computed independently of the library ------------------
    @property
    def depth(self):
        return RES.index(self.resolution) + 1 if self.kind == 'date' else len(self.keys)

    @property
    def key_names(self):
        return UNITS[:self.depth] if self.kind == 'date' else self.keys

    def partitioning(self):
        if self.kind == 'date':
            return partitioning.Date((self.keys[0], ), self.resolution)
        return partitioning.Sequence(self.keys, self.key_dtype)

    def path(self, key):
        if self.kind == 'date':
            return '/'.join(f'{k}={v:02d}' for k, v in zip(self.key_names, key))
        return '/'.join(f'{k}={v:d}' for k, v in zip(self.key_names, key))

    def row_keys(self, rows):
        """List of key tuples, one per row."""
        if self.kind == 'date':
            secs = rows[self.keys[0]].astype('M8[s]')
            res = []
            for t in secs:
                d = t.item()
                res.append((d.year, d.month, d.day, d.hour, d.minute, d.second)[:self.depth])
            return res
        return [tuple(int(rows[k][i]) for k in self.keys) for i in range(len(rows[self.keys[0]]))]

    def split(self, rows):
        """{key: rows} in first-appearance order."""
        keys = self.row_keys(rows)
        idx = {}
        for i, k in enumerate(keys):
            idx.setdefault(k, []).append(i)
        return {k: self.take(rows, ix) for k, ix in idx.items()}

    def var(self, name):
        return next(v for v in self.vars if v.name == name)

    @property
    def names(self):
        return [v.name for v in self.vars]

    @property
    def part_vars(self):
        return [v for v in self.vars if self.dim in v.dims]

    @property
    def fixed_vars(self):
        return [v for v in self.vars if self.dim not in v.dims]

    def take(self, rows, ix):
        out = {}
        for v in self.vars:
            if v.name in rows and self.dim in v.dims:
                out[v.name] = np.take(rows[v.name], ix, axis=v.dims.index(self.dim))
        return out

    def concat(self, items):
        items = list(items)
        return {v.name: np.concatenate([r[v.name] for r in items], axis=v.dims.index(self.dim)) for v in self.part_vars
                if all(v.name in r for r in items)}

    def nrows(self, rows):
        return rows[self.axis].shape[0]

    def metadata(self):
        return meta.Dataset(self.dims_order(), [v.meta() for v in self.vars], attrs=[Attribute(k, v) for k, v in self.attrs.items()],
                            chunks=[Dimension(k, v) for k, v in self.chunks.items()], block_size_limit=self.block_size_limit)

    def dims_order(self):
        seen = []
        for v in self.vars:
            for d in v.dims:
                if d not in seen:
                    seen.append(d)
        return tuple(seen)

    def describe(self):
        return {'axis': self.axis, 'dim': self.dim, 'kind': self.kind, 'resolution': self.resolution, 'keys': self.keys,
                'sizes': self.sizes, 'chunks': self.chunks,
                'vars': [(v.name, v.dtype, v.dims, repr(v.fill), type(v.compressor).__name__, [type(f).__name__ for f in v.filters])
                         for v in self.vars]}


COMPRESSORS = [None, lambda: zarr.Blosc(), lambda: zarr.Blosc(cname='zstd', clevel=1, shuffle=2), lambda: numcodecs.Zlib(1),
               lambda: numcodecs.GZip(1), lambda: numcodecs.LZ4(), lambda: numcodecs.Zstd(1), lambda: numcodecs.BZ2(1)]


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def chance(rng, p):
    return bool(rng.random() < p)


def random_compressor(rng):
    c = pick(rng, COMPRESSORS)
    return c() if c else None


def random_attrs(rng):
    pool = [('units', 'm'), ('scale', 0.5), ('n', 3), ('flags', [1, 2]), ('long_name', 'é name'), ('ok', True), ('empty', '')]
    return {k: v for k, v in pool if chance(rng, 0.3)}


def random_var(rng, name, dims, codecs=True, dtypes=None):
    dt = pick(rng, dtypes or (INT + ['f4', 'f8', 'f8', 'f4', '?', 'M8[ns]', 'm8[s]', 'S5', 'U4', 'c8', 'f2']))
    fill = None
    filters = ()
    kind = np.dtype(dt).kind
    if chance(rng, 0.6):
        if kind == 'i':
            fill = int(np.iinfo(dt).max)
            if chance(rng, 0.3):
                fill = 0
        elif kind == 'u':
            fill = pick(rng, [0, int(np.iinfo(dt).max)])
        elif kind == 'f':
            fill = pick(rng, [0.0, 99.0, float('nan'), -1.5, float('inf')])
        elif kind == '?':
            fill = None
        elif kind == 'M':
            fill = None
    if codecs and chance(rng, 0.35):
        if dt in ('i4', 'i8', 'u4', 'u8', 'i2'):
            filters = (numcodecs.Delta(dtype='<' + dt), )
        elif dt == 'f8':
            filters = (numcodecs.FixedScaleOffset(scale=100, offset=0, dtype='<f8', astype='<i4'), )
            fill = pick(rng, [None, 99.0, -1.5])
        elif kind in 'iuf':
            filters = (numcodecs.Shuffle(elementsize=np.dtype(dt).itemsize), )
    return Var(name, dt, tuple(dims), fill, random_compressor(rng) if codecs else None, filters, random_attrs(rng))


def random_values(rng, var, shape):
    dt = np.dtype(var.dtype)
    k = dt.kind
    if k in 'iu':
        info = np.iinfo(dt)
        a = rng.integers(max(info.min, -2**31), min(info.max, 2**31 - 1), size=shape, endpoint=True).astype(dt)
        if any(isinstance(f, numcodecs.Delta) for f in var.filters) or chance(rng, 0.5):
            a = rng.integers(0 if k == 'u' else -100, 100, size=shape).astype(dt)
    elif k == 'f':
        a = (rng.integers(-3000, 3000, size=shape) / 100.0).astype(dt)
        if not any(isinstance(f, numcodecs.FixedScaleOffset) for f in var.filters):
            if chance(rng, 0.3):
                a = np.where(rng.random(shape) < 0.2, np.array(np.nan, dt), a)
            if chance(rng, 0.2):
                a = np.where(rng.random(shape) < 0.2, np.array(np.inf, dt), a)
    elif k == 'c':
        a = (rng.integers(-9, 9, size=shape) + 1j * rng.integers(-9, 9, size=shape)).astype(dt)
    elif k == 'b':
        a = rng.random(shape) < 0.5
    elif k == 'M':
        a = (np.datetime64('2000-01-01', 'ns') + rng.integers(0, 10**9, size=shape)).astype(dt)
    elif k == 'm':
        a = rng.integers(-1000, 1000, size=shape).astype(dt)
    elif k == 'S':
        a = np.array([b'%d' % v for v in rng.integers(0, 9999, size=int(np.prod(shape)))], dt).reshape(shape)
    else:
        a = np.array(['é%d' % v for v in rng.integers(0, 999, size=int(np.prod(shape)))], dt).reshape(shape)
    a = np.asarray(a, dt).reshape(shape)
    if var.fill is not None and a.size:
        r = rng.random()
        if r < 0.15:
            a = np.full(shape, var.fill, dt)
        elif r < 0.6:
            a = np.where(rng.random(shape) < 0.3, np.array(var.fill, dt), a).astype(dt)
    return np.ascontiguousarray(a).reshape(shape)


AXIS_NAMES = [('time', 'num_lines'), ('time', 'time'), ('t', 'n'), ('epoch', 'obs')]


def random_spec(rng, *, fixed=False, kinds=('date', 'seq'), nvars=(1, 4), codecs=True, dtypes=None, same_name=None, resolutions=RES,
                transposed=True, ndims=(1, 1, 2, 2, 3)):
    axis, dim = pick(rng, AXIS_NAMES)
    if same_name is not None:
        axis, dim = ('time', 'time') if same_name else ('time', 'num_lines')
    kind = pick(rng, kinds)
    sizes = {'x': int(rng.integers(1, 5)), 'y': int(rng.integers(1, 4))}
    variables = []
    resolution, key_dtype = None, None
    if kind == 'date':
        resolution = pick(rng, resolutions)
        unit = {'Y': 's', 'M': 's', 'D': 'ms', 'h': 'us', 'm': 'ns', 's': 'ns'}[resolution]
        axis_dtype = pick(rng, ['M8[ns]', f'M8[{unit}]'])
        keys = (axis, )
        variables.append(Var(axis, axis_dtype, (dim, ), None, random_compressor(rng) if codecs else None, (), random_attrs(rng)))
    else:
        axis_dtype = pick(rng, ['M8[ns]', 'i8', 'M8[us]'])
        n = int(rng.integers(1, 4))
        keys = tuple(['cycle', 'pass_number', 'track_id'][:n])
        key_dtype = None if chance(rng, 0.5) else tuple(pick(rng, ['int64', 'int32', 'uint16', 'int16']) for _ in keys)
        variables.append(Var(axis, axis_dtype, (dim, ), None, random_compressor(rng) if codecs else None, (), random_attrs(rng)))
        for k in keys:
            variables.append(Var(k, pick(rng, ['i8', 'i4', 'u2', 'i2']), (dim, ), None, random_compressor(rng) if codecs else None, (), {}))
        # numpy.vstack over mixed signed/unsigned key types must stay integer
        if len({np.dtype(v.dtype).kind for v in variables[1:]}) > 1:
            for v in variables[1:]:
                v.dtype = 'i4'
    for i in range(int(rng.integers(nvars[0], nvars[1] + 1))):
        nd = pick(rng, ndims)
        dims = [(dim, ), (dim, 'x'), (dim, 'x', 'y')][nd - 1]
        if transposed and nd > 1 and chance(rng, 0.2):
            dims = tuple(reversed(dims))
        # (the name of a variable is that of a directory of each partition)
        odd = i and chance(rng, 0.3)
        name = pick(rng, ['_var{}', 'VAR{}', 'var.{}', 'var-{}', '{}-hz']).format(i + 1) if odd else f'var{i + 1}'
        variables.append(random_var(rng, name, dims, codecs, dtypes))
    if fixed:
        for i in range(int(rng.integers(1, 3))):
            dims = pick(rng, [('x', ), ('y', ), ('x', 'y')])
            variables.append(random_var(rng, f'fix{i + 1}', dims, codecs, dtypes))
    chunks = {}
    if chance(rng, 0.7):
        chunks[dim] = int(rng.integers(1, 8))
    if chance(rng, 0.4):
        chunks['x'] = int(rng.integers(1, 4))
    used = {d for v in variables for d in v.dims}
    sizes = {d: n for d, n in sizes.items() if d in used}
    chunks = {d: n for d, n in chunks.items() if d in used}
    return Spec(axis, dim, sizes, kind, resolution, keys, key_dtype, variables, random_attrs(rng), chunks,
                None if chance(rng, 0.7) else int(rng.integers(8, 4096)), axis_dtype)


# -- keys and rows ------------------------------------------------------

def random_keys(rng, spec, n, spread=None):
    """n distinct sorted partition keys."""
    if spec.kind == 'date':
        base = np.datetime64('1995-11-30', 's') if chance(rng, .5) else np.datetime64('2019-12-30T22:57', 's')
        unit = spec.resolution
        start = base.astype(f'M8[{unit}]')
        step = rng.integers(1, 4 if spread is None else spread, size=n)
        ks = start + np.cumsum(step)
        res = []
        for k in ks:
            d = k.astype('M8[s]').item()
            res.append((d.year, d.month, d.day, d.hour, d.minute, d.second)[:spec.depth])
        return res
    res = set()
    hi = max(4, n)
    while len(res) < n:
        res.add(tuple(int(rng.integers(0, hi if i else max(14, 3 * n))) for i in range(spec.depth)))
    return sorted(res)


def axis_in(rng, spec, key, n, unique=True):
    """n sorted axis values; for date partitioning inside the partition `key`."""
    if spec.kind == 'date':
        full = list(key) + [1970, 1, 1, 0, 0, 0][len(key):]
        lo = np.datetime64(datetime.datetime(*full), 's')
        hi = (lo.astype(f'M8[{spec.resolution}]') + 1)
        lo_ = lo.astype(spec.axis_dtype).astype('i8')
        hi_ = hi.astype(spec.axis_dtype).astype('i8')
        span = int(hi_ - lo_)
        if span <= n * 2 or not unique:
            off = np.sort(rng.integers(0, span, size=n))
        else:
            r = rng.random()
            if r < 0.25:   # boundaries of the partition
                off = np.unique(np.concatenate([[0, span - 1], rng.integers(0, span, size=n)]))[:n]
            else:
                off = np.sort(rng.integers(0, span, size=n))
        while unique and len(np.unique(off)) < n and span > 2 * n:
            off = np.sort(rng.choice(min(span, 10**9), size=n, replace=False)) if span <= 10**6 else np.sort(rng.integers(0, span, size=n))
        off = off[:n]
        if len(off) < n:
            off = np.sort(rng.integers(0, span, size=n))
        return (lo_ + off).astype('i8').view('i8').astype(spec.axis_dtype)
    # integers: strictly increasing with the key
    base = 0
    for k in key:
        base = base * 1000 + k
    vals = base * 1000 + np.sort(rng.choice(900, size=n, replace=False))
    return np.asarray(vals, 'i8').astype(spec.axis_dtype)


def rows_for(rng, spec, keys, nrows=(1, 7), missing=()):
    """Random rows for sorted keys (one dict of arrays, fixed variables included)."""
    keys = sorted(keys)
    counts = [int(rng.integers(nrows[0], nrows[1] + 1)) for _ in keys]
    axis = np.concatenate([axis_in(rng, spec, k, c) for k, c in zip(keys, counts)])
    n = len(axis)
    rows = {}
    for v in spec.vars:
        if v.name in missing:
            continue
        if v.name == spec.axis:
            rows[v.name] = axis.astype(v.dtype)
        elif spec.kind == 'seq' and v.name in spec.keys:
            ix = spec.keys.index(v.name)
            rows[v.name] = np.repeat([k[ix] for k in keys], counts).astype(v.dtype)
        else:
            shape = tuple(n if d == spec.dim else spec.sizes[d] for d in v.dims)
            rows[v.name] = random_values(rng, v, shape)
    return rows


def random_chunks(rng, shape):
    out = []
    for n in shape:
        if n == 0:
            out.append((0, ))
            continue
        parts = []
        left = n
        mx = int(rng.integers(1, n + 1))
        while left:
            c = int(rng.integers(1, min(mx, left) + 1))
            parts.append(c)
            left -= c
        out.append(tuple(parts))
    return tuple(out)


def make_dataset(spec, rows, delayed, rng=None, masked=False, order=None, attrs=True):
    """A zcollection Dataset holding `rows`."""
    variables = []
    vs = [v for v in spec.vars if v.name in rows]
    if order is not None:
        vs = [vs[i] for i in order(len(vs))]
    for v in vs:
        data = rows[v.name]
        if masked and v.fill is not None and np.dtype(v.dtype).kind in 'iuf' and v.fill == v.fill:
            data = np.ma.masked_equal(data, v.fill)
            data.set_fill_value(v.fill)
            fill = None
        else:
            fill = v.fill
        if delayed:
            data = da.from_array(data, chunks=random_chunks(rng, data.shape) if rng is not None else data.shape)
        cls = dataset.DelayedArray if delayed else dataset.Array
        variables.append(cls(v.name, data, v.dims, attrs=v.attributes() if attrs else (), compressor=v.compressor, fill_value=fill,
                             filters=v.filters))
    chunks = spec.chunks
    if rng is not None and chance(rng, .3):       # the blocks of the collection prevail over those of the data inserted
        chunks = {d: int(rng.integers(1, 9)) for v in vs for d in v.dims if chance(rng, .5)}
    return dataset.Dataset(variables, attrs=[Attribute(k, x) for k, x in spec.attrs.items()] if attrs else None,
                           chunks=[Dimension(k, x) for k, x in chunks.items()], block_size_limit=spec.block_size_limit)


# -- the model ----------------------------------------------------------

class Model:
    """partition key -> rows (numpy only)"""

    def __init__(self, spec):
        self.spec = spec
        self.parts = {}
        self.fixed = None

    def complete(self, rows):
        """Missing variables become fill values."""
        n = self.spec.nrows(rows)
        out = dict(rows)
        for v in self.spec.vars:
            if v.name not in out:
                shape = tuple(n if d == self.spec.dim else self.spec.sizes[d] for d in v.dims)
                out[v.name] = np.full(shape, v.fill, v.dtype)
        return out

    def insert(self, rows):
        rows = self.complete(rows)
        if self.fixed is None and self.spec.fixed_vars:
            self.fixed = {v.name: rows[v.name] for v in self.spec.fixed_vars}
        parts = self.spec.split(rows)
        self.parts.update(parts)
        return list(parts)

    def drop(self, keys):
        for k in keys:
            del self.parts[k]

    def keys(self, pred=None):
        ks = sorted(self.parts)
        return [k for k in ks if pred is None or pred(dict(zip(self.spec.key_names, k)))]

    def expect(self, pred=None):
        ks = self.keys(pred)
        if not ks:
            return None
        rows = self.spec.concat(self.parts[k] for k in ks)
        if self.fixed:
            rows.update(self.fixed)
        return rows


# -- comparison ----------------------------------------------------------

def same(a, b, exact_dtype=True):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if exact_dtype and a.dtype != b.dtype:
        return False
    if a.dtype.kind in 'fc' and b.dtype.kind in 'fc':
        return bool(np.array_equal(a, b, equal_nan=True))
    if a.dtype.kind in 'mM' and b.dtype.kind == a.dtype.kind:
        return bool(np.all((a == b) | (np.isnat(a) & np.isnat(b))))
    return bool(np.array_equal(a, b))


def same_fill(a, b):
    if a is None or b is None:
        return a is None and b is None
    try:
        if a != a and b != b:
            return True
    except Exception:
        pass
    return bool(np.asarray(a == b).all())


def raw(var):
    """The raw (unmasked) values of a variable."""
    arr = var.array
    if isinstance(arr, da.Array):
        arr = arr.compute(scheduler='synchronous')
    return np.asarray(arr)


def expected_mask(v, arr):
    if v.fill is None or v.fill != v.fill:
        return np.zeros(arr.shape, bool)
    return np.ma.getmaskarray(np.ma.masked_equal(arr, v.fill)) if np.dtype(v.dtype).kind in 'iufc' else (arr == v.fill)


def check_dataset(ctx, what, spec, zds, expected, names=None, attrs=True, delayed=None, codecs=True, masks=True):
    """Compare a zcollection Dataset with expected rows."""
    names = set(expected) if names is None else set(names) & set(expected)
    ctx.check(zds is not None, f'{what}: no dataset returned')
    ctx.check(set(zds.variables) == names, f'{what}: wrong variables', got=sorted(zds.variables), expected=sorted(names))
    if delayed is not None:
        ctx.check(zds.delayed == delayed, f'{what}: lazy/in-memory flag differs', got=zds.delayed)
    for name in sorted(names):
        v = spec.var(name)
        got = zds.variables[name]
        exp = expected[name]
        ctx.check(got.name == name, f'{what}: {name} is named {got.name}')
        ctx.check(tuple(got.dimensions) == v.dims, f'{what}: dimensions of {name}', got=got.dimensions, expected=v.dims)
        ctx.check(tuple(got.shape) == exp.shape, f'{what}: shape of {name}', got=got.shape, expected=exp.shape)
        ctx.check(np.dtype(got.dtype) == np.dtype(v.dtype), f'{what}: type of {name}', got=str(got.dtype), expected=v.dtype)
        arr = raw(got)
        ctx.check(same(arr, exp), f'{what}: values of {name} differ', got=arr.tolist() if arr.size < 60 else repr(arr),
                  expected=exp.tolist() if exp.size < 60 else repr(exp))
        ctx.count('arrays_compared')
        ctx.count('values_compared', int(arr.size))
        ctx.check(same_fill(got.fill_value, v.fill), f'{what}: fill value of {name}', got=repr(got.fill_value), expected=repr(v.fill))
        if masks and v.fill is not None:
            vals = got.values
            m = np.ma.getmaskarray(vals)
            ctx.check(np.array_equal(m, expected_mask(v, exp)), f'{what}: mask of {name} differs')
        if attrs:
            ctx.check({a.name: a.value for a in got.attrs} == v.attrs, f'{what}: attributes of {name}',
                      got={a.name: a.value for a in got.attrs}, expected=v.attrs)
        if codecs:
            ctx.check(_codec(got.compressor) == _codec(v.compressor), f'{what}: compressor of {name}', got=_codec(got.compressor))
            ctx.check([_codec(f) for f in got.filters] == [_codec(f) for f in v.filters], f'{what}: filters of {name}')
    if attrs:
        ctx.check({a.name: a.value for a in zds.attrs} == spec.attrs, f'{what}: dataset attributes',
                  got={a.name: a.value for a in zds.attrs}, expected=spec.attrs)


def _codec(c):
    return None if c is None else c.get_config()


def zarr_rows(fs, path):
    """Independent read of a stored group: {name: (array, dims)}; does not use consolidated metadata nor zcollection."""
    g = zarr.open_group(fs.get_mapper(path), mode='r')
    return {name: (arr[...], tuple(arr.attrs['_ARRAY_DIMENSIONS'])) for name, arr in g.arrays()}


def check_chunks(ctx, what, spec, fs, path):
    """The arrays are cut into the blocks the collection declares (a dimension without declaration is one block)."""
    g = zarr.open_group(fs.get_mapper(path), mode='r')
    for name, arr in g.arrays():
        cut = lambda sizes: tuple(min(c, max(n, 1)) for c, n in zip(sizes, arr.shape))
        declared = [spec.chunks.get(d, n) for d, n in zip(spec.var(name).dims, arr.shape)]
        ctx.check(cut(arr.chunks) == cut(declared), f'{what}: {name} is not cut into the declared blocks', got=arr.chunks, shape=arr.shape,
                  declared=spec.chunks)
        ctx.count('chunkings_checked')


def check_stored(ctx, what, spec, fs, base, model, chunks=True):
    """The stored tree holds exactly the model's partitions (read with zarr only)."""
    found = {}
    for p in sorted(list_dirs(fs, base, spec.depth)):
        found[p] = p
    exp = {spec.path(k): k for k in model.parts}
    ctx.check(set(found) == set(exp), f'{what}: stored partitions differ', got=sorted(set(found) - set(exp)),
              missing=sorted(set(exp) - set(found)))
    for p, k in exp.items():
        rows = zarr_rows(fs, f'{base}/{p}')
        er = model.parts[k]
        ctx.check(set(rows) == set(er), f'{what}: variables stored in {p}', got=sorted(rows), expected=sorted(er))
        for name, (arr, dims) in rows.items():
            v = spec.var(name)
            ctx.check(dims == v.dims, f'{what}: dimensions of {p}/{name}', got=dims)
            ctx.check(same(arr, er[name]), f'{what}: {p}/{name} differs', got=arr.tolist() if arr.size < 60 else repr(arr),
                      expected=er[name].tolist() if arr.size < 60 else repr(er[name]))
            ctx.count('stored_arrays_compared')
        if chunks:
            check_chunks(ctx, f'{what}: {p}', spec, fs, f'{base}/{p}')


def list_dirs(fs, base, depth):
    """Directories at partition depth (hidden ones at the root excluded), found by walking the file system."""
    level = [base.rstrip('/')]
    for d in range(depth):
        nxt = []
        for p in level:
            for info in fs.ls(p, detail=True):
                name = info['name'].rstrip('/')
                if info['type'] == 'directory' and not (d == 0 and os.path.basename(name).startswith('.')):
                    nxt.append(name)
        level = nxt
    pre = base.rstrip('/') + '/'
    out = []
    for p in level:
        i = p.find(pre)
        out.append(p[i + len(pre):] if i >= 0 else p)
    return out


# -- file systems ------------------------------------------------------

class Place:
    """Where a collection lives."""

    def __init__(self, ctx, rng, kinds=('local', 'local', 'memory')):
        self.kind = pick(rng, kinds)
        path = ctx.fresh('coll')
        if self.kind == 'memory':
            self.fs = fsspec.filesystem('memory')
            self.base = f'/zm{os.getpid()}/{path.name}'
            self.fs.makedirs(os.path.dirname(self.base), exist_ok=True)
        else:
            self.fs = fsspec.filesystem('file')
            path.mkdir()
            self.base = str(path / 'c')

    def snap(self, skip=()):
        from . import tree
        return tree.snap(self.base, self.fs, skip)

    def close(self):
        if self.kind == 'memory' and self.fs.exists(self.base):
            self.fs.rm(self.base, recursive=True)


def create(spec, place, synchronizer=None, ds=None):
    if ds is None:
        return collection.Collection(spec.axis, spec.metadata(), spec.partitioning(), place.base, mode='w', filesystem=place.fs,
                                     synchronizer=synchronizer)
    spec.chunks = dict(ds.chunks)
    return zcollection.create_collection(spec.axis, ds, spec.partitioning(), place.base, filesystem=place.fs, synchronizer=synchronizer)


def reopen(place, mode='w', synchronizer=None):
    return zcollection.open_collection(place.base, mode=mode, filesystem=place.fs, synchronizer=synchronizer)


# -- shared scenario pieces ---------------------------------------------

def random_filter(rng, spec, keys, kinds=('none', 'str', 'func', 'set', 'empty', 'compound')):
    """(filter for the library, predicate over the dict of keys, kind)"""
    names = spec.key_names
    kind = pick(rng, kinds)
    if not keys:
        kind = 'none'
    if kind == 'none':
        return None, (lambda d: True), kind
    if kind == 'empty':
        return (lambda d: False), (lambda d: False), kind
    if kind == 'set':
        chosen = frozenset(k for k in keys if chance(rng, .5))
        f = lambda d: tuple(d[n] for n in names) in chosen
        return f, f, kind
    terms = []
    for _ in range(1 if kind == 'str' else int(rng.integers(2, 4))):
        k = pick(rng, keys)
        i = int(rng.integers(len(names)))
        terms.append((names[i], pick(rng, ['==', '!=', '<', '<=', '>', '>=', 'in', '%']), int(k[i])))
    glue = pick(rng, [' and ', ' or '])
    txt = []
    for n, op, v in terms:
        if op == 'in':
            txt.append(f'{n} in ({v}, {v + 1})')
        elif op == '%':
            txt.append(f'{n} % 2 == {v % 2}')
        else:
            txt.append(f'{n} {op} {v}')
    text = glue.join(txt)

    def pred(d):
        res = []
        for n, op, v in terms:
            a = d[n]
            res.append({'==': a == v, '!=': a != v, '<': a < v, '<=': a <= v, '>': a > v, '>=': a >= v, 'in': a in (v, v + 1),
                        '%': a % 2 == v % 2}[op])
        return all(res) if glue == ' and ' else any(res)

    if kind == 'func':
        return pred, pred, kind
    return text, pred, kind


def populate(ctx, rng, spec, place, nparts=(2, 6), nrows=(1, 6), delayed=None, synchronizer=None, many=0.06):
    """A collection with random content: (collection, model)."""
    zc = create(spec, place, synchronizer)
    model = Model(spec)
    n = int(rng.integers(nparts[0], nparts[1] + 1))
    if chance(rng, many):
        n, nrows = int(rng.integers(16, 34)), (1, 2)
        ctx.count('many_partitions')
    keys = random_keys(rng, spec, n)
    rows = rows_for(rng, spec, keys, nrows=nrows)
    ctx.log('spec', spec.describe(), place.kind, 'partitions', [spec.path(k) for k in keys])
    zc.insert(make_dataset(spec, rows, chance(rng, .5) if delayed is None else delayed, rng))
    model.insert(rows)
    return zc, model


def result_array(var, rows_n, sizes, dim, seed):
    """Deterministic pseudo-random content for a variable (what user functions return)."""
    rng = np.random.default_rng(seed)
    shape = tuple(rows_n if d == dim else sizes[d] for d in var.dims)
    return random_values(rng, var, shape)


def mask_result(v, arr, seed):
    """The same values as a masked array: the elements equal to the fill value are masked, what lies under the mask is something else, and the
    masked array has a fill value of its own."""
    if v.fill is None or np.dtype(v.dtype).kind not in 'iuf' or not arr.ndim:
        return arr
    mask = (arr != arr) if v.fill != v.fill else (arr == v.fill)
    out = np.ma.MaskedArray(np.where(mask, arr.dtype.type(7), arr), mask=mask)
    if seed % 3 == 0:
        out.fill_value = arr.dtype.type(9)
    elif seed % 3 == 1:
        out.fill_value = arr.dtype.type(v.fill)
    return out


def ident(values):
    """Stable identity of a block of axis values."""
    import zlib
    return zlib.crc32(np.ascontiguousarray(values).view('u1').tobytes()) if np.asarray(values).size else 0


def random_new_var(rng, name, dims, dtypes=None, codecs=True):
    """A variable definition with a fill value (uninitialized content is undefined without one)."""
    v = random_var(rng, name, dims, codecs, dtypes or (INT + ['f4', 'f8', 'f8', '?', 'c8']))
    if v.fill is None:
        k = np.dtype(v.dtype).kind
        v.fill = {'i': -1, 'u': 3, 'f': 9.5, 'b': True, 'c': 0j}.get(k)
        if k == 'c':
            v.fill = None
            v.dtype, v.filters = 'f4', ()
            v.fill = 2.25
    return v


def full(spec, v, n):
    return np.full(tuple(n if d == spec.dim else spec.sizes[d] for d in v.dims), v.fill, v.dtype)
