"""Dataset operations on lazy and in-memory data against the corresponding numpy operations."""
import keyword
import collections, copy, pickle
import dask
import dask.array as da
import fsspec, numpy as np, xarray, zarr
from zcollection import dataset, meta, storage
from zcollection.meta import Attribute, Dimension
from zcollection.variable import Array, DelayedArray
from .. import gen
from ..gen import Var, chance, pick

CASES = {'quick': 900, 'thorough': 20000}
DIMS = ('x', 'y', 'z')
DTYPES = gen.INT + ['f4', 'f8', 'f8', '?', 'M8[ns]', 'M8[s]', 'm8[s]', 'S5', 'U4', 'c8', 'f2']


class Mod:
    """The expected contents: variables as numpy arrays."""

    def __init__(self, vs, attrs, chunks, limit):
        self.vs = collections.OrderedDict(vs)   # name -> (Var, array)
        self.attrs, self.chunks, self.limit = dict(attrs), dict(chunks), limit

    def copy(self, vs=None):
        return Mod(self.vs if vs is None else vs, self.attrs, self.chunks, self.limit)

    def map(self, fn):
        return self.copy((n, (v, fn(v, a))) for n, (v, a) in self.vs.items())

    @property
    def dims(self):
        return {d: a.shape[i] for v, a in self.vs.values() for i, d in enumerate(v.dims)}


def random_model(rng, sizes, names, nd=(0, 1, 1, 1, 2, 2, 3)):
    vs = []
    for n in names:
        k = pick(rng, nd)
        dims = tuple(DIMS[int(i)] for i in rng.permutation(3)[:k])
        v = gen.random_var(rng, n, dims, True, [t for t in DTYPES if dims or t[0] not in 'SU'])     # numpy scalars do not keep the width of strings
        vs.append((n, (v, gen.random_values(rng, v, tuple(sizes[d] for d in dims)))))
    return Mod(vs, gen.random_attrs(rng), {d: int(rng.integers(1, 5)) for d in DIMS if chance(rng, .4)}, None if chance(rng, .5) else int(rng.integers(16, 9999)))


def variable(rng, v, a, lazy, masked=False):
    data, fill = a.copy(), v.fill
    if masked and a.ndim and fill is not None and np.dtype(v.dtype).kind in 'iuf':
        data = np.ma.MaskedArray(data, mask=(data == fill) if fill == fill else (data != data))
        data.set_fill_value(fill)
        # that of the masked array is taken, or it is named too (the comparison is strict about its type)
        fill = None if chance(rng, .5) else data.fill_value
    if lazy:
        data = da.from_array(data, chunks=gen.random_chunks(rng, a.shape))
    return (DelayedArray if lazy else Array)(v.name, data, v.dims, attrs=v.attributes(), compressor=v.compressor, fill_value=fill, filters=v.filters)


def build(rng, m, lazy, masked=False):
    return dataset.Dataset([variable(rng, v, a, lazy, masked) for v, a in m.vs.values()], attrs=tuple(Attribute(*i) for i in m.attrs.items()),
                           chunks=[Dimension(*i) for i in m.chunks.items()], block_size_limit=m.limit, delayed=lazy)


def masked_values(v, a):
    return a if v.fill is None else np.ma.masked_equal(a, v.fill)


def same_masked(got, want):
    if isinstance(want, np.ma.MaskedArray) and want.dtype.kind != 'O':
        mask = np.ma.getmaskarray(want)
        if not np.array_equal(np.ma.getmaskarray(got), mask):
            return False
        g, w = np.ma.getdata(got), np.ma.getdata(want)
        return g.shape == w.shape and g.dtype == w.dtype and gen.same(g[~mask] if g.ndim else g[()], w[~mask] if w.ndim else w[()], exact_dtype=False)
    return not np.ma.getmaskarray(got).any() and gen.same(np.ma.getdata(got), want)


def check_variable(ctx, what, var, v, a, lazy, attrs=True, codecs=True):
    ctx.check(type(var) is (DelayedArray if lazy else Array), f'{what}: kind of the variable', var=v.name, got=type(var))
    ctx.check(isinstance(var.array, da.Array) == lazy, f'{what}: kind of the array', var=v.name, got=type(var.array))
    ctx.check(tuple(var.dimensions) == tuple(v.dims) and tuple(var.shape) == a.shape and var.dtype == a.dtype and var.name == v.name,
              f'{what}: definition of the variable', var=v.name, got=(var.name, var.dimensions, var.shape, var.dtype), want=(v.dims, a.shape, a.dtype))
    ctx.check(gen.same_fill(var.fill_value, v.fill), f'{what}: fill value', var=v.name, got=var.fill_value, want=v.fill)
    ctx.check(not attrs or {i.name: i.value for i in var.attrs} == v.attrs, f'{what}: attributes', var=v.name, got=var.attrs, want=v.attrs)
    ctx.check(not codecs or var.compressor == v.compressor and tuple(var.filters) == tuple(v.filters), f'{what}: codecs', var=v.name, got=(var.compressor, var.filters))
    got = gen.raw(var)
    ctx.check(gen.same(got, a), f'{what}: values', var=v.name, lazy=lazy, got=got, want=a)
    vals, want = var.values, masked_values(v, a)
    ctx.check(isinstance(vals, np.ma.MaskedArray) == (v.fill is not None), f'{what}: masked array without fill value (or the reverse)', var=v.name, lazy=lazy, got=type(vals))
    ctx.check(same_masked(vals, want), f'{what}: masked values', var=v.name, lazy=lazy, got=vals, want=want)
    ctx.check(var.nbytes == a.nbytes and var.size == a.size and var.ndim == a.ndim, f'{what}: sizes', var=v.name, got=(var.nbytes, var.size))
    ctx.count('variables_compared')
    if v.fill is not None and np.ma.getmaskarray(want).any():
        ctx.count('masked_compared')


def check(ctx, what, m, zds, lazy, attrs=True):
    ctx.check(set(zds.variables) == set(m.vs) and len(zds) == len(m.vs) and bool(zds) == bool(m.vs), f'{what}: variables', got=list(zds.variables), want=list(m.vs))
    ctx.check(zds.delayed is lazy or zds.delayed == lazy, f'{what}: lazy flag', got=zds.delayed)
    ctx.check(all(zds.dimensions.get(d) == n for d, n in m.dims.items()), f'{what}: dimensions', got=zds.dimensions, want=m.dims)
    if attrs:
        ctx.check({i.name: i.value for i in zds.attrs} == m.attrs, f'{what}: attributes of the dataset', got=zds.attrs, want=m.attrs)
    ctx.check(dict(zds.chunks) == m.chunks and zds.block_size_limit == (m.limit or meta.BLOCK_SIZE_LIMIT), f'{what}: chunks', got=(zds.chunks, zds.block_size_limit),
              want=(m.chunks, m.limit))
    for n, (v, a) in m.vs.items():
        check_variable(ctx, what, zds.variables[n], v, a, lazy, attrs)
    ctx.check(zds.nbytes == sum(a.nbytes for _, a in m.vs.values()), f'{what}: number of bytes', got=zds.nbytes)
    md = zds.metadata()
    ctx.check(set(md.variables) == set(m.vs) and all(md.variables[n].dtype == a.dtype and tuple(md.variables[n].dimensions) == tuple(v.dims) and gen.same_fill(md.variables[n].fill_value, v.fill)
                                                     for n, (v, a) in m.vs.items()), f'{what}: metadata', got=md)


def both(ctx, what, m, pair, attrs=True):
    for lazy, zds in enumerate(pair):
        check(ctx, f'{what} ({"lazy" if lazy else "in memory"})', m, zds, bool(lazy), attrs)
    ctx.check(list(pair[0].variables) == list(pair[1].variables), f'{what}: order of the variables', eager=list(pair[0].variables), lazy=list(pair[1].variables))


def random_indexer(rng, n, fancy=True):
    r = rng.random()
    if r < .55 or not fancy:
        lim = lambda: None if chance(rng, .3) else int(rng.integers(-n - 2, n + 3))
        # dask and numpy disagree on negative steps for out-of-range bounds and empty chunks
        return slice(lim(), lim(), pick(rng, [None, None, None, 1, 2, 3]))
    if r < .8 and n:
        return [int(i) for i in rng.integers(-n, n, size=int(rng.integers(1, n + 2)))]
    if n:
        return rng.random(n) < .5
    return slice(None)


def positions(idx, n):
    return np.arange(n)[np.array(idx) if isinstance(idx, list) else idx]


# ---- operations: (rng, ctx, model, (eager, lazy)) -> model, pair ------------------------------

def op_isel(ctx, rng, m, pair):
    dims = m.dims
    if not dims:
        return None
    chosen = [d for d in dims if chance(rng, .6)]
    fancy = pick(rng, chosen) if chosen and chance(rng, .4) else None
    sl = {d: random_indexer(rng, dims[d], d == fancy) for d in chosen}
    ctx.log('isel', {d: repr(s) for d, s in sl.items()})
    out = m.map(lambda v, a: a[tuple(np.array(sl[d]) if isinstance(sl.get(d), list) else sl.get(d, slice(None)) for d in v.dims) + (Ellipsis, )])
    return out, tuple(z.isel(dict(sl)) for z in pair), True


def op_delete(ctx, rng, m, pair):
    dims = m.dims
    if not dims:
        return None
    d = pick(rng, sorted(dims))
    n = dims[d]
    if chance(rng, .5):
        idx = slice(*sorted(int(i) for i in rng.integers(0, n + 2, size=2)))
    else:
        idx = sorted({int(i) for i in rng.integers(0, max(n, 1), size=int(rng.integers(0, n + 1)))}) if n else slice(0, 0)
    if isinstance(idx, list) and not idx:
        idx = slice(0, 0)
    keep = np.ones(n, bool)
    keep[idx] = False
    if not keep.any():
        return None      # dask cannot compute masked arrays made of several empty chunks
    ctx.log('delete', d, repr(idx))
    out = m.map(lambda v, a: np.compress(keep, a, axis=v.dims.index(d)) if d in v.dims else a)
    ctx.count('deletions')
    if any(d not in v.dims for v, _ in m.vs.values()):
        ctx.count('deletions_beside_other_variables')
    return out, tuple(z.delete(idx, d) for z in pair), True


def op_concat(ctx, rng, m, pair):
    dims = m.dims
    if not dims:
        return None
    d = pick(rng, sorted(dims))
    others = []
    for _ in range(int(rng.integers(1, 4))):
        sz = dict(dims, **{d: int(rng.integers(0, 5))})
        others.append(m.map(lambda v, a: gen.random_values(rng, v, tuple(sz[x] for x in v.dims)).astype(a.dtype)))
    out = m.copy((n, (v, np.concatenate([a] + [o.vs[n][1] for o in others], axis=v.dims.index(d)) if d in v.dims else a)) for n, (v, a) in m.vs.items())
    ctx.log('concat', d, [o.dims[d] for o in others])
    res = []
    for lazy, z in enumerate(pair):
        items = [build(rng, o, bool(lazy)) for o in others]
        arg = items[0] if len(items) == 1 and chance(rng, .5) else (tuple(items) if chance(rng, .5) else (i for i in items))
        res.append(z.concat(arg, d))
        for o, i in zip(others, items):
            check(ctx, 'operand of a concatenation', o, i, bool(lazy))
    ctx.count('concatenations')
    return out, tuple(res), True


def op_merge(ctx, rng, m, pair):
    sizes = dict({d: int(rng.integers(0, 5)) for d in DIMS}, **{d: n for z in pair for d, n in z.dimensions.items()})
    k = len(m.vs)
    o = random_model(rng, sizes, [n for n in (f'm{k}', f'n{k}')[:int(rng.integers(0, 3))] if n not in m.vs])
    out = m.copy(list(m.vs.items()) + list(o.vs.items()))
    if m.attrs and chance(rng, .3):
        o.attrs[pick(rng, sorted(m.attrs))] = 'of the other'
        ctx.count('attribute_conflicts')
    out.attrs = dict(m.attrs, **o.attrs)
    others = [build(rng, o, bool(i)) for i in range(2)]
    ctx.log('merge', list(o.vs))
    for z, i in zip(pair, others):
        ctx.check(z.merge(i) is None, 'merge returns nothing')
    both(ctx, 'operand of a merge', o, others)
    return out, pair, False


def op_rename(ctx, rng, m, pair):
    if not m.vs:
        return None
    names = {n: f'r{len(n)}{n}'[:9] for n in m.vs if chance(rng, .4)}
    if len(set(names.values()) | set(m.vs)) != len(names) + len(m.vs):
        return None
    ctx.log('rename', names)
    for z in pair:
        z.rename(names)
    vs = collections.OrderedDict((n, i) for n, i in m.vs.items() if n not in names)
    for old, new in names.items():
        v, a = m.vs[old]
        v = copy.copy(v)
        v.name = new
        vs[new] = (v, a)
    return m.copy(vs), pair, False


def op_select(ctx, rng, m, pair):
    if chance(rng, .5):
        names = [n for n in m.vs if chance(rng, .7)]
        arg = names[0] if len(names) == 1 and chance(rng, .5) else pick(rng, [list, tuple])(names)
        ctx.log('select_vars', names)
        ctx.count('empty_selections', not names)
        return m.copy((n, m.vs[n]) for n in names), tuple(z.select_vars(arg) for z in pair), True
    dims = [d for d in DIMS if chance(rng, .4)]
    pred = chance(rng, .6)
    ctx.log('select_variables_by_dims', dims, pred)
    if dims:
        keep = [n for n, (v, _) in m.vs.items() if bool(set(v.dims) & set(dims)) == pred]
    else:
        keep = [n for n, (v, _) in m.vs.items() if (not v.dims) == pred]
    ctx.count('empty_selections', not keep)
    return m.copy((n, m.vs[n]) for n in keep), tuple(z.select_variables_by_dims(dims, pred) for z in pair), True


def op_drop(ctx, rng, m, pair):
    names = [n for n in m.vs if chance(rng, .3)]
    arg = names[0] if len(names) == 1 and chance(rng, .5) else names
    ctx.log('drops_vars', names)
    for z in pair:
        z.drops_vars(arg)
    return m.copy((n, i) for n, i in m.vs.items() if n not in names), pair, False


def op_add(ctx, rng, m, pair):
    sizes = {d: n for d, n in pair[0].dimensions.items() if d in pair[1].dimensions}
    dims = tuple(d for d in DIMS if d in sizes and chance(rng, .5))
    name = f'a{len(m.vs)}'
    if name in m.vs:
        return None
    v = gen.random_var(rng, name, dims, True, ['i2', 'i8', 'f8', 'u1', 'f4'])
    shape = tuple(sizes[d] for d in dims)
    kind = pick(rng, ['none', 'array', 'lazy'] + (['masked'] if dims and v.fill is not None and v.fill == v.fill else []))
    if kind == 'none' and v.fill is None:
        v.fill = 7
    a = np.full(shape, v.fill, v.dtype) if kind == 'none' else gen.random_values(rng, v, shape)
    ctx.log('add_variable', name, dims, kind)
    md = v.meta()
    for lazy, z in enumerate(pair):
        if kind == 'none':
            z.add_variable(md)
        elif kind == 'array':
            z.add_variable(md, a.copy())
        elif kind == 'lazy':
            z.add_variable(md, da.from_array(a.copy(), chunks=gen.random_chunks(rng, shape)))
        else:
            b = np.ma.masked_equal(a, v.fill)
            b.set_fill_value(v.fill)
            v.fill = b.fill_value
            md = v.meta()
            z.add_variable(md, b)
    ctx.count('additions')
    return m.copy(list(m.vs.items()) + [(name, (v, a))]), pair, False


def op_same(ctx, rng, m, pair):
    """Operations that keep every value."""
    e, l = pair
    kind = pick(rng, ['compute', 'rechunk', 'persist', 'pickle', 'insertion', 'deepcopy', 'persist_each'])
    ctx.log(kind)
    ctx.count(kind)
    if kind == 'compute':
        both(ctx, 'unchanged by compute', m, (e.compute(), l))
        c = l.compute(scheduler=pick(rng, ['synchronous', 'threads']))
        check(ctx, 'computed', m, c, False)
        return m, (c, l), True
    if kind == 'rechunk':
        arg = pick(rng, [{'chunks': -1}, {'chunks': 'auto'}, {'chunks': 2}])
        r = (e.rechunk(**arg), l.rechunk(**arg))
        return m, r, True
    if kind == 'persist':
        r = (e.persist(), l.persist(scheduler='synchronous'))
        both(ctx, 'persisted operand', m, pair)
        return m, r, True
    if kind == 'persist_each':
        for z in pair:
            for n, var in z.variables.items():
                ctx.check(var.persist() is var, 'persist returns the variable', got=var)
        return m, pair, True
    if kind == 'pickle':
        return m, tuple(pickle.loads(pickle.dumps(z, protocol=int(pick(rng, [2, 4, 5])))) for z in pair), True
    if kind == 'deepcopy':
        return m, tuple(copy.deepcopy(z) for z in pair), True
    r = tuple(z.set_for_insertion(z.metadata()) for z in pair)
    both(ctx, 'set for insertion', m, r, attrs=False)
    ctx.check(all(not var.attrs for z in r for var in z.variables.values()), 'no attributes in a dataset to insert')
    back = tuple(pair[i].metadata() for i in range(2))
    for z, md in zip(r, back):
        z.fill_attrs(md)
    return m, r, True


def op_fill(ctx, rng, m, pair):
    names = [n for n in m.vs if chance(rng, .3)]
    ctx.log('fill', names)
    for z in pair:
        for n in names:
            ctx.check(z.variables[n].fill() is z.variables[n], 'fill returns the variable')
    return m.copy((n, (v, np.full_like(a, v.fill) if n in names and v.fill is not None else a)) for n, (v, a) in m.vs.items()), pair, False


def op_values(ctx, rng, m, pair):
    """Assigns new values to a variable."""
    if not m.vs:
        return None
    n = pick(rng, list(m.vs))
    v, a = m.vs[n]
    b = gen.random_values(rng, v, a.shape).astype(a.dtype)
    ctx.log('values', n)
    kind = pick(rng, ['values', 'duplicate'])
    ctx.count(kind)
    for z in pair:
        if kind == 'values':
            z.variables[n].values = b.copy()
        else:
            z.variables[n] = z.variables[n].duplicate(b.copy())
    return m.copy((k, (w, b if k == n else c)) for k, (w, c) in m.vs.items()), pair, False


OPS = [op_isel, op_isel, op_isel, op_delete, op_delete, op_concat, op_concat, op_merge, op_rename, op_select, op_drop, op_add, op_same, op_same, op_fill, op_values]


# ---- observations -----------------------------------------------------------------------------

def observe(ctx, rng, m, pair):
    kind = pick(rng, ['dict', 'xarray', 'getitem', 'collection', 'zarr', 'var_concat', 'repr', 'expression', 'expression'])
    ctx.count('observed_' + kind)
    ctx.log('observe', kind)
    if kind == 'dict':
        names = None if chance(rng, .5) else [n for n in m.vs if chance(rng, .6)]
        for z in pair:
            got = z.to_dict(names) if names is not None else z.to_dict()
            want = [n for n in (names or m.vs)]
            ctx.check(set(got) == set(want), 'names of the dictionary', got=list(got), want=want)
            for n in got:
                v, a = m.vs[n]
                ctx.check(not isinstance(got[n], da.Array) and same_masked(got[n], masked_values(v, a)), 'values of the dictionary', var=n, got=got[n], want=a)
    elif kind == 'getitem':
        for n, (v, a) in m.vs.items():
            key = tuple(random_indexer(rng, s, False) for s in a.shape) + (Ellipsis, ) if chance(rng, .6) or not a.ndim else Ellipsis
            w = masked_values(v, a[key])
            for z in pair:
                ctx.check(z[n] is z.variables[n] and getattr(z, n) is z.variables[n], 'access by name', var=n)
                g = z[n][key]
                g = g.compute(scheduler='synchronous') if isinstance(g, da.Array) else g
                ctx.check(same_masked(g, w), 'values of a slice of a variable', var=n, key=key, got=g, want=w)
                d = z[n].data
                ctx.check(isinstance(d, da.Array) and same_masked(d.compute(scheduler='synchronous'), masked_values(v, a)), 'values of .data', var=n, got=d)
                ctx.check(gen.same(np.ma.getdata(np.asanyarray(z[n])), a) or isinstance(w, np.ma.MaskedArray), 'values of the array interface', var=n)
    elif kind == 'collection':
        lazy = pair[1]
        vs = list(lazy.variables.values())
        for var, got in zip(vs, dask.compute(*vs, scheduler='synchronous')):
            v, a = m.vs[var.name]
            g = got.values if isinstance(got, dataset.Variable) else got
            ctx.check(same_masked(g, masked_values(v, a)), 'values of a computed delayed variable', var=v.name, got=g, want=a)
        for var, got in zip(vs, dask.persist(*vs, scheduler='synchronous')):
            v, a = m.vs[var.name]
            ctx.check(same_masked(got.values, masked_values(v, a)), 'values of a persisted delayed variable', var=v.name, got=got, want=a)
    elif kind == 'zarr':
        path = str(ctx.fresh('zarr'))
        if not m.vs:
            return
        pair[1].to_zarr(path, parallel=False) if chance(rng, .5) else pair[1].to_zarr(path, fsspec.filesystem('file'), parallel=False)
        g = zarr.open_group(path, mode='r')
        for n, (v, a) in m.vs.items():
            ctx.check(gen.same(g[n][...], a), 'values written to a Zarr store', var=n, got=g[n][...], want=a)
        for lazy in (False, True):
            back = storage.open_zarr_group(path, fsspec.filesystem('file'), delayed=lazy)
            for n, (v, a) in m.vs.items():
                names = [at.name for at in back.variables[n].attrs]
                ctx.check(sorted(names) == sorted(v.attrs), 'attributes read from a Zarr store', var=n, got=names, want=list(v.attrs))
                check_variable(ctx, 'read from a Zarr store', back.variables[n], v, a, lazy, attrs=False, codecs=bool(v.dims))     # zarr does not encode scalars
    elif kind == 'var_concat':
        for n, (v, a) in m.vs.items():
            if not a.ndim:
                continue
            i = int(rng.integers(a.ndim))
            for lazy, z in enumerate(pair):
                got = z[n].concat([z[n], z[n]], v.dims[i])
                check_variable(ctx, 'concatenated variable', got, v, np.concatenate([a, a, a], axis=i), bool(lazy))
                got = z[n].concat(z[n], 'unknown')
                check_variable(ctx, 'concatenated along another dimension', got, v, a, bool(lazy))
    elif kind == 'expression':
        expression(ctx, rng, m, pair)
    elif kind == 'repr':
        for z in pair:
            text = str(z) + repr(z)
            ctx.check(all(n in text for n in m.vs), 'names in the representation', got=text)
            for var in z.variables.values():
                ctx.check(bool(str(var)), 'representation of a variable')
    else:
        xarray_conversion(ctx, rng, m, pair)


def expression(ctx, rng, m, pair):
    """A text expression over the variables, against the same operations with numpy."""
    names = [n for n, (v, a) in m.vs.items() if a.ndim and a.dtype.kind in 'iuf' and n.isidentifier() and not keyword.iskeyword(n) and n not in dataset.Expression.BUILTINS]
    for z in pair:
        ctx.expect_raises(NameError, lambda: dataset.Expression('unknown_name + 1')(z), 'expression over an unknown variable')
    ctx.expect_raises(SyntaxError, lambda: dataset.Expression('1 +'), 'incomplete expression')
    if not names:
        return
    n = pick(rng, names)
    peers = [k for k in names if m.vs[k][1].shape == m.vs[n][1].shape and m.vs[k][0].dims == m.vs[n][0].dims]
    p = pick(rng, peers)
    val = lambda k: masked_values(m.vs[k][0], m.vs[k][1])
    a, b = val(n), val(p)
    text, want = pick(rng, [
        ('{0} + {1}', lambda: a + b), ('{0} - 2 * {1}', lambda: a - 2 * b), ('abs({0})', lambda: np.abs(a)), ('sin({0}) + cos({1})', lambda: np.sin(a) + np.cos(b)),
        ('{0} * pi', lambda: a * np.pi), ('{0}', lambda: a), ('-{0} if 1 < 2 else {1}', lambda: -a), ('floor({0} / 2) + e', lambda: np.floor(a / 2) + np.e)])
    text = text.format(n, p)
    ctx.log('expression', text)
    with np.errstate(all='ignore'):
        w = want()
        for z in pair:
            g = dataset.Expression(text)(z)
            g = g.compute(scheduler='synchronous') if isinstance(g, da.Array) else g
            gm, wm = np.ma.getmaskarray(g), np.ma.getmaskarray(w)
            ctx.check(np.array_equal(gm, wm) and np.ma.getdata(g).dtype == np.ma.getdata(w).dtype and
                      np.array_equal(np.ma.getdata(g)[~gm], np.ma.getdata(w)[~wm], equal_nan=np.ma.getdata(w).dtype.kind == 'f'),
                      'values of an expression', text=text, got=g, want=w)
    ctx.count('expressions')


def xarray_conversion(ctx, rng, m, pair):
    ok = [n for n, (v, a) in m.vs.items() if a.dtype.kind in 'iufb' and a.dtype != np.dtype('f2') and a.dtype.isnative]
    ok += [n for n, (v, a) in m.vs.items() if a.dtype.kind == 'M']
    mm = m.copy((n, m.vs[n]) for n in ok)
    for lazy, z in enumerate(pair):
        x = z.select_vars(ok).to_xarray(decode_times=False) if ok else z.select_vars([]).to_xarray()
        ctx.check(dict(x.attrs) == m.attrs, 'attributes of the xarray dataset', got=x.attrs, want=m.attrs)
        ctx.check(set(x.variables) == set(ok), 'variables of the xarray dataset', got=list(x.variables), want=ok)
        for n, (v, a) in mm.vs.items():
            xv = x.variables[n]
            want = a.astype('M8[ns]') if a.dtype.kind == 'M' else a
            ctx.check(tuple(xv.dims) == tuple(v.dims), 'dimensions of the xarray variable', var=n, got=xv.dims)
            ctx.check(xv.encoding.get('compressor') == v.compressor and list(xv.encoding.get('filters') or ()) == list(v.filters or ()),
                      'codecs of the xarray variable', var=n, got=xv.encoding, want=(v.compressor, v.filters))
            g = np.asarray(xv.values)
            if v.fill is None:
                ctx.check(gen.same(g, want), 'values of the xarray variable', var=n, got=g, want=want)
            else:
                mask = np.ma.getmaskarray(masked_values(v, a)) | ((a != a) if a.dtype.kind == 'f' else False)
                ctx.check(g.shape == a.shape and np.array_equal(np.isnan(g), mask) and np.array_equal(np.atleast_1d(g)[~np.atleast_1d(mask)], np.atleast_1d(a)[~np.atleast_1d(mask)].astype(g.dtype)),
                          'values of the xarray variable (masked)', var=n, got=g, want=masked_values(v, a))
        for n, (v, a) in m.vs.items():
            if a.dtype.kind not in 'mM' or not a.dtype.isnative or chance(rng, .5):
                continue
            xv = z.variables[n].to_xarray()
            ctx.check(xv.encoding.get('dtype') == 'int64' and tuple(xv.dims) == tuple(v.dims) and np.array_equal(np.asarray(xv.values).astype(f'{a.dtype.kind}8[ns]').astype('i8')[~np.isnat(a)], a.astype(f'{a.dtype.kind}8[ns]').astype('i8')[~np.isnat(a)]),
                      'a variable of dates or durations as an xarray variable', var=n, got=(xv.encoding, xv.values), want=a)
            ctx.count('xarray_dates')
        # and back
        xs = xarray.Dataset({n: xarray.Variable(v.dims, da.from_array(a, chunks=gen.random_chunks(rng, a.shape)) if chance(rng, .4) else a.copy(), v.attrs,
                                                {k: w for k, w in (('compressor', v.compressor), ('filters', v.filters), ('_FillValue', v.fill)) if w is not None})
                             for n, (v, a) in mm.vs.items() if a.dtype.kind != 'M' or a.dtype == np.dtype('M8[ns]')}, attrs=m.attrs)
        for target in (False, True):
            back = dataset.Dataset.from_xarray(xs, delayed=target)
            want = Mod([(n, i) for n, i in mm.vs.items() if n in xs.variables], m.attrs, {}, None)
            check(ctx, 'converted from xarray', want, back, target)


# ---- refusals ---------------------------------------------------------------------------------

def refuse(ctx, rng, m, pair):
    lazy = chance(rng, .5)
    z = pair[lazy]
    dims = m.dims
    kinds = ['isel', 'select', 'concat_empty', 'concat_mixed', 'merge_mixed', 'drop', 'delete', 'init_mixed', 'add_dim', 'attr']
    if m.vs:
        kinds += ['rename', 'merge_name', 'values', 'duplicate', 'init_rank', 'add_rank']
    if dims:
        kinds += ['merge_dims', 'add_size', 'init_size', 'concat_missing', 'concat_shape', 'merge_dims']
    kind = pick(rng, kinds)
    ctx.log('refuse', kind, lazy)
    ctx.count('refused')
    ctx.sig('refuse', kind, lazy)
    name = pick(rng, list(m.vs)) if m.vs else None
    d = pick(rng, sorted(dims)) if dims else None
    one = Var('one', 'i4', ('x', ), None)
    cls = DelayedArray if lazy else Array
    arr = lambda shape: da.zeros(shape) if lazy else np.zeros(shape)
    fn = {
        'isel': lambda: z.isel({'nowhere': slice(0, 1)}),
        'select': lambda: z.select_vars(['nothing']),
        'concat_empty': lambda: z.concat([], d or 'x'),
        'concat_mixed': lambda: z.concat(pair[1 - lazy], d or 'x'),
        'merge_mixed': lambda: z.merge(build(rng, Mod({'one': (one, np.zeros(z.dimensions.get('x', 2), 'i4'))}, {}, {}, None), not lazy)),
        'drop': lambda: z.drops_vars(['nothing']),
        'delete': lambda: z.delete(slice(0, 1), 'nowhere'),
        'init_mixed': lambda: dataset.Dataset([DelayedArray('p', np.zeros(2), ('q', )), Array('r', np.zeros(2), ('q', ))]),
        'add_dim': lambda: z.add_variable(meta.Variable('new', np.dtype('i4'), dimensions=('nowhere', ), fill_value=0)),
        'attr': lambda: z.nothing,
        'rename': lambda: z.rename({name: pick(rng, list(m.vs))}),
        'merge_name': lambda: z.merge(build(rng, Mod([('fresh', (Var('fresh', 'i4', (), None), np.zeros((), 'i4'))), (name, m.vs[name])], {'added': 1}, {}, None), lazy)),
        'merge_dims': lambda: z.merge(build(rng, Mod([('fresh', (Var('fresh', 'i4', (d, ), None), np.zeros(dims[d] + 1, 'i4')))], {'added': 1}, {}, None), lazy)),
        'values': lambda: setattr(z[name], 'values', np.zeros((1, ) * (len(m.vs[name][0].dims) + pick(rng, [1, 2])))),
        'duplicate': lambda: z[name].duplicate(np.zeros((1, ) * (len(m.vs[name][0].dims) + 1))),
        'init_rank': lambda: dataset.Dataset([cls('p', arr((2, 3)), pick(rng, [('q', ), ('q', 'r', 's'), ()]))]),
        'add_rank': lambda: z.add_variable(meta.Variable('new', np.dtype('i4'), dimensions=(d, ) if d else (), fill_value=0), arr(((dims[d] if d else 2), 2))),
        'add_size': lambda: z.add_variable(meta.Variable('new', np.dtype('i4'), dimensions=(d, ), fill_value=0), arr((dims[d] + pick(rng, [1, 2]), ))),
        'init_size': lambda: dataset.Dataset([cls('p', arr((2, 3)), ('q', 'r')), cls('s', arr((3, )), ('q', ))]),
        'concat_missing': lambda: z.concat(build(rng, Mod([], {}, {}, None), lazy), d),
        'concat_shape': None,
    }[kind]
    if kind == 'concat_shape':
        two = [n for n, (v, a) in m.vs.items() if len(v.dims) > 1]
        if not two:
            return
        v, a = m.vs[two[0]]
        o = m.map(lambda w, b: np.zeros(tuple(n + (x == v.dims[1]) for x, n in zip(w.dims, b.shape)), b.dtype))
        fn = lambda: z.concat(build(rng, o, lazy), v.dims[0])
        if a.size == 0:
            return
    before = list(z.variables), dict(z.dimensions), z.attrs
    ctx.expect_raises(Exception, fn, f'inconsistent operation accepted ({kind}, {"lazy" if lazy else "in memory"})')
    ctx.check((list(z.variables), dict(z.dimensions), z.attrs) == before, f'refused operation changed the dataset ({kind})', got=(list(z.variables), z.dimensions, z.attrs), want=before)
    both(ctx, f'after a refused operation ({kind})', m, pair)


def run(ctx, e=None):
    rng = ctx.rng
    sizes = {d: int(rng.integers(0, 7)) if chance(rng, .9) else int(rng.integers(7, 30)) for d in DIMS}
    m = random_model(rng, sizes, [f'v{i}' for i in range(int(rng.integers(0 if chance(rng, .1) else 1, 6)))])
    masked = chance(rng, .3)
    pair = build(rng, m, False, masked), build(rng, m, True, masked)
    ctx.log('start', [(n, v.dtype, v.dims, a.shape, repr(v.fill)) for n, (v, a) in m.vs.items()], masked)
    both(ctx, 'new dataset', m, pair)
    ops = []
    for _ in range(int(rng.integers(2, 7))):
        op = pick(rng, OPS)
        before, old = m, pair
        out = op(ctx, rng, m, pair)
        if out is None:
            continue
        m, pair, keeps = out
        m.vs = collections.OrderedDict(m.vs)
        ops.append(op.__name__)
        what = f'after {op.__name__[3:]}'
        if any(0 in c and len(c) > 1 for var in pair[1].variables.values() for c in var.array.chunks):
            # dask itself cannot always compute arrays made of several chunks, some of them empty
            check(ctx, f'{what} (in memory)', m, pair[0], False)
            ctx.count('empty_chunks')
            break
        both(ctx, what, m, pair)
        if keeps and pair is not old:
            both(ctx, f'operand, {what}', before, old)
            ctx.count('operands_checked')
        ctx.count('operations')
        if chance(rng, .3):
            observe(ctx, rng, m, pair)
            both(ctx, 'after an observation', m, pair)
        if chance(rng, .3):
            refuse(ctx, rng, m, pair)
    for a, b in zip(ops, ops[1:] or ops):
        ctx.sig(a, b, masked)
