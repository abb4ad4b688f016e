"""Expressions on compressed arrays against the same expressions on the arrays they hold."""
import copy, pickle, warnings
import dask
import dask.array as da
import fsspec, numpy as np, zarr
from zcollection.compressed_array import CompressedArray, dask_array_from_compressed_array
from .. import gen
from ..gen import chance, pick
from . import c19

CASES = {'quick': 4000, 'thorough': 40000}
DTYPES = ['i1', 'i4', 'i8', 'u1', 'u4', 'f4', 'f8', 'f8', '?', 'M8[ns]', 'M8[s]', 'm8[s]', 'S4', 'U3', 'c8', 'c16']
FLOAT = {'f': 1e-9, 'c': 1e-9}


def random_pair(ctx, rng, dtype=None, shape=None, masked=None):
    """A compressed array and the array it stands for."""
    dt = dtype or pick(rng, DTYPES)
    if shape is None:
        shape = tuple(int(i) for i in rng.integers(0 if chance(rng, .1) else 1, 6, size=pick(rng, [0, 1, 1, 2, 2, 2, 3])))
    v = gen.Var('v', dt, ('x', ) * len(shape), None)
    a = np.ascontiguousarray(gen.random_values(rng, v, shape)).reshape(shape)
    if a.dtype.kind in 'iuf' and chance(rng, .6):
        a = (rng.integers(0, 6, size=shape)).astype(a.dtype).reshape(shape)       # small values: no overflow, repeated fill values
    kw = {}
    if shape and chance(rng, .6):
        kw['chunks'] = tuple(int(rng.integers(1, max(n, 1) + 1)) for n in shape)
    if chance(rng, .4):
        kw['compressor'] = gen.random_compressor(rng)
    can = a.dtype.kind in 'iufMm' and shape != ()
    how = pick(rng, ['none', 'fill', 'masked'] if can else ['none']) if masked is None else masked
    src = a
    if shape and chance(rng, .3):
        src = pick(rng, [np.asfortranarray(a), np.concatenate([a, a], axis=-1)[..., :shape[-1]], np.flip(np.flip(a, 0).copy(), 0)])
    if how == 'none':
        ref = a.copy()
        source = pick(rng, ['numpy', 'numpy', 'zarr', 'compressed', 'rechunked'])
        if source == 'zarr':
            c = CompressedArray(zarr.array(src, **kw))
        else:
            c = CompressedArray(src, **kw)
    else:
        fill = a.ravel()[int(rng.integers(a.size))] if a.size and chance(rng, .8) else a.dtype.type(3) if a.dtype.kind in 'iuf' else np.array(3, a.dtype)[()]
        if fill != fill:
            fill = np.array(7, a.dtype)[()]
        ref = np.ma.masked_equal(a, fill)
        source = pick(rng, ['numpy', 'compressed', 'rechunked'])
        if how == 'fill':
            c = CompressedArray(src, fill_value=fill, **kw)
        else:
            m = np.ma.masked_array(src.copy(), mask=rng.random(shape) < .3)
            good = np.ma.getmaskarray(m)
            m.set_fill_value(fill)
            ref = np.ma.masked_equal(np.where(good, fill, a), fill)       # ufunc.reduce reads what is under the mask
            if a.size and chance(rng, .5):
                m.data[good] = a.ravel()[0]               # whatever lies under the mask is not a value
            c = CompressedArray(m, **kw) if chance(rng, .5) else CompressedArray(m, fill_value=fill, **kw)
        ctx.count('masked_inputs')
    if source == 'compressed':
        c = CompressedArray(c)
    elif source == 'rechunked' and shape:
        c = c.rechunk(tuple(int(rng.integers(1, max(n, 1) + 1)) for n in shape))
        ctx.count('rechunked')
    ctx.sig('array', dt, len(shape), how, source)
    return c, ref


def agree(got, want, tol=False):
    if isinstance(want, tuple):
        return isinstance(got, tuple) and len(got) == len(want) and all(agree(g, w, tol) for g, w in zip(got, want))
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(agree(g, w, tol) for g, w in zip(got, want))
    if isinstance(got, CompressedArray):
        got = got[...]
    if not isinstance(want, (np.ndarray, np.generic)):
        return type(got) is type(want) and (got == want or got != got and want != want)
    if np.shape(got) != np.shape(want):
        return False
    mg, mw = np.ma.getmaskarray(got), np.ma.getmaskarray(want)
    if not np.array_equal(mg, mw):
        return False
    g, w = np.ma.getdata(got), np.ma.getdata(want)
    if mw.all() and mw.size:
        return True
    if g.dtype != w.dtype and not (g.ndim == 0 and g.dtype.kind == w.dtype.kind and g.dtype.kind in 'SU'):      # scalars do not keep the width of strings
        return False
    if isinstance(want, np.ma.MaskedArray) != isinstance(got, np.ma.MaskedArray) and want.ndim:
        return False
    g, w = np.asarray(g)[~mw], np.asarray(w)[~mw]
    if g.dtype.kind in 'fc' and tol:
        eps = 1e-3 if g.dtype.itemsize <= (4 if g.dtype.kind == 'f' else 8) else 1e-9
        return np.allclose(g, w, rtol=eps, atol=eps, equal_nan=True)
    return gen.same(g, w, exact_dtype=False)


def outcome(fn):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            try:
                return 'ok', fn()
            except (TypeError, ValueError, IndexError, ZeroDivisionError, OverflowError, np.exceptions.AxisError, AttributeError, KeyError, NotImplementedError) as exc:
                return 'raised', exc
            except RecursionError as exc:
                return 'recursion', exc


def compare(ctx, name, got, want, tol=False, **info):
    (kg, g), (kw, w) = got, want
    ctx.count('expressions')
    if kw == 'raised':
        ctx.count('refused_expressions')
        ctx.check(kg == 'raised', f'{name}: accepted on a compressed array only', got=g, want=w, **info)
        return
    ctx.check(kg == 'ok', f'{name}: fails on a compressed array only', got=repr(g), want=w, **info)
    ctx.check(agree(g, w, tol), f'{name}: differs on a compressed array', got=g, got_type=type(g), want=w, want_type=type(w), **info)


def random_key(rng, shape):
    keys = []
    for n in shape:
        r = rng.random()
        if r < .25 and n:
            keys.append(int(rng.integers(-n, n)))
        elif r < .3:
            keys.append(n + int(rng.integers(0, 3)))
        elif r < .4 and n:
            keys.append(np.int64(rng.integers(-n, n)))
        else:
            lim = lambda: None if chance(rng, .4) else int(rng.integers(-n - 2, n + 3))
            keys.append(slice(lim(), lim(), pick(rng, [None, None, 1, 2, 3, -1, -2])))
    keys = keys[:int(rng.integers(0, len(keys) + 1))] if chance(rng, .3) else keys
    r = rng.random()
    if r < .2:
        keys.insert(int(rng.integers(0, len(keys) + 1)), Ellipsis)
    elif r < .3:
        keys.insert(int(rng.integers(0, len(keys) + 1)), None)
    elif r < .45 and shape and shape[0]:
        return rng.random(shape[:int(rng.integers(1, len(shape) + 1))]) < .5
    elif r < .6 and shape and shape[0]:
        idx = [int(i) for i in rng.integers(-shape[0], shape[0], size=int(rng.integers(1, 4)))]
        return pick(rng, [idx, np.array(idx), (idx, ), (np.array(idx), Ellipsis)] + ([(slice(None), [0, -1]), ([0, -1], [0, -1]), (idx, 0)] if len(shape) > 1 and shape[1] else []))
    if len(keys) == 1 and chance(rng, .5):
        return keys[0]
    return tuple(keys)


def other(ctx, rng, ref, c):
    """A second operand: (for the compressed side, for the plain side)."""
    k = pick(rng, ['self', 'plain', 'compressed', 'scalar', 'numpy_scalar', 'list', 'dask', 'dask_compressed'])
    if k == 'self':
        return k, c, ref
    if k == 'scalar':
        s = {'S': b'ab', 'U': 'ab', 'M': np.datetime64('2000-01-01'), 'm': np.timedelta64(3, 's'), '?': True}.get(ref.dtype.kind if ref.dtype.kind != 'b' else '?', pick(rng, [2, 2.5, True, 1 + 2j]))
        return k, s, s
    if k == 'numpy_scalar':
        s = np.array(1, ref.dtype)[()] if ref.dtype.kind in 'iufcb' else np.zeros((), ref.dtype)[()]
        return k, s, s
    c2, r2 = random_pair(ctx, rng, dtype=ref.dtype.str.lstrip('<|>'), shape=ref.shape)
    if k == 'compressed':
        return k, c2, r2
    if k == 'dask':
        return k, da.from_array(r2, chunks=-1), r2
    if k == 'dask_compressed':
        if 0 in ref.shape:
            return 'compressed', c2, r2
        return k, da.from_array(c2, chunks=-1, asarray=False), r2
    if k == 'list':
        r2 = np.ma.getdata(r2)
        return k, r2.tolist(), r2.tolist()
    return k, r2, r2


BINARY = [np.add, np.subtract, np.multiply, np.true_divide, np.floor_divide, np.power, np.maximum, np.minimum, np.equal, np.not_equal, np.less, np.greater_equal,
          np.logical_and, np.bitwise_or, np.remainder, np.arctan2, np.left_shift]
OPERATOR = [lambda a, b: a + b, lambda a, b: b - a, lambda a, b: a * b, lambda a, b: b / a, lambda a, b: a // b, lambda a, b: a == b, lambda a, b: b != a, lambda a, b: a < b,
            lambda a, b: a >= b, lambda a, b: a & b, lambda a, b: b | a, lambda a, b: a ^ b, lambda a, b: a % b, divmod, lambda a, b: a**b]
UNARY = [np.negative, np.absolute, np.sqrt, np.isnan, np.isfinite, np.logical_not, np.invert, np.square, np.exp, np.sign, np.floor, np.conjugate, np.modf, np.isnat]
PYUNARY = [lambda a: -a, lambda a: +a, abs, lambda a: ~a]
REDUCE = [np.add, np.multiply, np.maximum, np.minimum, np.logical_or, np.logical_and]
FUNC1 = {f.__name__: f for f in (np.sum, np.mean, np.std, np.min, np.max, np.prod, np.any, np.all, np.argmax, np.cumsum, np.median, np.count_nonzero, np.nanmean, np.nansum, np.nanmax)}
SHAPE = {'ravel': np.ravel, 'transpose': np.transpose, 'squeeze': np.squeeze, 'shape': np.shape, 'ndim': np.ndim, 'size': np.size, 'zeros_like': np.zeros_like, 'ones_like': np.ones_like,
         'atleast_2d': np.atleast_2d, 'unique': np.unique, 'sort': np.sort, 'argsort': np.argsort, 'diff': np.diff, 'copy': np.copy, 'flip': np.flip, 'round': np.round,
         'nonzero': np.nonzero, 'broadcast': lambda a: np.broadcast_to(a, (2, ) + a.shape), 'expand': lambda a: np.expand_dims(a, 0), 'roll': lambda a: np.roll(a, 1, axis=0),
         'tile': lambda a: np.tile(a, 2), 'isin': lambda a: np.isin(a, [1, 2]), 'take': lambda a: np.take(a, [0, -1], axis=0), 'where1': lambda a: np.where(a), 'percentile': lambda a: np.percentile(a, 30),
         'array': np.array, 'asarray': np.asarray, 'asanyarray': np.asanyarray, 'list': list, 'real': np.real, 'nan_to_num': np.nan_to_num, 'clip': lambda a: np.clip(a, 1, 3)}
FUNC2 = {'concatenate': lambda a, b: np.concatenate([a, b]), 'concatenate_tuple': lambda a, b: np.concatenate((a, b), axis=-1), 'stack': lambda a, b: np.stack([a, b], axis=-1),
         'where': lambda a, b: np.where(a == b, a, b), 'array_equal': np.array_equal, 'allclose': np.allclose, 'hstack': lambda a, b: np.hstack((a, b)), 'append': np.append,
         'outer': lambda a, b: np.add.outer(a, b), 'dot': np.dot, 'select': lambda a, b: np.select([a == b], [a], 0), 'interp': lambda a, b: np.interp(np.ravel(a), [0., 9.], [1., 2.]),
         'broadcast_arrays': lambda a, b: list(np.broadcast_arrays(a, b)), 'isclose': np.isclose, 'nested': lambda a, b: np.block([[a, b]])}


def expression(ctx, rng, c, ref):
    kind = pick(rng, ['index', 'index', 'binary', 'operator', 'operator', 'unary', 'reduce', 'ufunc_method', 'func', 'shape', 'func2', 'attrs', 'copy', 'astype', 'reshape', 'keyword'])
    ctx.sig(kind, ref.dtype.kind, isinstance(ref, np.ma.MaskedArray))
    if kind == 'index':
        key = random_key(rng, ref.shape)
        ctx.log('index', repr(key))
        ctx.count('indexed')
        compare(ctx, 'index', outcome(lambda: c[key]), outcome(lambda: ref[key]), key=repr(key))
        return
    if kind in ('binary', 'operator', 'func2'):
        k, oc, orf = other(ctx, rng, ref, c)
        if kind == 'func2' and not isinstance(oc, (CompressedArray, np.ndarray)):
            return
        if kind != 'operator' and k.startswith('dask'):
            return              # ufuncs and functions of numpy applied to dask arrays belong to dask
        name, f = (lambda i: (str(i), OPERATOR[i]))(int(rng.integers(len(OPERATOR)))) if kind == 'operator' else pick(rng, list(FUNC2.items())) if kind == 'func2' else \
            (lambda u: (u.__name__, u))(pick(rng, BINARY))
        if k == 'list' and (ref.ndim == 0 or ref.dtype.kind not in 'iufcb'):
            return
        if isinstance(oc, da.Array) and name == '13' or name == '14' and not ref.ndim:         # fast paths of numpy for powers
            return
        if (isinstance(ref, np.ma.MaskedArray) or isinstance(orf, np.ma.MaskedArray)) and name in ('3', '4', '12', '13', '14', 'true_divide', 'floor_divide', 'remainder', 'power', 'arctan2'):
            return              # operators and ufuncs of numpy.ma disagree on what they mask outside of the domain
        if (isinstance(ref, np.ma.MaskedArray) or isinstance(orf, np.ma.MaskedArray)) and name in ('where', 'select'):
            return              # the condition under the mask is undefined
        swap = chance(rng, .4)
        ctx.log(kind, name, k, swap)
        ctx.sig(kind, name, k, swap)
        ctx.count('two_operands')
        plain = outcome(lambda: f(orf, ref) if swap else f(ref, orf))
        compare(ctx, f'{kind} {name}', outcome(lambda: f(oc, c) if swap else f(c, oc)), plain, True, operand=k, swap=swap, array=ref)
        return
    if kind == 'unary':
        i = int(rng.integers(len(UNARY) + len(PYUNARY)))
        f = (UNARY + PYUNARY)[i]
        ctx.log('unary', i)
        compare(ctx, f'unary {getattr(f, "__name__", i)}', outcome(lambda: f(c)), outcome(lambda: f(ref)), array=ref)
    elif kind in ('reduce', 'ufunc_method'):
        u = pick(rng, REDUCE)
        kw = {} if chance(rng, .5) or not ref.ndim else {'axis': int(rng.integers(-ref.ndim, ref.ndim))}
        method = 'reduce' if kind == 'reduce' else pick(rng, ['accumulate', 'reduceat', 'outer'])
        if kind == 'reduce' and chance(rng, .3):
            kw['keepdims'] = True
        args = ([0], ) if method == 'reduceat' else (3, ) if method == 'outer' else ()
        if method == 'outer':
            kw = {}
        ctx.log(u.__name__, method, kw)
        ctx.count('reductions')
        compare(ctx, f'{u.__name__}.{method}', outcome(lambda: getattr(u, method)(c, *args, **kw)), outcome(lambda: getattr(u, method)(ref, *args, **kw)), True, kw=kw, array=ref)
    elif kind == 'func':
        name, f = pick(rng, list(FUNC1.items()))
        if not ref.size and isinstance(ref, np.ma.MaskedArray):
            return              # numpy.ma distinguishes no mask from an empty one
        kw = {} if chance(rng, .5) or not ref.ndim else {'axis': int(rng.integers(-ref.ndim, ref.ndim))}
        ctx.log(name, kw)
        ctx.count('reductions')
        ctx.sig('func', name)
        compare(ctx, f'numpy.{name}', outcome(lambda: f(c, **kw)), outcome(lambda: f(ref, **kw)), True, kw=kw, array=ref)
    elif kind == 'shape':
        name, f = pick(rng, list(SHAPE.items()))
        if name == 'list' and not ref.ndim:
            return
        ctx.log(name)
        ctx.sig('shape', name)
        compare(ctx, f'numpy.{name}', outcome(lambda: f(c)), outcome(lambda: f(ref)), array=ref)
    elif kind == 'keyword':
        if ref.dtype.kind not in 'iuf' or isinstance(ref, np.ma.MaskedArray):
            return
        cond = np.array(rng.random(ref.shape) < .5)
        out = np.zeros(ref.shape, 'f8')
        o1, o2 = out.copy(), out.copy()
        ctx.log('where and out')
        ctx.count('keywords')
        compare(ctx, 'ufunc with where', outcome(lambda: np.add(c, 1., where=CompressedArray(cond), out=o1)), outcome(lambda: np.add(ref, 1., where=cond, out=o2)), array=ref)
        compare(ctx, 'output of a ufunc', ('ok', o1), ('ok', o2))
        if ref.ndim:
            compare(ctx, 'function with keywords', outcome(lambda: np.sum(a=c, axis=0)), outcome(lambda: np.sum(a=ref, axis=0)), True, array=ref)
    elif kind == 'attrs':
        ctx.check((c.shape, c.ndim, c.size, c.dtype, c.nbytes) == (ref.shape, ref.ndim, ref.size, ref.dtype, ref.nbytes), 'properties of a compressed array', got=(c.shape, c.ndim, c.size, c.dtype, c.nbytes))
        ctx.check(str(c.dtype) in repr(c), 'representation', got=repr(c))
    elif kind == 'copy':
        k = pick(rng, ['deepcopy', 'pickle', 'construct'])
        ctx.log(k)
        ctx.count('copies')
        d = copy.deepcopy(c) if k == 'deepcopy' else pickle.loads(pickle.dumps(c, protocol=int(pick(rng, [2, 5])))) if k == 'pickle' else CompressedArray(c)
        compare(ctx, k, ('ok', d), ('ok', ref), array=ref)
        ctx.check(type(d) is CompressedArray and d.dtype == c.dtype and d.shape == c.shape, 'copy of a compressed array', got=d)
        if k != 'construct' and ref.size:
            d[...] = np.zeros(ref.shape, ref.dtype)
            compare(ctx, 'original, after a copy was modified', ('ok', c), ('ok', ref))
    elif kind == 'astype':
        dt = pick(rng, ['f8', 'i4', 'c16', 'U40', '?', 'f4'])
        ctx.log('astype', dt)
        compare(ctx, f'astype {dt}', outcome(lambda: c.astype(dt)), outcome(lambda: ref.astype(dt)), array=ref)
    elif kind == 'reshape':
        shape = pick(rng, [(-1, ), (ref.size, ), ref.shape[::-1], (1, ) + ref.shape, (ref.size + 1, )])
        ctx.log('reshape', shape)
        compare(ctx, 'reshape', outcome(lambda: c.reshape(*shape) if shape and chance(rng, .5) else c.reshape(shape)), outcome(lambda: ref.reshape(shape)), array=ref)


def modify(ctx, rng, c, ref):
    """Assignments and in-place operators: returns the new pair."""
    kind = pick(rng, ['set', 'set', 'inplace'])
    ctx.count('modifications')
    if kind == 'inplace':
        if ref.dtype.kind not in 'iuf' or isinstance(ref, np.ma.MaskedArray):
            return c, ref
        v = pick(rng, [np.ones(ref.shape, ref.dtype), 1, True])
        i = int(rng.integers(3))
        ctx.log('in place', i)
        f = [lambda x: x.__iadd__(v), lambda x: x.__imul__(v), lambda x: x.__isub__(v)][i]
        got, want = outcome(lambda: f(c)), outcome(lambda: f(ref))
        ctx.check(got[0] == want[0] and (got[0] != 'ok' or got[1] is c), 'in-place operator', got=got, want=want)
        ctx.count('in_place')
        compare(ctx, 'after an in-place operator', ('ok', c), ('ok', ref))
        return c, ref
    key = random_key(rng, ref.shape)
    try:
        target = ref[key]
    except (IndexError, ValueError):
        return c, ref
    values = np.zeros(np.shape(target), ref.dtype) if chance(rng, .5) or not ref.size else np.full(np.shape(target), np.ma.getdata(ref).ravel()[0], ref.dtype)
    if isinstance(ref, np.ma.MaskedArray):
        fill = c.fill_value
        new = np.ma.masked_equal(values, fill)
        if np.shape(target) and chance(rng, .5):
            new = np.ma.masked_array(values, mask=rng.random(values.shape) < .4)
            ctx.count('masked_assignments')
        data = np.ma.getdata(ref).copy()
        raw = np.array(new.filled(fill)) if isinstance(new, np.ma.MaskedArray) else np.array(new)
        data[key] = raw
        ref = np.ma.masked_equal(data, fill)
        arg = new if np.shape(target) else raw[()]
    else:
        ref = ref.copy()
        ref[key] = values
        arg = CompressedArray(values) if chance(rng, .3) and values.ndim else values
    ctx.log('set', repr(key))
    c[key] = arg
    compare(ctx, 'after an assignment', ('ok', c), ('ok', ref), key=repr(key))
    return c, ref


DASK = {'same': lambda x: x, 'add': lambda x: x + x, 'twice': lambda x: 2 * x, 'sum': lambda x: x.sum(), 'sum0': lambda x: x.sum(axis=0), 'mean': lambda x: x.mean(), 'mean1': lambda x: x.mean(axis=-1),
        'max': lambda x: x.max(), 'min0': lambda x: x.min(axis=0), 'T': lambda x: x.T, 'slice': lambda x: x[1:, ...], 'first': lambda x: x[0], 'step': lambda x: x[::2], 'gt': lambda x: x > 2,
        'ravel': lambda x: x.reshape(-1), 'std': lambda x: x.std(), 'abs': abs, 'rechunk': lambda x: x.rechunk(2) if isinstance(x, da.Array) else x,
        'map': lambda x: x.map_blocks(lambda b: b * 2) if isinstance(x, da.Array) else x * 2, 'list': lambda x: x[[0, -1]], 'last': lambda x: x[-1], 'whole': lambda x: x[...]}


def lazily(ctx, rng):
    """Compressed blocks in dask arrays."""
    dt = pick(rng, ['i4', 'i8', 'f8', 'f4'])
    shape = tuple(int(i) for i in rng.integers(1, 9, size=pick(rng, [1, 2, 2, 3])))
    a = rng.integers(0, 6, size=shape).astype(dt)
    fill = pick(rng, [None, None, 0, 3, 99])
    ref = a if fill is None else np.ma.masked_equal(a, fill)
    chunks = gen.random_chunks(rng, shape)
    src = pick(rng, ['blocks', 'blocks', 'persisted', 'from_array', 'dask_array_from', 'delayed'])
    kw = {} if fill is None else {'fill_value': fill}
    if src in ('blocks', 'persisted'):
        x = da.from_array(a, chunks=chunks).map_blocks(CompressedArray, **kw)
        x = x.persist(scheduler='synchronous') if src == 'persisted' else x
    elif src == 'delayed':
        x = da.from_delayed(dask.delayed(lambda: CompressedArray(a, **kw))(), shape=shape, dtype=a.dtype, meta=np.empty((0, ) * len(shape), dt))
    else:
        c = CompressedArray(a, chunks=tuple(int(rng.integers(1, n + 1)) for n in shape), **kw)
        x = da.from_array(c, chunks=chunks) if src == 'from_array' else dask_array_from_compressed_array(c)
    name, f = pick(rng, list(DASK.items()))
    ctx.log('dask', src, dt, shape, fill, name)
    ctx.sig('dask', src, name, fill is None)
    ctx.count('lazy_expressions')
    if name in ('std', 'mean', 'mean1', 'min0', 'max') and fill is not None and src in ('from_array', 'delayed'):
        return                  # dask counts the values from the (unmasked) meta
    want = outcome(lambda: f(ref))
    got = outcome(lambda: f(x).compute(scheduler='synchronous'))
    if isinstance(got[1], CompressedArray):
        got = 'ok', got[1][...]
    if isinstance(want[1], np.ma.MaskedArray) and not np.ma.getmaskarray(want[1]).any() and want[1].ndim == 0:
        want = 'ok', want[1][()]
    g, w = got[1], want[1]
    if name in ('mean', 'mean1', 'std') and isinstance(ref, np.ma.MaskedArray):
        w = w.astype(g.dtype)               # numpy and dask choose different types
    ctx.check(got[0] == want[0] == 'ok', 'lazy expression', got=repr(g), want=w)
    ctx.check(agree(g if not np.ndim(w) == 0 else np.ma.asarray(g)[()], w, True), f'lazy expression {name} differs with compressed blocks', got=g, want=w, source=src)
    if chance(rng, .4):
        other = da.from_array(a, chunks=chunks)
        parts, refs = ([x, other], [ref, a]) if chance(rng, .5) else ([other, x], [a, ref])
        got = da.concatenate(parts).compute(scheduler='synchronous')
        w = np.concatenate([np.ma.getdata(r) for r in refs])
        ctx.count('mixed_concatenations')
        ctx.check(gen.same(np.ma.getdata(np.asanyarray(got)), w), 'concatenation of plain and compressed blocks', got=got, want=w)


def persisted(ctx, rng):
    """Datasets persisted compressed."""
    sizes = {d: int(rng.integers(1, 7)) for d in c19.DIMS}
    m = c19.random_model(rng, sizes, [f'v{i}' for i in range(int(rng.integers(1, 5)))])
    masked = chance(rng, .3)
    pair = c19.build(rng, m, False, masked), c19.build(rng, m, True, masked)
    ctx.log('dataset', [(n, v.dtype, v.dims, a.shape, repr(v.fill)) for n, (v, a) in m.vs.items()], masked)
    kw = {'scheduler': pick(rng, ['synchronous', 'threads'])}
    r = pair[1].persist(compress=True, **kw)
    c19.check(ctx, 'persisted compressed', m, r, True)
    ctx.count('persisted', sum(v.fill is not None for v, _ in m.vs.values()) or 1)
    if chance(rng, .3):
        r = r.persist(compress=chance(rng, .6), **kw)
        c19.check(ctx, 'persisted twice', m, r, True)
        ctx.count('persisted_twice')
    pair = pair[0], r
    if chance(rng, .4):
        c = r.compute(**kw)
        c19.check(ctx, 'computed from compressed blocks', m, c, False)
        ctx.check(all(type(v.array) in (np.ndarray, np.ma.MaskedArray) for v in c.variables.values()), 'arrays of a computed dataset', got=[type(v.array) for v in c.variables.values()])
        ctx.count('computed')
    if chance(rng, .4):
        path = str(ctx.fresh('zarr'))
        fs = fsspec.filesystem('file')
        r.to_zarr(path, fs, parallel=False)
        g = zarr.open_group(path, mode='r')
        for n, (v, a) in m.vs.items():
            ctx.check(gen.same(g[n][...], a), 'stored values of compressed blocks', var=n, got=g[n][...], want=a)
        ctx.count('stored')
    for _ in range(int(rng.integers(0, 4))):
        op = pick(rng, c19.OPS)
        out = op(ctx, rng, m, pair)
        if out is None:
            continue
        m, pair, _ = out
        m.vs = c19.collections.OrderedDict(m.vs)
        if any(0 in c and len(c) > 1 for var in pair[1].variables.values() for c in var.array.chunks):
            break
        c19.both(ctx, f'compressed, after {op.__name__[3:]}', m, pair)
        ctx.count('dataset_operations')
        ctx.sig('dataset', op.__name__)
        if chance(rng, .3):
            c19.observe(ctx, rng, m, pair)


def run(ctx, e=None):
    rng = ctx.rng
    r = rng.random()
    if r < .2:
        return persisted(ctx, rng)
    if r < .4:
        return lazily(ctx, rng)
    c, ref = random_pair(ctx, rng)
    ctx.log('array', ref.dtype.str, ref.shape, type(ref).__name__, repr(c.fill_value), c.chunks)
    compare(ctx, 'decompressed', ('ok', c[...]), ('ok', ref))
    for _ in range(int(rng.integers(2, 9))):
        expression(ctx, rng, c, ref)
        compare(ctx, 'array after an expression', ('ok', c), ('ok', ref))
        if chance(rng, .2):
            c, ref = modify(ctx, rng, c, ref)
