"""Round trip: insert, then load by every route, compared with the numpy arrays that were inserted."""
import dask.array as da
import numpy as np
import xarray
import zcollection
from zcollection import dataset, meta
from .. import env, gen
from ..gen import chance, pick

CASES = {'quick': 160, 'thorough': 2400}


def setup(ctx, shard):
    return env.make(shard)


def as_xarray(rng, spec, rows, lazy):
    """The rows as an xarray dataset, or None if xarray cannot hold them without converting them."""
    for v in spec.vars:
        dtype = np.dtype(v.dtype)
        if v.name in rows and (dtype.kind in 'Mm' and dtype not in ('M8[ns]', 'm8[ns]') or v.name in {d for w in spec.vars for d in w.dims}):
            return None
    data = {}
    for v in spec.vars:
        if v.name not in rows:
            continue
        arr = rows[v.name].copy()
        if lazy and chance(rng, .7):
            arr = da.from_array(arr, chunks=gen.random_chunks(rng, arr.shape))
        enc = {k: w for k, w in (('compressor', v.compressor), ('filters', v.filters), ('_FillValue', v.fill)) if w is not None}
        data[v.name] = xarray.Variable(v.dims, arr, dict(v.attrs), enc)
    return xarray.Dataset(data, attrs=dict(spec.attrs))


def through_xarray(ctx, rng, spec, place, rows, saved):
    """The dataset is given as an xarray dataset, to create the collection or only to fill it."""
    xds = as_xarray(rng, spec, rows, chance(rng, .5))
    if xds is None:
        return None
    if set(rows) == set(spec.names) and chance(rng, .5):
        spec.chunks, spec.block_size_limit = {}, None
        zc = zcollection.create_collection(spec.axis, xds, spec.partitioning(), place.base, filesystem=place.fs)
        ctx.count('created_from_xarray')
    else:
        zc = gen.create(spec, place)
    zc.insert(xds)
    for k in rows:
        ctx.check(gen.same(np.asarray(xds.variables[k].values), saved[k]), f'insert changed the xarray variable {k}')
    ctx.count('xarray_insertions')
    return zc


def refusals(ctx, rng, spec, place, zc, rows):
    """An insertion which does not match the collection is refused and changes nothing."""
    before = place.snap()
    kind = pick(rng, ['unknown', 'attribute', 'dtype', 'fill', 'dimension', 'dataset attribute'])
    ds = gen.make_dataset(spec, rows, chance(rng, .5), rng)
    if kind != 'unknown':
        ds.chunks = dict(spec.chunks)
    variables = list(ds.variables.values())
    ix = int(rng.integers(len(variables)))
    v = variables[ix]
    cls = type(v)
    build = lambda name=v.name, array=v.array, attrs=v.attrs, fill=v.fill_value: cls(
        name, array, v.dimensions, attrs=attrs, compressor=v.compressor, fill_value=fill, filters=v.filters)
    attrs, kwargs = list(ds.attrs), {'validate': True}
    if kind == 'unknown':
        variables.append(build(name=v.name + '_x'))
        kwargs = {} if chance(rng, .5) else kwargs
    elif kind == 'attribute':
        variables[ix] = build(attrs=(*v.attrs, dataset.Attribute('zz_extra', 1)))
    elif kind == 'dtype':
        if v.array.dtype.kind not in 'iu' or v.name in spec.keys or v.name == spec.axis:
            return
        other = 'f8' if v.array.dtype.kind in 'iu' else 'i8'
        variables[ix] = build(array=v.array.astype(other), fill=None if v.fill_value is None else np.dtype(other).type(0))
    elif kind == 'fill':
        if v.array.dtype.kind not in 'iuf':
            return
        new = v.array.dtype.type(17)
        variables[ix] = build(fill=new if v.fill_value is None or v.fill_value != 17 else None)
    elif kind == 'dataset attribute':
        attrs = [*attrs, dataset.Attribute('zz_extra', 1)]
    else:
        if len(v.dimensions) < 2 or len(set(v.array.shape)) == 1:
            return
        variables[ix] = cls(v.name, v.array.T, v.dimensions[::-1], attrs=v.attrs, compressor=v.compressor, fill_value=v.fill_value, filters=v.filters)
    bad = dataset.Dataset(variables, attrs=attrs, chunks=[meta.Dimension(*i) for i in ds.chunks.items()],
                          block_size_limit=ds.block_size_limit)
    ctx.log('refusal', kind, v.name, kwargs)
    ctx.expect_raises(ValueError, lambda: zc.insert(bad, **kwargs), f'insertion of a dataset with another {kind}')
    ctx.check(place.snap() == before, f'the refused insertion ({kind}) changed the collection')
    ctx.count('refused_insertions')
    ctx.sig('refused', kind)


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, 0.3))
    place = gen.Place(ctx, rng)
    delayed = chance(rng, 0.5)
    masked = chance(rng, 0.3)
    keys = gen.random_keys(rng, spec, int(rng.integers(1, 5)))
    missing = [v.name for v in spec.vars if v.name.startswith('var') and v.fill is not None and chance(rng, 0.25)]
    # a missing variable is created with the sizes found in the inserted dataset
    left = {d for v in spec.vars if v.name not in missing for d in v.dims}
    missing = [m for m in missing if set(spec.var(m).dims) <= left]
    left = {d for v in spec.vars if v.name not in missing for d in v.dims}
    missing = [m for m in missing if set(spec.var(m).dims) <= left]
    rows = gen.rows_for(rng, spec, keys, nrows=(1, 9), missing=missing)
    saved = {k: v.copy() for k, v in rows.items()}
    order = (lambda n: rng.permutation(n)) if chance(rng, .3) else None
    ds = gen.make_dataset(spec, rows, delayed, rng, masked, order)
    holders = {k: v.array for k, v in ds.variables.items()}
    ctx.log('spec', spec.describe(), place.kind, 'delayed', delayed, 'masked', masked, 'missing', missing)
    zc = through_xarray(ctx, rng, spec, place, rows, saved) if not masked and chance(rng, .5) else None
    used_xarray = zc is not None
    use_ds = not missing and not masked and chance(rng, 0.5)
    if not used_xarray:
        zc = gen.create(spec, place, ds=ds if use_ds else None)
    source = ds
    kwargs = {}
    if chance(rng, 0.3):
        kwargs['npartitions'] = int(rng.integers(1, 6))
    if not missing and chance(rng, 0.2) and not masked and order is None:
        kwargs['validate'] = True
        ds.chunks = dict(spec.chunks)
    if not used_xarray:
        zc.insert(source, **kwargs)
    for k, arr in holders.items():
        ctx.check(gen.same(np.asarray(arr), saved[k]), f'insert changed the caller array {k}')
        ctx.check(gen.same(rows[k], saved[k]), f'insert changed the caller buffer {k}')
        ctx.count('caller_arrays_checked')
    model = gen.Model(spec)
    model.insert(saved)
    exp = model.expect()
    ctx.count('missing_variables', len(missing))
    for v in spec.vars:
        if v.fill is not None and v.fill == v.fill and np.all(exp[v.name] == v.fill):
            ctx.count('all_fill_arrays')
    gen.check_dataset(ctx, 'load', spec, zc.load(delayed=True), exp, delayed=True)
    gen.check_dataset(ctx, 'load eager', spec, zc.load(delayed=False), exp, delayed=False)
    mode = pick(rng, ['r', 'w'])
    z2 = gen.reopen(place, mode)
    d2 = chance(rng, 0.5)
    gen.check_dataset(ctx, f'load reopened({mode})', spec, z2.load(delayed=d2), exp, delayed=d2)
    ctx.count('reopened_loads')
    names = [n for n in spec.names if chance(rng, 0.5)] or [spec.axis]
    part = [n for n in names if spec.dim in spec.var(n).dims]
    if part:
        gen.check_dataset(ctx, f'load of {names}', spec, z2.load(delayed=d2, selected_variables=names), exp, names=names)
    gen.check_stored(ctx, 'stored', spec, place.fs, place.base, model)
    if chance(rng, .35) and not missing:
        refusals(ctx, rng, spec, place, zc, saved)
    if chance(rng, 0.3):   # a second generation written from what was read
        again = gen.Place(ctx, rng)
        z3 = gen.create(spec, again)
        z3.insert(z2.load(delayed=chance(rng, .5)))
        gen.check_dataset(ctx, 'load of a re-inserted load', spec, z3.load(delayed=d2), exp)
        ctx.count('second_generation')
        again.close()
    ctx.sig(place.kind, delayed, masked, bool(missing), used_xarray, spec.kind, spec.resolution, tuple(sorted({v.dtype for v in spec.vars})),
            tuple(sorted({type(v.compressor).__name__ for v in spec.vars} | {type(f).__name__ for v in spec.vars for f in v.filters})))
    ctx.sample({'spec': spec.describe(), 'rows': int(spec.nrows(exp)), 'partitions': len(model.parts)})
    place.close()
