"""Planted bugs, first batch."""
COMMON = '''
def make(base, spec_dim='num_lines', n=12, parts=3, axis='time', extra=(), mode='w', fs=None, dims=()):
    """A collection partitioned by cycle, one variable, partitions of different sizes."""
    md = meta.Dataset((spec_dim, *dims), [
        meta.Variable('time', 'datetime64[ns]', dimensions=(spec_dim, )),
        meta.Variable('cycle', 'int64', dimensions=(spec_dim, )),
        meta.Variable('var1', 'float64', dimensions=(spec_dim, ), fill_value=0.0), *extra])
    return collection.Collection('time', md, partitioning.Sequence(('cycle', )), str(base), mode=mode, filesystem=fs)


def data(cycles, values=None, dim='num_lines', start=0):
    cycles = np.asarray(cycles, 'int64')
    n = cycles.size
    v = np.arange(n, dtype='float64') if values is None else np.asarray(values, 'float64')
    t = np.datetime64('2000-01-01', 'ns') + np.arange(start, start + n).astype('timedelta64[s]')
    return dataset.Dataset([dataset.Array('time', t, (dim, )), dataset.Array('cycle', cycles, (dim, )), dataset.Array('var1', v, (dim, ), fill_value=0.0)])

'''
BUGS = [
    dict(id='C04-tolerance-gap', property='C04', needs='an insertion with a tolerance, with a gap exactly equal to it, over existing rows inside that gap',
         breaks='a gap equal to the tolerance is treated as a gap, so existing rows inside the span survive',
         edits=[('zcollection/merging/time_series.py', 'numpy.where(delta > tolerance)[0]', 'numpy.where(delta >= tolerance)[0]')],
         demo='''
def ds(times):
    t = np.datetime64('2000-01-01', 'ns') + np.asarray(times).astype('timedelta64[s]')
    return dataset.Dataset([dataset.Array('time', t, ('n', )), dataset.Array('v', np.asarray(times, 'f8'), ('n', ))])


a, b = ds([0, 5, 10, 20, 30]), ds([8, 9, 14, 15])
r = merging.merge_time_series(a, b, 'time', 'n', tolerance=np.timedelta64(5, 's'))
assert r['v'].values.tolist() == [0, 5, 8, 9, 14, 15, 20, 30], r['v'].values
'''),
    dict(id='C06-slice-equal-size', property='C06', needs='overlap over partitions of different sizes, with a depth of at least 2',
         breaks='the slice of the partition inside the window is computed from the size of the first neighbour',
         edits=[('zcollection/collection/detail.py', '            start += size\n', "            start += groups[0].dimensions[dim]\n")],
         demo=COMMON + '''
def f(zds, partition_info=None):
    dim, sl = partition_info
    return zds['cycle'].values[sl].tolist()


with client():
    zc = make(WORK / 'c')
    zc.insert(data([0] * 2 + [1] * 5 + [2] * 3 + [3] * 4))
    for key, value in zc.map_overlap(f, depth=2).compute():
        assert set(value) == {dict(key)['cycle']}, (key, value)
'''),
    dict(id='C05-masked-not-filled', property='C05', needs='an update function returning a masked array for a variable whose fill value is zero',
         breaks='masked results are stored with the data under the mask instead of the fill value',
         edits=[('zcollection/storage.py', "numpy.ma.MaskedArray) and store.fill_value is not None:", "numpy.ma.MaskedArray) and store.fill_value:")],
         demo=COMMON + '''
def f(zds):
    v = zds['var1'].values
    return {'var1': np.ma.masked_array(np.full(v.shape, 7.0), mask=np.arange(v.size) % 2 == 0)}


with client():
    zc = make(WORK / 'c')
    zc.insert(data([0] * 4 + [1] * 5))
    zc.update(f)
    for i, n in ((0, 4), (1, 5)):
        a = zarr.open_group(str(WORK / 'c' / f'cycle={i}'), mode='r')['var1'][...]
        assert a.tolist() == [0.0 if k % 2 == 0 else 7.0 for k in range(n)], a
'''),
]
