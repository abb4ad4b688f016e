"""Planted bugs, second batch."""
import importlib.util, pathlib
_s = importlib.util.spec_from_file_location('_a', pathlib.Path(__file__).with_name('a.py'))
_a = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_a)
COMMON = _a.COMMON + '''
def more(ds, var, values):
    new = dataset.Array(var.name, values, var.dimensions, fill_value=var.fill_value)
    return dataset.Dataset([*ds.variables.values(), new])

'''
Z = 'zcollection/'
BUGS = [
    dict(id='C03-split-remainder', property='C03', needs='an insertion split over more than six tasks with a remainder of at least six',
         breaks='the last partitions of the batch are never written when the remainder is larger than five',
         edits=[(Z + 'dask_utils.py', 'itertools.accumulate([0] + extras * [size + 1] +', 'itertools.accumulate([0] + min(extras, 5) * [size + 1] +')],
         demo=COMMON + '''
with client():
    zc = make(WORK / 'c')
    zc.insert(data(np.repeat(np.arange(15), 2)), npartitions=8)
    zc.insert(data(np.repeat(np.arange(15), 2), np.arange(30) + 100), npartitions=2)
    got = zc.load(delayed=False)['var1'].values.tolist()
    assert got == [float(i + 100) for i in range(30)], got
'''),
    dict(id='C06-trim-first-axis', property='C06', needs='an overlapping update of a variable whose partitioning dimension is not the first one',
         breaks='the result is cut along the first dimension of the variable instead of the partitioning dimension',
         edits=[(Z + 'collection/detail.py', '    slices[variable.dimensions.index(dim)] = indices', '    slices[0] = indices')],
         demo=COMMON + '''
def f(zds):
    return {'m': zds['m'].values + 1}


with client():
    zc = make(WORK / 'c', extra=(meta.Variable('m', 'float64', dimensions=('x', 'num_lines')), ), dims=('x', ))
    ds = data([0] * 2 + [1] * 3 + [2] * 4)
    ds = more(ds, meta.Variable('m', 'float64', dimensions=('x', 'num_lines')), np.arange(45.).reshape(5, 9))
    zc.insert(ds)
    zc.update(f, depth=1)
    got = zc.load(delayed=False)['m'].values
    assert (got == np.arange(45.).reshape(5, 9) + 1).all(), got
'''),
    dict(id='C07-text-order', property='C07', needs='negative keys',
         breaks='partitions are listed in the order of their names: negative keys come out of order',
         edits=[(Z + 'partitioning/abc.py', '                          key=self.parse)', '                          key=lambda item: (len(item), item))')],
         demo=COMMON + '''
with client():
    zc = make(WORK / 'c')
    zc.insert(data([-12] * 2 + [-3] * 2 + [-2] + [5] * 2 + [100]))
    got = zc.load(delayed=False)['cycle'].values.tolist()
    assert got == sorted(got), got
    got = [dict(k)['cycle'] for k, _ in zc.map(lambda zds: 0).compute()]
    assert got == sorted(got), got
'''),
    dict(id='C08-swallowed-write', property='C08', needs='a storage error while one variable of a partition is written',
         breaks='the error is swallowed: the partition is put in place without that variable',
         edits=[(Z + 'storage.py', '''        del_zarr_array(dirname, name, fs)
        raise
''', '''        del_zarr_array(dirname, name, fs)
''')],
         demo=COMMON + '''
import fsspec.implementations.local


class Fragile(fsspec.implementations.local.LocalFileSystem):
    """Fails on the attributes of a variable, while the flag is set."""
    cachable = False

    def open(self, path, mode='rb', **kw):
        if 'w' in mode and str(path).endswith('var1/.zattrs') and os.path.exists(FLAG):
            raise OSError('disk full')
        return super().open(path, mode, **kw)


FLAG = str(WORK / 'flag')
with client():
    fs = Fragile()
    zc = make(WORK / 'c', fs=fs)
    zc.insert(data([0] * 4 + [1] * 5, np.arange(9) + 1))
    open(FLAG, 'w').close()
    try:
        zc.insert(data([0] * 4 + [1] * 5, np.arange(9) + 50))
        failed = False
    except Exception:
        failed = True
    os.unlink(FLAG)
    assert failed, 'the failure was not reported'
    got = collection.Collection.from_config(str(WORK / 'c'), filesystem=fsspec.filesystem('file')).load(delayed=False)['var1'].values.tolist()
    assert got == [float(i) for i in range(1, 10)], got
'''),
    dict(id='C09-hidden-listed', property='C09', needs='an insertion killed while a partition is being written, at the first level of the tree',
         breaks='directories left by the interrupted write are listed as partitions: the collection can no longer be read',
         edits=[(Z + 'partitioning/abc.py', '''                lambda info: info['type'] == 'directory' and not info['name'].
                split(fs.sep)[-1].startswith('.'),
''', '''                lambda info: info['type'] == 'directory' and info['name'].
                split(fs.sep)[-1] != '.immutable',
''')],
         demo=COMMON + '''
import signal, subprocess, textwrap
if len(sys.argv) > 2:
    def audit(event, args):
        if event == 'open' and isinstance(args[0], str) and 'var1' in args[0] and args[1] and 'w' in str(args[1]) and os.path.exists(str(WORK / 'flag')):
            os.kill(os.getpid(), signal.SIGKILL)
    sys.addaudithook(audit)
    with client():
        zc = make(WORK / 'c')
        zc.insert(data([0] * 4 + [1] * 5))
        open(str(WORK / 'flag'), 'w').close()
        zc.insert(data([0] * 4 + [1] * 5, np.arange(9) + 50))
    sys.exit('not killed')
r = subprocess.run([sys.executable, __file__, str(WORK), 'child'])
assert r.returncode == -signal.SIGKILL, r.returncode
with client():
    zc = zcollection.open_collection(str(WORK / 'c'), mode='w')
    names = sorted(os.path.basename(p) for p in zc.partitions())
    assert set(names) <= {'cycle=0', 'cycle=1'}, names
    zc.insert(data([0] * 4 + [1] * 5, np.arange(9) + 50))
    got = zc.load(delayed=False)['var1'].values.tolist()
    assert got == [float(i + 50) for i in range(9)], got
'''),
    dict(id='C10-single-batch', property='C10', needs='an insertion which is written by a single task',
         breaks='an insertion that fits in one task is written without holding the synchronizer',
         edits=[(Z + 'collection/__init__.py', 'storage.execute_transaction(client, self.synchronizer, futures)',
                 'storage.execute_transaction(\n                client, self.synchronizer if len(futures) > 1 else sync.NoSync(),\n                futures)')],
         demo=COMMON + '''
class Count(sync.Sync):
    n = 0

    def __enter__(self):
        Count.n += 1
        return True

    def __exit__(self, *args):
        pass

    def is_locked(self):
        return False


with client():
    make(WORK / 'c')
    zc = zcollection.open_collection(str(WORK / 'c'), mode='w', synchronizer=Count())
    for ds in (data([0] * 3 + [1] * 3), data([2] * 3)):
        Count.n = 0
        zc.insert(ds)
        assert Count.n > 0, 'nothing was locked'
'''),
    dict(id='C12-drop-variable', property='C12', needs='drop_variable on a collection opened for reading',
         breaks='drop_variable is no longer refused in read mode: it deletes the variable from every partition',
         edits=[(Z + 'collection/__init__.py', "                'drop_variable',\n                'insert',", "                'insert',")],
         demo=COMMON + '''
with client():
    make(WORK / 'c').insert(data([0] * 3 + [1] * 3))
    zc = zcollection.open_collection(str(WORK / 'c'), mode='r')
    try:
        zc.drop_variable('var1')
    except Exception:
        pass
    assert 'var1' in zcollection.open_collection(str(WORK / 'c'), mode='r').load(delayed=False).variables
'''),
    dict(id='C14-extend-first-axis', property='C14', needs='rows appended to a partition of the reference, for a view variable whose partitioning dimension is not the first one',
         breaks='the array of the view is extended along its first dimension',
         edits=[(Z + 'view/detail.py', '                shape[axis] = new_size', '                shape[0] = new_size')],
         demo=COMMON + '''
VAR = meta.Variable('m', 'float64', dimensions=('x', 'num_lines'), fill_value=-1.0)


def full(cycles, start=0):
    ds = data(cycles, start=start)
    ds = more(ds, VAR, np.zeros((2, len(cycles))))
    return ds


with client():
    zc = make(WORK / 'c', extra=(VAR, ), dims=('x', ))
    zc.insert(full([0] * 3))
    v = zcollection.create_view(str(WORK / 'v'), view.ViewReference(str(WORK / 'c')))
    v.add_variable(meta.Variable('w', 'float64', dimensions=('x', 'num_lines'), fill_value=-1.0))
    v.update(lambda zds: {'w': np.ones(zds['m'].shape)})
    zc.insert(full([0] * 5))
    v.sync()
    got = v.load(delayed=False)['w'].array
    assert got.tolist() == [[1, 1, 1, -1, -1]] * 2, got
'''),
    dict(id='C15-template-order', property='C15', needs='a new variable whose dimensions are those of another variable in a different order',
         breaks='the new variable takes its shape from a variable with the same dimensions in another order',
         edits=[(Z + 'meta.py', '''            if item.dimensions == variable.dimensions:
                return item''', '''            if set(item.dimensions) == set(variable.dimensions):
                return item''')],
         demo=COMMON + '''
A = meta.Variable('a', 'float64', dimensions=('num_lines', 'x'))
B = meta.Variable('b', 'float64', dimensions=('x', 'num_lines'))
with client():
    zc = make(WORK / 'c', extra=(A, B), dims=('x', ))
    ds = data([0] * 4)
    ds = more(ds, A, np.zeros((4, 2)))
    ds = more(ds, B, np.zeros((2, 4)))
    zc.insert(ds)
    zc.add_variable(meta.Variable('w', 'float64', dimensions=('x', 'num_lines'), fill_value=1.5))
    got = zc.load(delayed=False)['w'].array
    assert got.shape == (2, 4) and (got == 1.5).all(), got
'''),
    dict(id='C16-blocks-lost', property='C16', needs='a collection that declares block sizes for several dimensions, reopened',
         breaks='only the block size of the first dimension survives in the configuration',
         edits=[(Z + 'meta.py', "'chunks': tuple(item.get_config() for item in self.chunks),", "'chunks': tuple(item.get_config() for item in self.chunks[:1]),")],
         demo='''
md = meta.Dataset(('n', 'x'), [meta.Variable('time', 'datetime64[ns]', dimensions=('n', )), meta.Variable('v', 'f8', dimensions=('n', 'x'))],
                  chunks=[meta.Dimension('n', 3), meta.Dimension('x', 2)])
collection.Collection('time', md, partitioning.Date(('time', ), 'M'), str(WORK / 'c'), mode='w')
got = zcollection.open_collection(str(WORK / 'c'), mode='r').metadata
assert {d.name: d.value for d in got.chunks} == {'n': 3, 'x': 2}, got.chunks
'''),
    dict(id='C17-second-padding', property='C17', needs='a partitioning by second, with a second below 10',
         breaks='join no longer spells the path under which the partition is stored',
         edits=[(Z + 'partitioning/date.py', "return sep.join(f'{k}={v:02d}' for k, v in partition_scheme)",
                 "return sep.join(f'{k}={v}' if k == 'second' else f'{k}={v:02d}'\n                        for k, v in partition_scheme)")],
         demo='''
p = partitioning.Date(('time', ), 's')
path = 'year=2000/month=01/day=02/hour=03/minute=04/second=05'
assert p.join(p.parse(path), '/') == path, p.join(p.parse(path), '/')
'''),
    dict(id='C18-key-alone', property='C18', needs='an index over several partitioning keys, updated for a partition sharing one key with others',
         breaks='re-indexing one partition removes the entries of every partition that shares one of its keys',
         edits=[(Z + 'indexing/abc.py', '                        pyarrow.compute.and_,  # type:ignore', '                        pyarrow.compute.or_,  # type:ignore')],
         demo='''
from zcollection import indexing


def half(zds):
    n = zds['time'].size
    return np.array([(0, n, 0)], dtype=[('start', 'i8'), ('stop', 'i8'), ('kind', 'i8')])


class Idx(indexing.Indexer):
    def dtype(self, **kw):
        return super().dtype() + [('kind', 'int64')]

    @classmethod
    def create(cls, path, zds, filesystem=None, **kw):
        return super()._create(path, zds, filesystem=filesystem)

    def update(self, zds, partition_size=None, npartitions=None, filters=None, **kw):
        super()._update(zds, half, filters=filters)


with client():
    md = meta.Dataset(('n', ), [meta.Variable('time', 'datetime64[ns]', dimensions=('n', )), meta.Variable('a', 'int64', dimensions=('n', )),
                                meta.Variable('b', 'int64', dimensions=('n', ))])
    zc = collection.Collection('time', md, partitioning.Sequence(('a', 'b')), str(WORK / 'c'), mode='w')
    t = np.datetime64('2000-01-01', 'ns') + np.arange(8).astype('timedelta64[s]')
    zc.insert(dataset.Dataset([dataset.Array('time', t, ('n', )), dataset.Array('a', np.repeat([1, 2], 4), ('n', )),
                               dataset.Array('b', np.tile([1, 1, 2, 2], 2), ('n', ))]))
    idx = Idx.create(str(WORK / 'i.parquet'), zc)
    idx.update(zc)
    idx.update(zc, filters='a == 1 and b == 2')
    keys = sorted(tuple(int(v) for _, v in k) for k, _ in idx.query({'kind': 0}))
    assert keys == [(1, 1), (1, 2), (2, 1), (2, 2)], keys
'''),
    dict(id='C20-zero-fill', property='C20', needs='a compressed array whose fill value is zero',
         breaks='a fill value equal to zero is ignored: nothing is masked',
         edits=[(Z + 'compressed_array.py', '''        values: Array = self._array[key]
        if self._fill_value is not None:''', '''        values: Array = self._array[key]
        if self._fill_value:''')],
         demo='''
from zcollection.compressed_array import CompressedArray
a = CompressedArray(np.array([0., 1, 0, 2]), fill_value=0.0)
m = np.ma.getmaskarray(a[...])
assert m.tolist() == [True, False, True, False], m
'''),
    dict(id='C21-mode-ignored', property='C21', needs='a copy made with mode="r"',
         breaks='the copied collection is always opened for writing',
         edits=[(Z + 'collection/__init__.py', '''        return Collection.from_config(target,
                                      mode=mode,''', '''        return Collection.from_config(target,
                                      mode='w',''')],
         demo=COMMON + '''
with client():
    zc = make(WORK / 'c')
    zc.insert(data([0] * 4 + [1] * 5))
    cp = zc.copy(str(WORK / 'd'), mode='r')
    try:
        cp.drop_partitions()
    except Exception:
        pass
    assert len(list(cp.partitions())) == 2
'''),
    dict(id='C22-first-row', property='C22', needs='a damaged chunk which is not the first of its array',
         breaks='only the first row of each array is read: damage further away is not reported',
         edits=[(Z + 'storage.py', '            data: NDArray = array[...]  # type: ignore', '            data: NDArray = array[:1] if array.ndim else array[\n                ...]  # type: ignore')],
         demo='''
md = meta.Dataset(('n', ), [meta.Variable('time', 'datetime64[ns]', dimensions=('n', )), meta.Variable('v', 'f8', dimensions=('n', ))],
                  chunks=[meta.Dimension('n', 3)])
with client():
    zc = collection.Collection('time', md, partitioning.Date(('time', ), 'M'), str(WORK / 'c'), mode='w')
    t = np.datetime64('2000-01-01', 'ns') + np.arange(8).astype('timedelta64[s]')
    zc.insert(dataset.Dataset([dataset.Array('time', t, ('n', )), dataset.Array('v', np.arange(8.), ('n', ))]))
    assert zc.validate_partitions() == []
    (WORK / 'c' / 'year=2000' / 'month=01' / 'v' / '2').write_bytes(b'garbage')
    import warnings
    warnings.simplefilter('ignore')
    bad = zc.validate_partitions()
    assert len(bad) == 1, bad
'''),
    dict(id='C23-days-ignored', property='C23', needs='an age limit of a day or more',
         breaks='the days of the age limit are ignored: younger partitions are dropped',
         edits=[(Z + 'collection/__init__.py', '            return now - created > timedelta', '            return (now - created).total_seconds() > timedelta.seconds')],
         demo=COMMON + '''
import datetime, time
with client():
    zc = make(WORK / 'c')
    zc.insert(data([0] * 4 + [1] * 5))
    time.sleep(.05)
    zc.drop_partitions(timedelta=datetime.timedelta(days=2))
    assert len(list(zc.partitions())) == 2
'''),
    dict(id='C24-first-dimension', property='C24', needs='a partitioned variable whose partitioning dimension is not the first one',
         breaks='a variable whose first dimension is not the partitioning dimension is taken for an immutable one',
         edits=[(Z + 'dataset.py', 'return bool(set(var.dimensions) & set_of_dims) == predicate', 'return bool(set(var.dimensions[:1]) & set_of_dims) == predicate')],
         demo=COMMON + '''
B = meta.Variable('b', 'float64', dimensions=('x', 'num_lines'))
IM = meta.Variable('im', 'float64', dimensions=('x', ))
with client():
    zc = make(WORK / 'c', extra=(B, IM), dims=('x', ))
    for k in (0, 1):
        ds = data([k] * 4, start=10 * k)
        ds = more(ds, B, np.full((2, 4), float(k)))
        ds = more(ds, IM, np.arange(2.0))
        zc.insert(ds)
    for k in (0, 1):
        group = zarr.open_group(str(WORK / 'c' / f'cycle={k}'), mode='r')
        assert 'b' in group and group['b'][...].tolist() == [[float(k)] * 4] * 2, list(group)
'''),
    dict(id='C25-span', property='C25', needs='the span of a period with one that it overlaps and that ends later',
         breaks='the span of two overlapping periods is cut at the end of the first one',
         edits=[(Z + 'merging/period.py', '                                 if self._last < other.last else self.end())', '                                 if self._last <= other.begin else self.end())')],
         demo='''
from zcollection.merging.period import Period
P = lambda a, b: Period(np.datetime64(a, 'D'), np.datetime64(b, 'D'), within=True)
s = P('2000-01-01', '2000-01-10').span(P('2000-01-05', '2000-01-20'))
assert str(s.begin) == '2000-01-01' and str(s.last) == '2000-01-20', s
'''),
    dict(id='C26-existing-directory', property='C26', needs='create_collection on a directory which exists and is not a collection',
         breaks='a directory that holds other files is accepted as the root of a new collection',
         edits=[(Z + 'convenience/collection.py', '    if filesystem.exists(partition_base_dir):', "    if filesystem.exists(f'{partition_base_dir}/.zcollection'):")],
         demo=COMMON + '''
(WORK / 'c').mkdir()
(WORK / 'c' / 'notes.txt').write_text('x')
with client():
    try:
        zcollection.create_collection('time', data([0] * 3), partitioning.Sequence(('cycle', )), str(WORK / 'c'))
    except ValueError:
        sys.exit(0)
    sys.exit('created over an existing directory')
'''),
]
