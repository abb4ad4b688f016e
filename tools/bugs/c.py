"""Planted bugs, third batch."""
import importlib.util, pathlib
_s = importlib.util.spec_from_file_location('_b', pathlib.Path(__file__).with_name('b.py'))
_b = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_b)
COMMON = _b.COMMON
Z = 'zcollection/'
BUGS = [
    dict(id='C02-truncated-hour', property='C02', needs='a date partitioning by minute or second',
         breaks='the minutes and the seconds of the partition paths are always zero: several partitions share a directory',
         edits=[(Z + 'partitioning/date.py', """        py_datetime: datetime.datetime = datetime64.astype('M8[s]').item()
        return tuple(UNITS[ix] + '=' +""", """        py_datetime: datetime.datetime = datetime64.astype(
            'M8[h]').item()
        return tuple(UNITS[ix] + '=' +""")],
         demo='''
with client():
    t = np.datetime64('2000-01-01T10:20', 'ns') + np.arange(3).astype('timedelta64[m]')
    ds = dataset.Dataset([dataset.Array('time', t, ('n', ))])
    got = [k[-1] for k, v in partitioning.Date(('time', ), 'm').split_dataset(ds, 'n')]
    assert got == ['minute=20', 'minute=21', 'minute=22'], got
'''),
    dict(id='C15-second-key-dropped', property='C15', needs='dropping the variable of a partitioning key which is not the first',
         breaks='a variable the partitioning needs can be dropped',
         edits=[(Z + 'collection/__init__.py', '        if variable in self.partitioning.variables:\n', '        if variable in self.partitioning.variables[:1]:\n')],
         demo='''
md = meta.Dataset(('n', ), [meta.Variable(k, 'int64', dimensions=('n', )) for k in ('time', 'a', 'b', 'c')])
with client():
    zc = collection.Collection('time', md, partitioning.Sequence(('a', 'b')), str(WORK / 'c'), mode='w')
    zc.insert(dataset.Dataset([dataset.Array(k, np.arange(4), ('n', )) for k in ('time', 'a', 'b', 'c')]))
    try:
        zc.drop_variable('b')
        refused = False
    except ValueError:
        refused = True
    assert refused, 'a partitioning variable was dropped'
'''),
    dict(id='C19-xarray-zero-fill', property='C19', needs='a variable whose fill value is zero, converted to xarray',
         breaks='the fill value zero is lost by the conversion',
         edits=[(Z + 'variable/abc.py', "        if self.fill_value is not None:\n            attrs['_FillValue']", "        if self.fill_value:\n            attrs['_FillValue']")],
         demo='''
var = dataset.Array('v', np.arange(4.0), ('n', ), fill_value=0.0)
got = var.to_xarray()
assert got.attrs.get('_FillValue') == 0.0, got.attrs
'''),
    dict(id='C24-selected-immutable', property='C24', needs='loading selected variables, one of which does not have the partitioning dimension',
         breaks='the immutable variables are missing when variables are selected',
         edits=[(Z + 'collection/detail.py', '''    if immutable:
        zds.merge(
            open_zarr_group(immutable,
                            fs,
                            delayed=delayed,
                            selected_variables=selected_variables))
    return zds
''', '''    if immutable and selected_variables is None:
        zds.merge(
            open_zarr_group(immutable,
                            fs,
                            delayed=delayed,
                            selected_variables=selected_variables))
    return zds
''')],
         demo=COMMON + '''
IM = meta.Variable('im', 'float64', dimensions=('x', ))
with client():
    zc = make(WORK / 'c', extra=(IM, ), dims=('x', ))
    ds = more(data([0] * 4), IM, np.arange(2.0))
    zc.insert(ds)
    got = zc.load(delayed=False, selected_variables=('var1', 'im'))
    assert 'im' in got.variables and got['im'].array.tolist() == [0, 1], got
    rec = zc.map(lambda zds: sorted(zds.variables), selected_variables=('var1', 'im')).compute()
    assert rec[0][1] == ['im', 'var1'], rec
'''),
    dict(id='C27-checksum-first', property='C27', needs='a view synchronization that fails while a partition is created, its clean-up failing too',
         breaks='the partition of the view looks synchronized although its arrays were not created: the repeated synchronization skips it',
         edits=[(Z + 'view/detail.py', '''    try:
        for variable in metadata.variables.values():
            template: meta.Variable = \\
''', '''    try:
        _write_checksum(path, base_dir, view_ref, fs, group)
        for variable in metadata.variables.values():
            template: meta.Variable = \\
'''), (Z + 'view/detail.py', '''                               invalidate_cache=False)
        _write_checksum(path, base_dir, view_ref, fs, group)
''', '''                               invalidate_cache=False)
''')],
         demo=COMMON + '''
import fsspec.implementations.local


class Fragile(fsspec.implementations.local.LocalFileSystem):
    """Fails on the array of the view and on the deletions, while the flag is set."""
    cachable = False

    def open(self, path, mode='rb', **kw):
        if 'w' in mode and str(path).endswith('w/.zattrs') and os.path.exists(FLAG):
            raise OSError('disk full')
        return super().open(path, mode, **kw)

    def rm(self, path, *args, **kw):
        if os.path.exists(FLAG):
            raise OSError('input/output error')
        return super().rm(path, *args, **kw)


FLAG = str(WORK / 'flag')
with client():
    zc = make(WORK / 'c')
    zc.insert(data([0] * 4))
    v = zcollection.create_view(str(WORK / 'v'), view.ViewReference(str(WORK / 'c')), filesystem=Fragile())
    v.add_variable(meta.Variable('w', 'float64', dimensions=('num_lines', ), fill_value=-1.0))
    zc.insert(data([1] * 3, start=10))
    open(FLAG, 'w').close()
    try:
        v.sync()
        failed = False
    except Exception:
        failed = True
    os.unlink(FLAG)
    assert failed, 'the failure was not reported'
    v.sync()
    got = v.load(delayed=False)['w'].array
    attrs = zarr.open_array(str(WORK / 'v' / 'cycle=1' / 'w'), mode='r').attrs
    assert got.tolist() == [-1.0] * 7 and '_ARRAY_DIMENSIONS' in attrs, got
'''),
    dict(id='C01-zero-fill', property='C01', needs='a variable whose fill value is zero',
         breaks='the fill value zero is not stored with the data: the missing values come back as valid zeros',
         edits=[(Z + 'storage.py', '                 fill_value=variable.fill_value,\n                 **kwargs)', '                 fill_value=variable.fill_value or None,\n                 **kwargs)')],
         demo=COMMON + '''
with client():
    zc = make(WORK / 'c')
    zc.insert(data([0] * 4, [1, 0, 2, 0]))
    var = zc.load(delayed=False)['var1']
    assert var.fill_value == 0.0 and np.ma.getmaskarray(var.values).tolist() == [False, True, False, True], var
'''),
]
