"""Planted bugs, fourth batch."""
import importlib.util, pathlib
_s = importlib.util.spec_from_file_location('_b', pathlib.Path(__file__).with_name('b.py'))
_b = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_b)
COMMON = _b.COMMON
Z = 'zcollection/'
BUGS = [
    dict(id='C11-opened-unlocked', property='C11', needs='sessions opening an existing collection with an interprocess lock',
         breaks='the lock given when a collection is opened is ignored: concurrent sessions are not serialized',
         edits=[(Z + 'collection/__init__.py', """            mode=mode or 'r',
            filesystem=fs,
            synchronizer=synchronizer,
        )
""", """            mode=mode or 'r',
            filesystem=fs,
        )
""")],
         demo=COMMON + '''
lock = sync.ProcessSync(str(WORK / 'lock'))
with client():
    make(WORK / 'c').insert(data([0, 0, 1]))
    zc = zcollection.open_collection(str(WORK / 'c'), mode='w', synchronizer=lock)
    log = str(WORK / 'log')

    def merge(existing, inserted, axis, dim):
        with open(log, 'a') as f:
            print(lock.is_locked(), file=f)
        return inserted

    zc.insert(data([0, 0, 1]), merge_callable=merge)
    seen = [l == 'True' for l in open(log).read().split()]
    assert seen and all(seen), seen
'''),
    dict(id='C10-opened-view-unlocked', property='C10', needs='modifying a view opened with a synchronizer',
         breaks='the synchronizer given when a view is opened is ignored',
         edits=[(Z + 'view/__init__.py', """                    filters=_deserialize_filters(data['filters']),
                    synchronizer=synchronizer)
""", """                    filters=_deserialize_filters(data['filters']))
""")],
         demo=COMMON + '''
lock = sync.ProcessSync(str(WORK / 'lock'))
log = str(WORK / 'log')


def fill(zds):
    with open(log, 'a') as f:
        print(lock.is_locked(), file=f)
    return {'v': zds['var1'].values * 2}


with client():
    make(WORK / 'c').insert(data([0, 0, 1]))
    zv = zcollection.create_view(str(WORK / 'v'), view.ViewReference(str(WORK / 'c')))
    zv.add_variable(meta.Variable('v', 'float64', dimensions=('num_lines', ), fill_value=0.0))
    zv = zcollection.open_view(str(WORK / 'v'), synchronizer=lock)
    zv.update(fill)
    seen = [l == 'True' for l in open(log).read().split()]
    assert len(seen) == 3 and all(seen[1:]), seen
'''),
    dict(id='C13-two-ranges', property='C13', needs='loading a view with an indexer holding exactly two ranges of rows of one partition',
         breaks='the second range of rows is lost',
         edits=[(Z + 'view/detail.py', """        zds = ds_list.pop(0)
        if ds_list:
""", """        zds = ds_list.pop(0)
        if len(ds_list) > 1:
""")],
         demo=COMMON + '''
with client():
    make(WORK / 'c').insert(data([0] * 6 + [1] * 3))
    zv = zcollection.create_view(str(WORK / 'v'), view.ViewReference(str(WORK / 'c')))
    zv.add_variable(meta.Variable('v', 'float64', dimensions=('num_lines', ), fill_value=-1.0))
    zv.update(lambda zds: {'v': np.asarray(zds['cycle'].values) * 0 + np.arange(zds['cycle'].size) * 2.})
    key = (('cycle', 0), )
    ds = zv.load(indexer=[(key, slice(0, 2)), (key, slice(4, 6))], delayed=False)
    assert ds['v'].values.tolist() == [0., 2., 8., 10.], ds['v'].values
    assert ds['cycle'].values.tolist() == [0] * 4, ds['cycle'].values
'''),
]
