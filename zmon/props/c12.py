"""Reading and refused operations, and every view operation, run with an operating-system monitor that must see no mutation of the protected tree."""
import functools, io, pickle, warnings
import numpy as np
import zcollection
from zcollection import view
from .. import audit, calls, env, gen, tree
from ..gen import chance, pick
from . import idx

CASES = {'quick': 80, 'thorough': 1600}
LIMITS = {'case': 300}


def setup(ctx, shard):
    return env.make(shard)


def size_func(zds, *args, **kwargs):
    return {n: tuple(v.shape) for n, v in zds.variables.items()}


def add_func(zds, var=None, dim=None, axis=None, sizes=None, salt=0):
    ax = gen.raw(zds.variables[axis])
    return {var.name: gen.result_array(var, ax.shape[0], sizes, dim, [gen.ident(ax), salt])}


def clobber(zds):
    """A user function writing in the arrays it received."""
    for v in zds.variables.values():
        arr = v.array
        if isinstance(arr, np.ndarray) and arr.flags.writeable:
            arr[...] = np.zeros((), arr.dtype)
    return 0


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, .4), nvars=(1, 3))
    place = gen.Place(ctx, rng, ('local', 'local', 'memory'))
    zc, model = gen.populate(ctx, rng, spec, place, nparts=(2, 4), nrows=(1, 4))
    keys = model.keys()
    before = place.snap()
    roots = [place.base] if place.kind == 'local' else []
    mode = pick(rng, ['r', 'w'])
    opened = {}

    def protected(label, fn, may_raise=None):
        events = []
        raised = None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with audit.armed(roots, events=events):
                try:
                    fn()
                except Exception as exc:
                    raised = exc
        if may_raise is None and raised is not None:
            raise raised
        ctx.check(not events, f'{label}: the protected collection was modified', events=[ev[2:] for ev in events[:6]])
        now = place.snap()
        ctx.check(before == now, f'{label}: stored files changed', diff=tree.diff(before, now))
        ctx.count('protected_operations')
        ctx.sig(label, mode, place.kind, type(raised).__name__)
        return raised

    def open_it():
        opened['z'] = gen.reopen(place, mode)

    protected(f'open {mode}', open_it)
    z = opened['z']
    flt, pred, kind = gen.random_filter(rng, spec, keys)
    dim = spec.dim
    ixer = [(tuple(zip(spec.key_names, keys[0])), slice(0, 1))]
    other = gen.Place(ctx, rng, ('local', 'memory'))
    ixpath = str(ctx.fresh('index')) + '.parquet'
    sel = [spec.axis] + [v.name for v in spec.part_vars if chance(rng, .5)]

    def index():
        ix = idx.Idx.create(ixpath, z)
        ix.update(z)
        list(ix.query({'parity': 0}))

    reads = {
        'partitions': lambda: list(z.partitions(filters=flt)),
        'load': lambda: z.load(delayed=False, filters=flt),
        'load lazy': lambda: (lambda d: d and d.compute())(z.load(delayed=True, filters=flt, selected_variables=sel)),
        'load indexer': lambda: z.load(delayed=chance(rng, .5), indexer=ixer),
        'map': lambda: z.map(size_func, delayed=chance(rng, .5), filters=flt).compute(),
        'map clobber': lambda: z.map(clobber, delayed=False, filters=flt).compute(),
        'map_overlap': lambda: z.map_overlap(size_func, 1, delayed=chance(rng, .5), filters=flt).compute(),
        'records': lambda: [k for k, g in z.iterate_on_records()],
        'variables': lambda: (z.variables(), str(z), z.metadata, z.is_readonly(), z.immutable, z.is_locked()),
        'copy': lambda: z.copy(other.base, filesystem=other.fs, filters=flt),
        'validate': lambda: z.validate_partitions(filters=flt),
        'index': index,
        'reopen': lambda: gen.reopen(place, pick(rng, ['r', 'w'])),
        'clobber loaded': lambda: clobber(z.load(delayed=False)),
        'recreate': lambda: gen.create(spec, place),
    }
    names = [list(reads)[int(i)] for i in rng.permutation(len(reads))]
    for name in names[:9]:
        protected(name, reads[name])
        ctx.count('read_operations')
    ctx.log('spec', spec.describe(), place.kind, mode, names[:9])

    # -- refused operations
    if mode == 'r':
        cand = [v for v in spec.part_vars if v.name.startswith('var')]
        v0 = pick(rng, cand)
        nv = gen.random_new_var(rng, 'added', v0.dims)
        rows = gen.rows_for(rng, spec, gen.random_keys(rng, spec, 2) + keys[:1], nrows=(1, 3))
        ds = gen.make_dataset(spec, rows, chance(rng, .5), rng)
        f = functools.partial(add_func, var=v0, dim=dim, axis=spec.axis, sizes=spec.sizes)
        refused = {
            'insert': lambda: z.insert(ds, merge_callable=pick(rng, [None, zcollection.merging.merge_time_series])),
            'update': lambda: z.update(f, variables=[v0.name], depth=pick(rng, [0, 1])),
            'drop_partitions': lambda: z.drop_partitions(filters=flt),
            'add_variable': lambda: z.add_variable(nv.meta()),
            'drop_variable': lambda: z.drop_variable(v0.name),
            'validate fix': lambda: z.validate_partitions(fix=True),
        }
        for name in refused:
            exc = protected(name, refused[name], may_raise=True)
            ctx.check(exc is not None, f'{name}: accepted on a read-only collection')
            ctx.check(isinstance(exc, io.UnsupportedOperation), f'{name}: refused with {type(exc).__name__}')
            ctx.count('refused_operations')
        if chance(rng, .5) and place.kind == 'local':
            # an unreadable partition: reading and fixing in read-only mode must leave it alone
            p = pick(rng, list(z.partitions()))
            with audit.unmonitored():
                with open(f'{p}/.zmetadata', 'w') as fh:
                    fh.write('{')
            before = place.snap()
            protected('validate damaged', lambda: z.validate_partitions())
            exc = protected('fix damaged', lambda: z.validate_partitions(fix=True), may_raise=True)
            ctx.check(exc is not None, 'fixing accepted on a read-only collection')
            ctx.count('damaged')
            other.close()
            place.close()
            return

    # -- view operations on the protected reference
    vplace = gen.Place(ctx, rng, ('local', 'memory'))
    vv = gen.random_new_var(rng, 'vv', pick(rng, spec.part_vars).dims, dtypes=['f8', 'i4'])
    vw = gen.random_new_var(rng, 'vw', (dim, ), dtypes=['f8'])
    st = {}

    def create():
        st['v'] = zcollection.create_view(vplace.base, view.ViewReference(place.base, place.fs), filesystem=vplace.fs,
                                          filters=flt if kind in ('str', 'none') else None)

    protected('view create', create)
    v = st['v']
    fv = functools.partial(add_func, var=vv, dim=dim, axis=spec.axis, sizes=spec.sizes)

    def reopen_view():
        st['v'] = zcollection.open_view(vplace.base, filesystem=vplace.fs)

    nonempty = bool(list(v.partitions()))
    seq = ['add', 'update', 'load', 'map', 'map_overlap', 'update_overlap', 'sync', 'add2', 'reopen', 'refused', 'vindex', 'drop', 'is_synced']
    ops = {
        'add': lambda: st['v'].add_variable(vv.meta()),
        'add2': lambda: st['v'].add_variable(vw.meta()),
        'update': lambda: st['v'].update(fv),
        'update_overlap': lambda: st['v'].update(fv, depth=1),
        'load': lambda: st['v'].load(delayed=chance(rng, .5)),
        'map': lambda: st['v'].map(clobber, delayed=False).compute(),
        'map_overlap': lambda: st['v'].map_overlap(size_func, 1, delayed=chance(rng, .5)).compute(),
        'sync': lambda: st['v'].sync(),
        'is_synced': lambda: st['v'].is_synced(),
        'reopen': reopen_view,
        'drop': lambda: st['v'].drop_variable(vv.name),
    }
    for name in seq:
        if name == 'refused':
            target = pick(rng, spec.part_vars)
            nm = target.name
            for label, fn in {
                    'view add of a reference variable': lambda: st['v'].add_variable(target.meta()),
                    'view drop of a reference variable': lambda: st['v'].drop_variable(nm),
                    'view update of a reference variable': lambda: st['v'].update(
                        functools.partial(add_func, var=target, dim=dim, axis=spec.axis, sizes=spec.sizes)),
            }.items():
                exc = protected(label, fn, may_raise=True)
                if nonempty or 'update' not in label:
                    ctx.check(exc is not None, f'{label}: accepted')
                ctx.count('view_refused')
        elif name == 'vindex':
            if nonempty:
                protected('view load indexer', lambda: st['v'].load(delayed=False, indexer=ixer))
        else:
            protected('view ' + name, ops[name])
            ctx.count('view_operations')
    # dropping everything through the view object's files does not concern the reference
    ctx.sample({'mode': mode, 'reads': names[:9], 'files_protected': len(before)})
    other.close()
    vplace.close()
    place.close()
