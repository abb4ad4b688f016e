"""Every file mutation is checked online against the state of a recording synchronizer."""
import functools, os, time, warnings
import numpy as np
import zcollection
from zcollection import view
from .. import audit, calls, env, gen, recsync
from ..gen import chance, pick
from .c08 import merge_func, upd_func, Boom

CASES = {'quick': 96, 'thorough': 2000}
LIMITS = {'case': 300}


def setup(ctx, shard):
    return env.make(shard)


class Monitor:
    """Online checker: a mutation of data is legal only while the synchronizer is held exactly once."""

    def __init__(self, sync, base, config):
        self.sync, self.base, self.config = sync, os.path.normpath(base), config
        self.bad = []
        self.creating = False
        self.seen = 0
        self.ops = {}

    def probe(self, n, op, path):
        rel = os.path.relpath(path, self.base)
        if rel == '.' or (rel.startswith(self.config) and self.creating):
            return
        self.seen += 1
        st = recsync.state(self.sync.token)
        if st['held'] < 1:
            self.bad.append((op, rel))


def view_func(zds, token=None, fail_at=None, spec=None, var=None, salt=0):
    n = calls.add(token, 1)
    if n == fail_at:
        raise Boom('view update')
    ax = gen.raw(zds.variables[spec.axis])
    return {var.name: gen.result_array(var, ax.shape[0], spec.sizes, spec.dim, [gen.ident(ax), salt])}


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, .4), nvars=(1, 2), dtypes=['f8', 'i4', 'i8'])
    place = gen.Place(ctx, rng, ('local', ))
    sync = recsync.RecSync()
    zc = gen.create(spec, place, synchronizer=sync)
    universe = gen.random_keys(rng, spec, 5)
    mon = Monitor(sync, place.base, '.zcollection')
    ctx.log('spec', spec.describe())
    populated = [False]
    vplace = gen.Place(ctx, rng, ('local', ))
    vsync = recsync.RecSync()
    vmon = Monitor(vsync, vplace.base, '.view')
    v = [None]
    vvars = []

    def guarded(label, fn, fault=None, view_op=False):
        """Run one operation under the monitors."""
        sy, m = (vsync, vmon) if view_op else (sync, mon)
        st = recsync.state(sy.token)
        st['max'] = 0
        e0 = st['enters']
        for x in (mon, vmon):
            x.bad.clear()
            x.creating = label == 'create'
            x.seen = 0
        roots = [place.base, vplace.base]
        raised = None

        def probe(n, op, path):
            (vmon if (os.path.normpath(path) + '/').startswith(os.path.normpath(vplace.base) + '/') else mon).probe(n, op, path)

        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            delay = (lambda n, o: time.sleep(0.003)) if chance(rng, .3) else None
            with audit.armed(roots, probe=probe, fault_at=fault, delay=delay) as s:
                try:
                    fn()
                except Exception as exc:
                    raised = exc
                held_at_end = st['held']
                time.sleep(0.01 if fault is None else 0.03)
        other = mon if view_op else vmon
        ctx.log(label, 'mutations', m.seen, 'enters', st['enters'] - e0, 'raised', type(raised).__name__ if raised else None)
        ctx.check(not m.bad, f'{label}: data modified while the synchronizer is not held', mutations=m.bad[:6], raised=repr(raised)[:200])
        ctx.check(not (view_op and other.seen), f'{label}: the reference collection was modified', n=other.seen)
        ctx.check(held_at_end == 0 and st['held'] == 0, f'{label}: the synchronizer was not released', held=st['held'])
        ctx.check(st['max'] <= 1, f'{label}: the synchronizer was acquired again while held', depth=st['max'])
        ctx.check(st['enters'] == st['exits'], f'{label}: unbalanced synchronizer', enters=st['enters'], exits=st['exits'])
        ctx.count('guarded_mutations', m.seen)
        ctx.count('operations')
        if raised is not None:
            ctx.count('failed_operations')
        if m.seen:
            ctx.count(('view_' if view_op else '') + label.split()[0])
        ctx.sig(label.split()[0], view_op, fault is not None, raised is not None, min(m.seen, 3) > 0)
        return raised

    def insert(label, ks, merge=None, fault=None):
        rows = gen.rows_for(rng, spec, ks, nrows=(1, 3))
        ds = gen.make_dataset(spec, rows, chance(rng, .5), rng)
        r = guarded(label, lambda: zc.insert(ds, merge_callable=merge, npartitions=None if chance(rng, .5) else 2), fault)
        if r is None:
            populated[0] = True
        elif fault is None:
            raise r

    insert('insert first', universe[:3])
    cand = [x.name for x in spec.part_vars if x.name.startswith('var')]
    steps = ['insert', 'overwrite', 'merge', 'mergefail', 'update', 'updatefail', 'drop', 'addvar', 'dropvar', 'fault', 'view', 'viewadd', 'viewupdate',
             'viewfail', 'viewsync', 'viewdrop', 'validate']
    todo = [steps[int(i)] for i in rng.permutation(len(steps))]
    nadd = 0
    for step in todo:
        fault = int(rng.integers(1, 40)) if step == 'fault' else None
        if step == 'insert':
            insert('insert', universe[3:])
        elif step == 'overwrite':
            insert('overwrite', [pick(rng, universe[:3])])
        elif step == 'merge':
            insert('merge', universe[:2], functools.partial(merge_func, token=calls.new()))
        elif step == 'mergefail':
            rows = gen.rows_for(rng, spec, universe[:3], nrows=(1, 3))
            ds = gen.make_dataset(spec, rows, False)
            guarded('mergefail', lambda: zc.insert(ds, merge_callable=functools.partial(merge_func, token=calls.new(), fail_at=1)))
        elif step in ('update', 'updatefail'):
            fa = 2 if step == 'updatefail' else None
            f = functools.partial(upd_func, spec=spec, token=calls.new(), fail_at=fa, targets=cand[:1], salt=1)
            r = guarded(step, lambda: zc.update(f, variables=cand[:1] if chance(rng, .5) else None))
            if r is not None and fa is None:
                raise r
        elif step == 'drop':
            k = pick(rng, universe[:3])
            r = guarded('drop', lambda: zc.drop_partitions(filters=lambda d: tuple(d[n] for n in spec.key_names) == k))
            if r is not None:
                raise r
        elif step == 'addvar':
            nadd += 1
            nv = gen.random_new_var(rng, f'add{nadd}', pick(rng, spec.part_vars).dims)
            r = guarded('addvar', lambda: zc.add_variable(nv.meta()))
            if r is not None:
                raise r
            spec.vars.append(nv)
        elif step == 'dropvar':
            if any(x.name.startswith('add') for x in spec.vars):
                x = next(x for x in spec.vars if x.name.startswith('add'))
                r = guarded('dropvar', lambda: zc.drop_variable(x.name))
                if r is not None:
                    raise r
                spec.vars.remove(x)
        elif step == 'fault':
            sub = pick(rng, ['insert', 'drop', 'update', 'addvar', 'dropvar'])
            if sub == 'insert':
                insert('insert-fault', universe[:3], functools.partial(merge_func, token=calls.new()) if chance(rng, .5) else None, fault)
            elif sub == 'drop':
                guarded('drop-fault', lambda: zc.drop_partitions(filters=lambda d: tuple(d[n] for n in spec.key_names) == universe[0]), min(fault, 6))
            elif sub == 'update':
                f = functools.partial(upd_func, spec=spec, token=calls.new(), targets=cand[:1], salt=1)
                guarded('update-fault', lambda: zc.update(f), min(fault, 8))
            elif sub == 'addvar':
                nadd += 1
                nv = gen.random_new_var(rng, f'add{nadd}', pick(rng, spec.part_vars).dims)
                if guarded('addvar-fault', lambda: zc.add_variable(nv.meta()), fault) is None:
                    spec.vars.append(nv)
            else:
                x = next((x for x in spec.vars if x.name.startswith('add')), None)
                if x is not None:
                    if guarded('dropvar-fault', lambda: zc.drop_variable(x.name), min(fault, 9)) is None:
                        spec.vars.remove(x)
                    else:
                        zc.drop_variable(x.name)
                        spec.vars.remove(x)
        elif step == 'validate':
            ps = list(zc.partitions())
            if ps:
                p = pick(rng, ps)
                with audit.unmonitored():
                    with open(f'{p}/.zmetadata', 'w') as f:
                        f.write('{')
                r = guarded('validate', lambda: zc.validate_partitions(fix=True, filters=None))
                if r is not None:
                    raise r
                ctx.check(not os.path.exists(p), 'validate: the unreadable partition was not removed')
        if step.startswith('view') or chance(rng, .15):
            if v[0] is None:
                def mk():
                    v[0] = zcollection.create_view(vplace.base, view.ViewReference(place.base, place.fs), filesystem=vplace.fs, synchronizer=vsync)
                r = guarded('create', mk, view_op=True)
                if r is not None:
                    raise r
            else:
                # the variables of the reference may have changed since
                v[0] = zcollection.open_view(vplace.base, filesystem=vplace.fs, synchronizer=vsync)
            if step == 'viewadd' or (step in ('viewupdate', 'viewfail', 'viewdrop') and not vvars):
                nv = gen.random_new_var(rng, f'vv{len(vvars)}{step}', pick(rng, [x for x in spec.part_vars if x.name in v[0].view_ref.metadata.variables]).dims,
                                        dtypes=['f8', 'i4'])
                r = guarded('add', lambda: v[0].add_variable(nv.meta()), view_op=True)
                if r is not None:
                    raise r
                vvars.append(nv)
            if step in ('viewupdate', 'viewfail'):
                # the view must be aligned with its reference before anything is loaded
                guarded('sync', lambda: v[0].sync(), view_op=True)
                var = pick(rng, vvars)
                f = functools.partial(view_func, token=calls.new(), fail_at=2 if step == 'viewfail' else None, spec=spec, var=var, salt=3)
                r = guarded('update', lambda: v[0].update(f), view_op=True)
                if r is not None and step == 'viewupdate':
                    raise r
            elif step == 'viewsync':
                with audit.unmonitored():
                    insert_rows = gen.rows_for(rng, spec, universe[1:4], nrows=(1, 3))
                guarded('insert-before-sync', lambda: zc.insert(gen.make_dataset(spec, insert_rows, False)))
                r = guarded('sync', lambda: v[0].sync(), view_op=True)
                if r is not None:
                    raise r
            elif step == 'viewdrop':
                var = vvars.pop()
                r = guarded('dropvar', lambda: v[0].drop_variable(var.name), view_op=True)
                if r is not None:
                    raise r
    ctx.sample({'steps': todo, 'acquisitions': recsync.state(sync.token)['enters'], 'view_acquisitions': recsync.state(vsync.token)['enters']})
    place.close()
    vplace.close()
