"""Fault enumeration on schema changes and on views: an I/O error at the k-th file mutation (or an exception of the user function), then a clean retry."""
import functools, os, shutil, time, warnings
import numpy as np, zarr
import zcollection
from zcollection import view
from .. import audit, calls, env, gen, tornfs, tree
from ..gen import chance, pick
from .c08 import Boom, chunkwise
from .c13 import ViewModel, upd

OPS = ['add', 'drop', 'view-add', 'view-drop', 'view-update', 'view-sync', 'view-sync', 'view-add']
CASES = {'quick': 48, 'thorough': 640}
LIMITS = {'case': 400, 'quick': 300, 'thorough': 3000}


def setup(ctx, shard):
    return env.make(shard)


def failing(zds, token=None, fail_at=None, fn=None):
    if calls.add(token, 1) == fail_at:
        raise Boom('user function')
    return fn(zds)


def run(ctx, e):
    rng = ctx.rng
    op = OPS[ctx.case % len(OPS)]
    on_view = op.startswith('view')
    spec = gen.random_spec(rng, fixed=chance(rng, .25), nvars=(2, 3), dtypes=['f8', 'i4', 'i8', 'f4'], resolutions=('Y', 'M', 'D', 'h'))
    place, vplace = gen.Place(ctx, rng, ('local', )), gen.Place(ctx, rng, ('local', ))
    zc, model = gen.create(spec, place), gen.Model(spec)
    universe = gen.random_keys(rng, spec, 5)
    rows = gen.rows_for(rng, spec, universe[:3], nrows=(2, 5))
    zc.insert(gen.make_dataset(spec, rows, False))
    model.insert(rows)
    vm = None
    if on_view:
        v = zcollection.create_view(vplace.base, view.ViewReference(place.base, place.fs), filesystem=vplace.fs)
        vm = ViewModel(spec, model, model.keys())
        for i in range(int(rng.integers(1, 3)) + (op == 'view-drop')):
            nv = gen.random_new_var(rng, f'view{i}', pick(rng, spec.part_vars).dims)
            v.add_variable(nv.meta())
            vm.add(nv)
        salt0 = int(rng.integers(2**31))
        v.update(functools.partial(upd, token=calls.new(), spec=spec, targets=vm.vars, salt=salt0))
        for k in vm.keys():
            ax = model.parts[k][spec.axis]
            for t in vm.vars:
                vm.vals[k, t.name] = gen.result_array(t, len(ax), spec.sizes, spec.dim, [gen.ident(ax), salt0])
    stale = {}
    if op == 'view-sync':
        for k in model.keys():
            cur = model.parts[k]
            why = pick(rng, ['extend', 'extend', 'reset', 'same'])
            if why == 'same':
                continue
            extra = gen.rows_for(rng, spec, [k], nrows=(1, 3))
            if why == 'extend':
                r = spec.concat([cur, extra])
            else:
                r = spec.concat([extra, cur])
            for x in spec.fixed_vars:
                r[x.name] = model.fixed[x.name]
            stale[k] = why
            zc.insert(gen.make_dataset(spec, r, False))
            model.insert(r)
        if chance(rng, .6) or not stale:
            r = gen.rows_for(rng, spec, [universe[3]], nrows=(1, 4))
            for x in spec.fixed_vars:
                r[x.name] = model.fixed[x.name]
            zc.insert(gen.make_dataset(spec, r, False))
            model.insert(r)
            stale[universe[3]] = 'new'
    target = vplace.base if on_view else place.base
    backup = ctx.fresh('backup')
    shutil.copytree(target, backup)
    ref0 = tree.snap(place.base, place.fs)
    before = tree.snap(target, place.fs)
    new_var = gen.random_new_var(rng, 'extra', pick(rng, spec.part_vars).dims)
    cand = vm.vars if on_view else [x for x in spec.part_vars if x.name.lower().startswith(('var', '_var')) or x.name.endswith('-hz')]
    victim = pick(rng, cand)
    targets = [t for t in (vm.vars if on_view else []) if chance(rng, .7)] or (vm.vars[:1] if on_view else [])
    salt = int(rng.integers(2**31))
    given = chance(rng, .5)
    ctx.log('spec', spec.describe(), op, {spec.path(k): w for k, w in stale.items()}, 'victim', victim.name)

    def session(fs=None):
        if on_view:
            return zcollection.open_view(vplace.base, filesystem=fs or vplace.fs)
        return zcollection.open_collection(place.base, mode='w', filesystem=fs or place.fs)

    def restore(fs=None):
        shutil.rmtree(target)
        shutil.copytree(backup, target)
        return session(fs)

    def perform(z, fail_at=None):
        if op.endswith('add'):
            z.add_variable(new_var.meta())
        elif op.endswith('drop'):
            z.drop_variable(victim.name)
        elif op == 'view-update':
            fn = functools.partial(upd, token=calls.new(), spec=spec, targets=targets, salt=salt)
            z.update(functools.partial(failing, token=calls.new(), fail_at=fail_at, fn=fn))
        else:
            z.sync()

    def names(z):
        return set(z.metadata.variables)

    old_names = names(session())
    gone = {victim.name} if op.endswith('drop') else set()
    new_names = (old_names - gone) | ({new_var.name} if op.endswith('add') else set())

    def expected(kind):
        """{path: {name: values}} of the old or the new state (variables of the target only)."""
        out = {}
        for k in model.keys():
            if on_view:
                if kind == 'old' and stale.get(k):
                    continue
                r = {}
                for x in vm.vars:
                    if kind == 'new' and x.name in gone:
                        continue
                    n = spec.nrows(model.parts[k])
                    if kind == 'new' and stale.get(k):
                        val = gen.full(spec, x, n)
                        if stale[k] == 'extend':
                            was = vm.vals[k, x.name]
                            val[tuple(slice(0, was.shape[i]) for i in range(was.ndim))] = was
                    elif kind == 'new' and x in targets and op == 'view-update':
                        ax = model.parts[k][spec.axis]
                        val = gen.result_array(x, len(ax), spec.sizes, spec.dim, [gen.ident(ax), salt])
                    else:
                        val = vm.vals[k, x.name]
                    r[x.name] = val
            else:
                r = {n: a for n, a in model.parts[k].items() if n not in spec_fixed and not (kind == 'new' and n in gone)}
            if kind == 'new' and op.endswith('add'):
                r[new_var.name] = gen.full(spec, new_var, spec.nrows(model.parts[k]))
            out[spec.path(k)] = r
        return out

    spec_fixed = {x.name for x in spec.fixed_vars}
    want_old, want_new = expected('old'), expected('new')
    fresh = want_new
    extended = {spec.path(k) for k, why in stale.items() if why == 'extend'}
    blank = {spec.path(k): {x.name: gen.full(spec, x, spec.nrows(model.parts[k])) for x in vm.vars} for k in stale}

    def stored(what, paths, only=None):
        """Arrays as zarr reads them, per partition."""
        out = {}
        for p in paths:
            out[p] = {}
            for n in sorted(os.listdir(f'{target}/{p}')) if os.path.isdir(f'{target}/{p}') else []:
                if n.startswith('.') or (only is not None and n not in only):
                    continue
                try:
                    out[p][n] = zarr.open_array(f'{target}/{p}/{n}', mode='r')[...]
                except Exception as exc:
                    ctx.check(False, f'{what}: {p}/{n} is unreadable: {type(exc).__name__} {exc}')
        return out

    def same_state(got, want):
        return all(set(got[p]) == set(want[p]) and all(gen.same(got[p][n], want[p][n]) for n in want[p]) for p in want)

    def loads(what, z, nm, want, selected=None):
        """The session (or a new one) loads the state described."""
        ctx.check(names(z) == nm, f'{what}: variables of the session', got=sorted(names(z)), expected=sorted(nm))
        if on_view and not nm:
            return
        zds = z.load(delayed=chance(rng, .5), selected_variables=selected)
        ctx.check(zds is not None, f'{what}: nothing is loaded')
        paths = sorted(want, key=lambda p: [spec.path(k) for k in model.keys()].index(p))
        for n in sorted(set().union(*(want[p] for p in paths))):
            x = new_var if n == new_var.name else next(q for q in (vm.vars if on_view else spec.vars) if q.name == n)
            ctx.check(n in zds.variables, f'{what}: {n} is not loaded', got=sorted(zds.variables))
            exp = np.concatenate([want[p][n] for p in paths], axis=x.dims.index(spec.dim))
            ctx.check(gen.same(gen.raw(zds.variables[n]), exp), f'{what}: loaded values of {n}', got=gen.raw(zds.variables[n]), expected=exp)
        extra = set(zds.variables) - set().union(*(want[p] for p in paths)) - (set(v.name for v in spec.vars) if on_view else spec_fixed)
        ctx.check(not extra, f'{what}: variables that should not be there are loaded', got=sorted(extra))
        ctx.count('loads')

    def complete(what, z, reset=False):
        want_new = {p: dict(r) for p, r in fresh.items()}
        got = stored(what, want_new)
        for p in want_new:
            ctx.check(set(got[p]) == set(want_new[p]), f'{what}: variables stored in {p}', got=sorted(got[p]), expected=sorted(want_new[p]))
            for n in want_new[p]:
                if reset and p in extended and gen.same(got[p][n], blank[p][n]):
                    # the synchronization of this partition failed: it is then made anew
                    want_new[p][n] = got[p][n]
                    ctx.count('reset_after_failure')
                ctx.check(gen.same(got[p][n], want_new[p][n]), f'{what}: {p}/{n}', got=got[p][n], expected=want_new[p][n])
        for s, label in ((z, 'same session'), (session(), 'new session')):
            loads(f'{what} ({label})', s, new_names, want_new)
            if on_view:
                ctx.check(s.is_synced(), f'{what} ({label}): not in sync')

    # -- fault free
    z = restore()
    with audit.armed([target], events=[]) as s:
        perform(z)
    total = s.n
    complete('fault-free run', z)
    z = restore(tornfs.TornFS())
    with tornfs.armed() as s2:
        perform(z)
    writes = s2['n']
    complete('fault-free run, file system that counts', z)
    ctx.count('writes_in_fault_free_runs', writes)
    ctx.count('mutations_in_fault_free_runs', total)
    points = list(range(1, total + 1))
    nmax = 8 if ctx.tier == 'quick' else 40
    if len(points) > nmax:
        head = points[:2] + points[-3:]
        points = sorted(set(head) | set(int(x) for x in rng.choice(points[2:-3], size=nmax - len(head), replace=False)))
    plans = [('io', k) for k in points]
    if not op.endswith('add'):      # from the k-th mutation on everything fails: what a process killed there leaves
        plans += [('all', int(rng.integers(1, total + 1))) for _ in range(3 if ctx.tier == 'quick' else 12)]
    if op != 'view-update' and writes:
        # (an update rewrites its chunks in place)
        ks = list(range(1, writes + 1))
        plans += [('torn', k) for k in (ks if len(ks) < 6 or ctx.tier != 'quick' else sorted({1, 2, writes} | {int(rng.integers(1, writes + 1)) for _ in range(3)}))]
    if op == 'view-update':
        plans += [('call', j) for j in range(1, len(want_new) + 1)]
    for mode, k in plans:
        z = restore(tornfs.TornFS() if mode == 'torn' else None)
        what = f'{op}, {mode} fault at {k}'
        raised = None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with audit.armed([target], events=[], fault_at=k if mode in ('io', 'all') else None, fault_persist=mode == 'all') as s, \
                    tornfs.armed(k if mode == 'torn' else None):
                try:
                    perform(z, fail_at=k if mode == 'call' else None)
                except Exception as exc:
                    raised = exc
                n_end = s.n
                time.sleep(0.02)
                ctx.check(s.n == n_end, f'{what}: the operation returned but its tasks still modify files', late=[ev[2:] for ev in s.events[n_end:]][:5])
                fired = ('write', tornfs.STATE['fired']) if mode == 'torn' and tornfs.STATE['fired'] else s.fired_op
        what += f' {fired[0]} {os.path.relpath(fired[1], target)[-60:]}' if fired else ''
        ctx.log(what, 'of', total, 'raised', type(raised).__name__)
        ctx.count('faults_fired', int(bool(fired)))
        ctx.count('user_faults', int(mode == 'call'))
        ctx.count('torn_writes', int(mode == 'torn' and bool(fired)))
        ctx.count('lasting_faults', int(mode == 'all'))
        ctx.sig(op, mode, fired[0] if fired else '', os.path.basename(fired[1])[:8] if fired else '', raised is not None)
        if on_view:
            ctx.check(tree.snap(place.base, place.fs) == ref0, f'{what}: the reference was modified')
        if mode == 'call':
            ctx.check(raised is not None, f'{what}: the exception of the user function was swallowed')
        if raised is None:
            ctx.count('fault_absorbed')
            complete(what + ' (absorbed)', z)
            continue
        ctx.count('error_reported')
        if op.endswith('add'):
            after = tree.snap(target, place.fs)
            ctx.check(before == after, f'{what}: a failed addition left something', diff=tree.diff(before, after))
            for q, label in ((z, 'same session'), (session(), 'new session')):
                loads(f'{what} ({label})', q, old_names, want_old)
        elif op == 'drop' and mode == 'torn' and fired[1].endswith('.zmetadata'):
            ctx.count('torn_group_metadata')    # rewritten where it is: readable again once the removal is repeated
        elif op.endswith('drop'):
            for q, label in ((z, 'same session'), (session(), 'new session')):
                nm = names(q)
                ctx.check(nm in (old_names, new_names), f'{what} ({label}): variables', got=sorted(nm))
                if nm == new_names:
                    loads(f'{what} ({label})', q, nm, want_new)
                else:       # not done: the variable may be missing from some partitions, the others are all there
                    loads(f'{what} ({label})', q, nm, want_new, sorted(new_names - spec_fixed))
        elif op == 'view-update':
            got = stored(what, want_old)
            for p in want_old:
                ctx.check(set(got[p]) == set(want_old[p]), f'{what}: variables stored in {p}', got=sorted(got[p]))
                for n, a in want_old[p].items():
                    if n in [t.name for t in targets]:
                        arr = zarr.open_array(f'{target}/{p}/{n}', mode='r')
                        ctx.check(chunkwise(a, want_new[p][n], got[p][n], arr.chunks), f'{what}: {p}/{n} holds neither old nor new chunks')
                    else:
                        ctx.check(gen.same(got[p][n], a), f'{what}: {p}/{n} changed')
            session().load(delayed=False)
        else:
            got = stored(what, want_old)
            ctx.check(same_state(got, want_old), f'{what}: a partition that was in sync changed')
            for q in (z, session()):
                list(q.partitions())
        # -- retry
        q = pick(rng, [z, session()])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if op.endswith('drop') and victim.name not in names(q):
                ctx.count('drop_effective')
                # as far as the metadata is concerned it is done: adding it back must not bring the former values back
                nv = gen.random_new_var(rng, victim.name, pick(rng, [x for x in spec.part_vars if x is not victim]).dims)
                q.add_variable(nv.meta())
                got = stored(what + ', added back', want_new)
                for p, rr in want_new.items():
                    n = spec.nrows(next(model.parts[kk] for kk in model.keys() if spec.path(kk) == p))
                    ctx.check(victim.name in got[p] and gen.same(got[p][victim.name], gen.full(spec, nv, n)), f'{what}, added back: {p}/{victim.name}', got=got[p].get(victim.name))
                q.drop_variable(victim.name)
            else:
                perform(q)
        complete(what + ', retried', q, reset=True)
        ctx.count('retries')
        calls._logs.clear()
    ctx.sample({'op': op, 'mutations': total, 'points': [str(p) for p in plans][:12]})
