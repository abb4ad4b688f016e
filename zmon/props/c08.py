"""Fault enumeration: an I/O error at the k-th file mutation (or an exception from the j-th user call); old-or-new oracle, then a clean retry."""
import functools, os, shutil, time, warnings
import dask.array as da
import numpy as np, zarr
import zcollection
from .. import audit, calls, env, gen, tornfs, tree
from ..gen import chance, pick

CASES = {'quick': 48, 'thorough': 640}
LIMITS = {'case': 400, 'quick': 300, 'thorough': 3000}


class Boom(Exception):
    pass


def setup(ctx, shard):
    return env.make(shard)


def merge_func(existing, inserted, axis, dim, token=None, fail_at=None):
    n = calls.add(token, 1)
    if fail_at is not None and n == fail_at:
        raise Boom(f'merge call {n}')
    a, b = gen.raw(existing.variables[axis]), gen.raw(inserted.variables[axis])
    drop = [int(i) for i in np.flatnonzero(np.isin(a, b))]
    if len(drop) == len(a):
        return inserted
    return (existing.delete(drop, dim) if drop else existing).concat(inserted, dim)


def merged(spec, old, new):
    keep = [int(i) for i in np.flatnonzero(~np.isin(old[spec.axis], new[spec.axis]))]
    return spec.concat([spec.take(old, keep), new]) if keep else new


def upd_func(zds, spec=None, token=None, fail_at=None, targets=(), salt=0):
    n = calls.add(token, 1)
    if fail_at is not None and n == fail_at:
        raise Boom(f'update call {n}')
    ax = gen.raw(zds.variables[spec.axis])
    return {t: gen.result_array(spec.var(t), ax.shape[0], spec.sizes, spec.dim, [gen.ident(ax), salt]) for t in targets}


def failing_block(block, token=None, fail_at=None):
    if block.size == 0:
        return block
    n = calls.add(token, 1)
    if n == fail_at:
        raise Boom(f'block {n}')
    return block


def read_parts(ctx, what, spec, place):
    """{key: {name: array}} read with zarr only; every listed directory must be a complete group."""
    out = {}
    for p in gen.list_dirs(place.fs, place.base, spec.depth):
        try:
            rows = gen.zarr_rows(place.fs, f'{place.base}/{p}')
        except Exception as exc:
            ctx.check(False, f'{what}: partition {p} is unreadable: {type(exc).__name__} {exc}')
        if not rows and not any(os.scandir(f'{place.base}/{p}')):
            continue   # an empty directory is not a partition (parents of a partition that never came into existence)
        out[p] = {n: a for n, (a, d) in rows.items()}
        ctx.check(os.path.exists(f'{place.base}/{p}/.zmetadata'), f'{what}: partition {p} has no consolidated metadata')
    return out


def equal_rows(a, b):
    return a is not None and b is not None and set(a) == set(b) and all(gen.same(a[n], b[n]) for n in a)


def chunkwise(old, new, got, chunks):
    """Every chunk of got is a chunk of old or of new."""
    if got.shape != old.shape or got.shape != new.shape:
        return False
    grid = [range(0, s, c) for s, c in zip(got.shape, chunks)]
    import itertools
    for corner in itertools.product(*grid):
        sl = tuple(slice(o, o + c) for o, c in zip(corner, chunks))
        if not (gen.same(got[sl], old[sl]) or gen.same(got[sl], new[sl])):
            return False
    return True


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, .25), nvars=(1, 2), dtypes=['f8', 'i4', 'i8', 'f4'])
    place = gen.Place(ctx, rng, ('local', ))
    op = ['insert', 'overwrite', 'merge', 'update', 'drop', 'mixed', 'merge', 'overwrite'][ctx.case % 8]
    universe = gen.random_keys(rng, spec, 5)
    model = gen.Model(spec)
    zc = gen.create(spec, place)
    ctx.log('spec', spec.describe(), op)
    if op != 'insert':
        rows0 = gen.rows_for(rng, spec, universe[:3], nrows=(1, 4))
        zc.insert(gen.make_dataset(spec, rows0, False))
        model.insert(rows0)
    backup = ctx.fresh('backup')
    shutil.copytree(place.base, backup) if os.path.exists(place.base) else None
    old = {k: dict(v) for k, v in model.parts.items()}
    delayed = chance(rng, .5)
    targets, salt, rows, sel = (), 0, None, []
    if op in ('insert', 'overwrite', 'merge', 'mixed'):
        ks = {'insert': universe[:3], 'overwrite': universe[:2], 'merge': universe[:2], 'mixed': universe[1:4]}[op]
        rows = gen.rows_for(rng, spec, ks, nrows=(1, 4))
        if model.fixed:
            rows.update(model.fixed)
        parts = spec.split(rows)
        merging = op == 'merge' or (op == 'mixed' and chance(rng, .5))
        new = dict(old)
        for k, r in parts.items():
            new[k] = merged(spec, old[k], r) if merging and k in old else r
        touched = set(parts)
    elif op == 'update':
        cand = [v.name for v in spec.part_vars if v.name.startswith('var')]
        targets = [n for n in cand if chance(rng, .7)] or cand[:1]
        salt = int(rng.integers(2**31))
        new = {}
        for k, r in old.items():
            new[k] = dict(r)
            for t in targets:
                new[k][t] = gen.result_array(spec.var(t), spec.nrows(r), spec.sizes, spec.dim, [gen.ident(r[spec.axis]), salt])
        touched = set(old)
    else:
        sel = sorted(old)[:int(rng.integers(1, 4))]
        new = {k: v for k, v in old.items() if k not in sel}
        touched = set(sel)
    npart = None if chance(rng, .5) else int(rng.integers(1, 4))
    given = chance(rng, .6)

    def perform(zc, fail_at=None, lazy_at=None):
        token = calls.new()
        if op in ('insert', 'overwrite', 'merge', 'mixed'):
            ds = gen.make_dataset(spec, rows, delayed or lazy_at is not None, rng)
            if lazy_at is not None:
                name = lazy_at[0]
                v = ds.variables[name]
                ds.variables[name].array = v.array.map_blocks(functools.partial(failing_block, token=token, fail_at=lazy_at[1]), dtype=v.array.dtype,
                                                              meta=np.empty((0,) * v.array.ndim, v.array.dtype))
            mc = functools.partial(merge_func, token=token, fail_at=fail_at) if merging else None
            zc.insert(ds, merge_callable=mc, npartitions=npart)
        elif op == 'update':
            kw = {'variables': tuple(targets)} if given else {}
            zc.update(functools.partial(upd_func, spec=spec, token=token, fail_at=fail_at, targets=targets, salt=salt), delayed=delayed,
                      npartitions=npart, **kw)
        else:
            chosen = set(sel)
            zc.drop_partitions(filters=lambda d: tuple(d[n] for n in spec.key_names) in chosen)

    def restore(fs=None):
        shutil.rmtree(place.base, ignore_errors=True)
        shutil.copytree(backup, place.base)
        return zcollection.open_collection(place.base, mode='w', filesystem=fs or place.fs)

    # fault-free run: counts the mutations and validates the reference
    zc = restore()
    with audit.armed([place.base], events=[]) as s:
        perform(zc)
    total = s.n
    got = read_parts(ctx, 'fault-free run', spec, place)
    ctx.check(set(got) == {spec.path(k) for k in new}, 'fault-free run: partitions', got=sorted(got))
    for k, r in new.items():
        ctx.check(equal_rows(got[spec.path(k)], r), f'fault-free run: {spec.path(k)} differs')
    ctx.count('mutations_in_fault_free_runs', total)

    def judge(what, raised, fired, persist):
        got = read_parts(ctx, what, spec, place)
        known = {spec.path(k): k for k in set(old) | set(new)}
        ctx.check(set(got) <= set(known), f'{what}: unknown partitions appeared', got=sorted(set(got) - set(known)))
        if not raised:
            ctx.check(set(got) == {spec.path(k) for k in new} and all(equal_rows(got[spec.path(k)], new[k]) for k in new),
                      f'{what}: no error reached the caller but the result is incomplete', fired=fired)
            return got
        mixed = 0
        for p, k in known.items():
            g = got.get(p)
            if k not in touched:
                ctx.check(equal_rows(g, old[k]), f'{what}: {p} is not addressed by the operation but changed')
                continue
            if op == 'update':
                ctx.check(g is not None and set(g) == set(old[k]), f'{what}: {p} lost')
                for n in g:
                    if n in targets:
                        arr = zarr.open_array(f'{place.base}/{p}/{n}', mode='r')
                        ctx.check(chunkwise(old[k][n], new[k][n], g[n], arr.chunks), f'{what}: {p}/{n} holds neither old nor new chunks',
                                  got=g[n].tolist(), old=old[k][n].tolist(), new=new[k][n].tolist())
                    else:
                        ctx.check(gen.same(g[n], old[k][n]), f'{what}: {p}/{n} is not updated but changed')
                ctx.count('partitions_judged')
                continue
            is_old = equal_rows(g, old.get(k)) if k in old else g is None
            is_new = equal_rows(g, new.get(k)) if k in new else g is None
            if persist and g is None:
                is_old = True      # a storage that keeps failing may hide the partition until the retry
            ctx.check(is_old or is_new, f'{what}: {p} holds neither its previous nor its new content',
                      got=None if g is None else {n: a.tolist() for n, a in g.items()}, was_present=k in old)
            mixed += is_new
            ctx.count('partitions_judged')
        return got

    def observe(what, got):
        """The collection lists and loads exactly what is stored."""
        z = gen.reopen(place, 'w')
        paths = [spec.path(k) for k in sorted(set(old) | set(new)) if spec.path(k) in got]
        ctx.check(list(z.partitions(relative=True)) == paths, f'{what}: listing', got=list(z.partitions(relative=True)), expected=paths)
        zds = z.load(delayed=False)
        if not paths:
            ctx.check(zds is None, f'{what}: an empty collection loads something')
        else:
            for v in spec.part_vars:
                exp = np.concatenate([got[p][v.name] for p in paths], axis=v.dims.index(spec.dim))
                ctx.check(gen.same(gen.raw(zds.variables[v.name]), exp), f'{what}: load disagrees with the stored {v.name}')
        return z

    # the points to explore
    points = list(range(1, total + 1))
    nmax = 9 if ctx.tier == 'quick' else 40
    if len(points) > nmax:
        # always both ends, the rest spread at random
        head = points[:2] + points[-5:]
        rest = points[2:-5]
        points = sorted(set(head) | set(int(x) for x in rng.choice(rest, size=nmax - len(head), replace=False)))
    plans = [('io', k, False) for k in points] + [('io', int(rng.integers(1, total + 1)), True)]
    ncalls = len(touched) if op == 'update' else len(set(touched) & set(old))
    if op == 'update' or (op in ('merge', 'mixed') and merging):
        plans += [('call', j, False) for j in range(1, ncalls + 1)]
    if rows is not None:
        cand = [v.name for v in spec.part_vars if v.name.startswith('var')]
        plans += [('lazy', (pick(rng, cand), int(rng.integers(1, 4))), False)]
        # a write that stores only a part of its data (an in-place update is exempt: the chunk being written)
        zc = restore(tornfs.TornFS())
        with tornfs.armed() as s2:
            perform(zc)
        writes = s2['n']
        ctx.count('writes_in_fault_free_runs', writes)
        plans += [('torn', int(k), False) for k in sorted({int(rng.integers(1, writes + 1)) for _ in range(4 if ctx.tier == 'quick' else 16)} | {writes})]
    for mode, k, persist in plans:
        zc = restore(tornfs.TornFS() if mode == 'torn' else None)
        what = f'{op}, {mode} fault at {k}{" (persistent)" if persist else ""}'
        ctx.log(what, 'of', total)
        raised = None
        sleepy = chance(rng, .4)
        delay = (lambda n, o: time.sleep(0.002 * (n % 3))) if sleepy else None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with audit.armed([place.base], events=[], fault_at=k if mode == 'io' else None, fault_persist=persist, delay=delay) as s, \
                    tornfs.armed(k if mode == 'torn' else None):
                try:
                    perform(zc, fail_at=k if mode == 'call' else None, lazy_at=k if mode == 'lazy' else None)
                except Exception as exc:
                    raised = exc
                n_end = s.n
                time.sleep(0.05 if sleepy else 0.01)
                ctx.check(s.n == n_end, f'{what}: the operation returned but its tasks still modify files', late=[ev[2:] for ev in s.events[n_end:]][:5])
                fired = ('write', tornfs.STATE['fired']) if mode == 'torn' and tornfs.STATE['fired'] else s.fired_op
        what += f' {fired[0]} {os.path.relpath(fired[1], place.base)[-60:]}' if fired else ''
        if mode in ('io', 'torn') and fired:
            ctx.count('faults_fired' if mode == 'io' else 'torn_writes')
            ctx.sig(op, mode, fired[0], os.path.basename(fired[1]) if os.path.basename(fired[1]).startswith('.z') else
                    ('hidden' if os.path.relpath(fired[1], place.base).startswith('.') else 'partition'), persist, raised is not None, delayed)
            ctx.count('error_reported' if raised else 'fault_absorbed')
        if mode == 'call':
            ctx.count('user_faults')
            ctx.check(raised is not None, f'{what}: the exception of the user function was swallowed')
            ctx.sig(op, mode, k, delayed)
        if mode == 'lazy' and raised is not None:
            ctx.count('lazy_data_faults')
            ctx.sig(op, mode, delayed)
        got = judge(what, raised, fired, persist)
        z = observe(what, got)
        # retry without the fault (same session or a new one)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            perform(pick(rng, [zc, z]))
        final = read_parts(ctx, what + ', retried', spec, place)
        ctx.check(set(final) == {spec.path(kk) for kk in new}, f'{what}: partitions after the retry', got=sorted(final), expected=[spec.path(kk) for kk in new])
        for kk in new:
            ctx.check(equal_rows(final[spec.path(kk)], new[kk]), f'{what}: {spec.path(kk)} after the retry differs')
        observe(what + ', retried', final)
        if spec.fixed_vars and new:
            zds = gen.reopen(place, 'r').load(delayed=False)
            for v in spec.fixed_vars:
                exp = model.fixed[v.name] if model.fixed else rows[v.name]
                ctx.check(gen.same(gen.raw(zds.variables[v.name]), exp), f'{what}: non-partitioned {v.name} after the retry differs')
        ctx.count('retries')
        calls._logs.clear()
    ctx.sample({'op': op, 'mutations': total, 'points': [str(p[:2]) for p in plans][:12]})
