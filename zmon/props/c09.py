"""Crash enumeration: a forked session dies at the k-th file mutation of an insertion (or is killed at a random time); the tree it leaves is judged,
reopened by another session and completed."""
import functools, os, shutil
import numpy as np
from .. import audit, calls, core, env, forkrun, gen, tree
from ..gen import chance, pick
from .c08 import equal_rows, merge_func, merged

CASES = {'quick': 16, 'thorough': 480}
LIMITS = {'case': 400, 'quick': 300, 'thorough': 3000}


def client():
    return env.Env((1, 2))


def do_insert(s, spec, place, rows, delayed, merging, npart, seed):
    client()
    s.n = 0            # count only the mutations of the insertion
    zc = gen.reopen(place, 'w')
    ds = gen.make_dataset(spec, rows, delayed, np.random.default_rng(seed))
    zc.insert(ds, merge_callable=functools.partial(merge_func, token=0) if merging else None, npartitions=npart)
    return s.n


def do_create(s, spec, place, rows):
    client()
    zc = gen.create(spec, place)
    if rows is not None:
        zc.insert(gen.make_dataset(spec, rows, False))


def look(s, spec, place):
    """What a new session sees: (paths, {name: array} of the whole load)."""
    client()
    zc = gen.reopen(place, 'w')
    paths = list(zc.partitions(relative=True))
    zds = zc.load(delayed=False)
    data = None if zds is None else {n: gen.raw(v) for n, v in zds.variables.items()}
    mapped = [dict(k) for k, _ in zc.map(lambda z: len(z.variables)).compute()] if paths else []
    return paths, data, mapped


def follow_up(s, spec, place, rows, delayed, merging, npart, seed, action, keys):
    """What the user does after the crash, then what the session sees."""
    client()
    zc = gen.reopen(place, 'w')
    if action == 'drop':
        chosen = set(keys)
        zc.drop_partitions(filters=lambda d: tuple(d[n] for n in spec.key_names) in chosen)
        still = list(zc.partitions(relative=True))
        if any(spec.path(k) in still for k in keys):
            raise core.Violation('dropped partitions are still listed', got=still)
    zc.insert(gen.make_dataset(spec, rows, delayed, np.random.default_rng(seed)),
              merge_callable=functools.partial(merge_func, token=0) if merging else None, npartitions=npart)
    return look(s, spec, place)


def stored(ctx, what, spec, place):
    out = {}
    for p in gen.list_dirs(place.fs, place.base, spec.depth):
        full = f'{place.base}/{p}'
        if not os.listdir(full):
            continue
        try:
            out[p] = {n: a for n, (a, d) in gen.zarr_rows(place.fs, full).items()}
        except Exception as exc:
            ctx.check(False, f'{what}: {p} is unreadable ({type(exc).__name__}: {exc})')
    return out


def check_view(ctx, what, spec, seen, parts, fixed):
    paths, data, mapped = seen
    keys = sorted(parts)
    ctx.check(paths == [spec.path(k) for k in keys], f'{what}: listing', got=paths, expected=[spec.path(k) for k in keys])
    ctx.check(mapped == [dict(zip(spec.key_names, k)) for k in keys], f'{what}: map', got=mapped)
    if not keys:
        ctx.check(data is None, f'{what}: data loaded from an empty collection')
        return
    exp = spec.concat(parts[k] for k in keys)
    exp.update(fixed or {})
    ctx.check(set(data) == set(exp), f'{what}: variables', got=sorted(data), expected=sorted(exp))
    for n in exp:
        ctx.check(gen.same(data[n], exp[n]), f'{what}: {n} differs', got=data[n].tolist()[:20], expected=exp[n].tolist()[:20])
        ctx.count('arrays_compared')


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, fixed=chance(rng, .3), nvars=(1, 1), dtypes=['f8', 'i4', 'i8'])
    place = gen.Place(ctx, rng, ('local', ))
    op = ['insert', 'overwrite', 'merge', 'mixed'][ctx.case % 4]
    universe = gen.random_keys(rng, spec, 4)
    fixed = None
    old = {}
    rows0 = None
    if op != 'insert':
        rows0 = gen.rows_for(rng, spec, universe[:3], nrows=(1, 4))
        old = spec.split(rows0)
        fixed = {v.name: rows0[v.name] for v in spec.fixed_vars}
    forkrun.expect(ctx, 'creation', forkrun.call(do_create, spec, place, rows0))
    ks = {'insert': universe[:2], 'overwrite': universe[:2], 'merge': universe[:2], 'mixed': universe[2:4]}[op]
    rows = gen.rows_for(rng, spec, ks, nrows=(1, 4))
    if fixed is not None:
        rows.update(fixed)
    else:
        fixed = {v.name: rows[v.name] for v in spec.fixed_vars}
    merging = op == 'merge' or (op == 'mixed' and chance(rng, .5))
    parts = spec.split(rows)
    new = dict(old)
    for k, r in parts.items():
        new[k] = merged(spec, old[k], r) if merging and k in old else r
    touched = set(parts)
    delayed, npart, seed = chance(rng, .5), (None if chance(rng, .6) else 2), int(rng.integers(2**31))
    args = (spec, place, rows, delayed, merging, npart, seed)
    backup = ctx.fresh('backup')
    shutil.copytree(place.base, backup)
    ctx.log('spec', spec.describe(), op, 'merging', merging, 'delayed', delayed)
    before = place.snap()

    def restore():
        shutil.rmtree(place.base)
        shutil.copytree(backup, place.base)

    import time
    t0 = time.time()
    total = forkrun.expect(ctx, 'fault-free insertion', forkrun.call(do_insert, *args, roots=[place.base]))
    span = time.time() - t0
    got = stored(ctx, 'fault-free insertion', spec, place)
    ctx.check(set(got) == {spec.path(k) for k in new} and all(equal_rows(got[spec.path(k)], new[k]) for k in new), 'fault-free insertion: content')
    ctx.count('mutations_in_fault_free_runs', total)
    # where to crash: around the renames (end of each partition) and spread elsewhere
    npoints = 7 if ctx.tier == 'quick' else 30
    points = sorted({1, total, max(1, total - 1), max(1, total - 3), *(int(x) for x in rng.integers(1, total + 1, size=npoints))})
    # the mutations that matter most: renames
    events = []

    def listing(s, *a):
        s.events = []
        do_insert(s, *a)
        return [(n, o, p) for n, _, o, p in s.events]
    restore()
    evs = forkrun.expect(ctx, 'recorded insertion', forkrun.call(listing, *args, roots=[place.base]))
    renames = [i + 1 for i, (n, o, p) in enumerate(evs) if o == 'rename' and not p.endswith('.zmetadata') and '/.z' not in p]
    for r in renames[:6]:
        points += [r, min(total, r + 1)]
    points = sorted(set(points))
    plans = [('crash', k) for k in points] + [('kill', float(rng.random())) for _ in range(2 if ctx.tier == 'quick' else 8)]
    for mode, k in plans:
        restore()
        what = f'{op} crashed at mutation {k}/{total}' if mode == 'crash' else f'{op} killed after {k * span:.3f}s'
        if mode == 'crash':
            res = forkrun.call(do_insert, *args, roots=[place.base], crash_at=k)
        else:
            res = forkrun.call(do_insert, *args, roots=[place.base], kill_after=k * span)
        if res[0] not in ('died', 'ok'):
            forkrun.expect(ctx, what, res)
        crashed = res[0] == 'died'
        ctx.count('crashes' if crashed else 'survived')
        # 1. the tree left behind
        after = place.snap()
        keep = lambda t: {p: d for p, d in t.items() if d is not None and not any(p.startswith(spec.path(q) + '/') for q in touched)
                          and not p.split('/')[0].startswith('.')}
        a, b = keep(before), keep(after)
        ctx.check(a == b, f'{what}: files outside the addressed partitions changed', **tree.diff(a, b))
        ctx.check(after.get('.zcollection') == before.get('.zcollection'), f'{what}: configuration changed')
        got = stored(ctx, what, spec, place)
        known = {spec.path(q): q for q in set(old) | set(new)}
        ctx.check(set(got) <= set(known), f'{what}: leftovers appear as partitions', got=sorted(set(got) - set(known)))
        state = {}
        outcome = []
        for p, q in known.items():
            g = got.get(p)
            if q not in touched:
                ctx.check(equal_rows(g, old[q]), f'{what}: {p} was not addressed but changed')
                state[q] = g
                continue
            is_new, is_old = equal_rows(g, new[q]), q in old and equal_rows(g, old[q])
            ctx.check(g is None or is_new or is_old, f'{what}: {p} is neither absent, old nor new', got={n: v.tolist() for n, v in g.items()} if g else None)
            outcome.append('absent' if g is None else 'new' if is_new else 'old')
            if g is not None:
                state[q] = g
            ctx.count('addressed_partitions_judged')
        for o in outcome:
            ctx.count(f'left_{o}')
        cls = 'kill' if mode == 'kill' else (evs[k - 1][1] if k <= len(evs) else 'end')
        ctx.sig(op, merging, cls, tuple(sorted(set(outcome))), delayed)
        # 2. a new session reads it
        seen = forkrun.expect(ctx, f'{what}: reopening', forkrun.call(look, spec, place))
        check_view(ctx, f'{what}, reopened', spec, seen, state, fixed)
        # 3. a second crash while repeating, sometimes
        if chance(rng, .2):
            res = forkrun.call(do_insert, *args, roots=[place.base], crash_at=int(rng.integers(1, total + 1)))
            if res[0] not in ('died', 'ok'):
                forkrun.expect(ctx, f'{what}, second attempt', res)
            ctx.count('double_crashes')
            seen = forkrun.expect(ctx, f'{what}: reopening after the second crash', forkrun.call(look, spec, place))
            state = {q: g for p, g in stored(ctx, what, spec, place).items() for q in [known.get(p)]}
            ctx.check(None not in state, f'{what}: leftovers appear as partitions after the second crash')
            check_view(ctx, f'{what}, crashed twice', spec, seen, state, fixed)
        # 4. the insertion is repeated (or the partitions are dropped first)
        action = 'drop' if chance(rng, .25) else 'retry'
        seen = forkrun.expect(ctx, f'{what}, then {action}', forkrun.call(follow_up, *args, action, sorted(touched)))
        if action == 'retry':
            final = new
        else:
            ctx.count('dropped_after_crash')
            final = dict(new)
            for q in touched:
                if q in state:      # really dropped: nothing of the previous content may come back
                    final[q] = parts[q]
                elif merging and q in old:
                    # absent for the user, yet its previous content is still recoverable: both are complete
                    gotq = stored(ctx, what, spec, place).get(spec.path(q))
                    final[q] = parts[q] if equal_rows(gotq, parts[q]) else new[q]
        ctx.log(what, 'left', outcome, action)
        check_view(ctx, f'{what}, then {action}', spec, seen, final, fixed)
        got = stored(ctx, what, spec, place)
        for q in final:
            ctx.check(equal_rows(got.get(spec.path(q)), final[q]), f'{what}, then {action}: {spec.path(q)} differs')
        ctx.count('completed')
    ctx.sample({'op': op, 'mutations': total, 'points': points[:12], 'renames': renames})
