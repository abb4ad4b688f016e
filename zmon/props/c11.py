"""Several forked sessions (or threads of one session) share an interprocess lock; the recorded events are checked offline:
exclusion of the critical sections, truthfulness of is_locked, and existence of a sequential order explaining each partition."""
import functools, mmap, os, pickle, threading, time
import numpy as np
import zcollection
from zcollection import sync
from .. import audit, core, env, forkrun, gen
from ..gen import chance, pick
from .c08 import equal_rows, merge_func, merged

CASES = {'quick': 40, 'thorough': 480}
LIMITS = {'case': 400, 'quick': 400, 'thorough': 3000}


class Boom(Exception):
    pass


def inc_func(zds, var=None):
    return {var: gen.raw(zds.variables[var]) + 1}


def fail_func(zds, var=None):
    raise Boom('user function')


class Log:
    def __init__(self):
        self.items = []

    def add(self, kind, *rest):
        self.items.append((time.monotonic_ns(), kind, threading.get_ident(), *rest))


def instrument(log):
    enter, leave = sync.ProcessSync.__enter__, sync.ProcessSync.__exit__

    def __enter__(self):
        log.add('want')
        res = enter(self)
        log.add('got')
        return res

    def __exit__(self, *args):
        log.add('release')
        try:
            return leave(self, *args)
        finally:
            log.add('released')

    sync.ProcessSync.__enter__ = __enter__
    sync.ProcessSync.__exit__ = __exit__


def do_create(s, spec, place, rows):
    env.Env((1, 2))
    zc = gen.create(spec, place)
    if rows is not None:
        zc.insert(gen.make_dataset(spec, rows, False))


def barrier(shm, ix, n):
    shm[ix] = 1
    end = time.time() + 60
    while sum(shm[:n]) < n and time.time() < end:
        time.sleep(0.001)


def session(spec, place, lock, pickled, ops, seed, log, barrier_args):
    synchronizer = pickle.loads(pickled) if pickled is not None else sync.ProcessSync(lock)
    zc = gen.reopen(place, 'w', synchronizer)
    rng = np.random.default_rng(seed)
    barrier(*barrier_args)
    for op, keys, rows, delayed, npart in ops:
        chosen = set(keys)
        flt = lambda d: tuple(d[n] for n in spec.key_names) in chosen
        time.sleep(float(rng.random()) * 0.02)
        log.add('begin', op)
        try:
            if op in ('insert', 'merge'):
                zc.insert(gen.make_dataset(spec, rows, delayed, rng), npartitions=npart,
                          merge_callable=functools.partial(merge_func, token=0) if op == 'merge' else None)
            elif op == 'inc':
                zc.update(functools.partial(inc_func, var='var1'), filters=flt, variables=['var1'], npartitions=npart)
            elif op == 'drop':
                zc.drop_partitions(filters=flt)
            elif op == 'fail':
                try:
                    zc.update(functools.partial(fail_func, var='var1'), filters=flt, variables=['var1'])
                except Boom:
                    pass
        finally:
            log.add('end', op)


def child(s, spec, place, lock, pickled, opss, seed, shm, ix, n, slow):
    """One process running one session (or several in threads)."""
    env.Env((1, 2))
    os.chdir(place.base if ix % 2 else '/tmp')      # sessions do not share a working directory
    log = Log()
    instrument(log)
    s.probe = lambda k, op, path: log.add('mutation', op, os.path.relpath(path, place.base))
    delays = np.random.default_rng(seed)
    if slow:
        s.delay = lambda k, op: time.sleep(float(delays.random()) * slow)
    errors = []

    def body(i, ops):
        try:
            session(spec, place, lock, pickled, ops, seed + i, log, (shm, ix + i, n))
        except BaseException as exc:
            import traceback
            errors.append((type(exc).__name__, str(exc)[:500], traceback.format_exc()[-2500:]))

    ths = [threading.Thread(target=body, args=(i, ops)) for i, ops in enumerate(opss)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return log.items, errors


def poller(s, place, lock, shm, stop, n):
    zc = gen.reopen(place, 'r', sync.ProcessSync(lock))
    out = []
    while sum(shm[:n]) < n and not shm[stop]:
        time.sleep(0.001)
    while not shm[stop]:
        t0 = time.monotonic_ns()
        got = zc.is_locked()
        out.append((t0, bool(got), time.monotonic_ns()))
        time.sleep(0.002)
    return out


def apply(spec, state, op, rows):
    if op == 'insert':
        return rows
    if op == 'merge':
        return rows if state is None else merged(spec, state, rows)
    if op == 'inc':
        if state is None:
            return None
        out = dict(state)
        out['var1'] = state['var1'] + 1
        return out
    if op == 'drop':
        return None
    return state


def explain(spec, start, programs, final):
    """Is the final state of a partition that of some interleaving of the programs (lists of (op, rows, optional))?"""
    seen = set()
    n = 0

    def same_state(a, b):
        return (a is None and b is None) or equal_rows(a, b)

    def ident(state):
        return None if state is None else tuple(gen.ident(state[k]) for k in sorted(state))

    stack = [(start, tuple(0 for _ in programs))]
    while stack:
        state, pos = stack.pop()
        key = (ident(state), pos)
        if key in seen:
            continue
        seen.add(key)
        n += 1
        if all(p == len(pr) for p, pr in zip(pos, programs)):
            if same_state(state, final):
                return True, n
            continue
        for i, pr in enumerate(programs):
            if pos[i] < len(pr):
                op, rows, crashed = pr[pos[i]]
                nxt = pos[:i] + (pos[i] + 1, ) + pos[i + 1:]
                stack.append((apply(spec, state, op, rows), nxt))
                if crashed:
                    stack.append((state, nxt))
                    stack.append((None, nxt))
    return False, n


def run(ctx, e):
    rng = ctx.rng
    spec = gen.random_spec(rng, nvars=(1, 1), dtypes=['i8'], ndims=(1, ), fixed=chance(rng, .2))
    place = gen.Place(ctx, rng, ('local', ))
    lock = str(ctx.fresh('lock'))
    universe = gen.random_keys(rng, spec, 3)
    rows0 = gen.rows_for(rng, spec, universe[:2], nrows=(1, 3)) if chance(rng, .8) else None
    forkrun.expect(ctx, 'creation', forkrun.call(do_create, spec, place, rows0))
    start = spec.split(rows0) if rows0 is not None else {}
    fixed = {v.name: rows0[v.name] for v in spec.fixed_vars} if rows0 is not None else None
    nsess = int(rng.integers(2, 5))
    threads = ctx.case % 4 == 3
    crash = (not threads) and ctx.case % 5 == 2
    slow = pick(rng, [0, 0.002, 0.006])
    ctx.log('spec', spec.describe(), 'sessions', nsess, 'threads', threads, 'crash', crash, 'slow', slow)
    progs = []
    for i in range(nsess):
        ops = []
        for j in range(int(rng.integers(2, 5))):
            op = pick(rng, ['insert', 'merge', 'merge', 'inc', 'inc', 'drop', 'fail'])
            keys = sorted(k for k in universe if chance(rng, .7)) or [universe[0]]
            rows = None
            if op in ('insert', 'merge'):
                rows = gen.rows_for(rng, spec, keys, nrows=(1, 3))
                if fixed:
                    rows.update(fixed)
            ops.append((op, keys, rows, chance(rng, .5), pick(rng, [None, 1, 2])))
            ctx.log('session', i, op, [spec.path(k) for k in keys])
        progs.append(ops)
    if crash:
        # the last operation of the first session is an insertion during which it dies
        keys = universe[:2]
        rows = gen.rows_for(rng, spec, keys, nrows=(1, 3))
        rows.update(fixed or {})
        progs[0] = [('insert', keys, rows, False, None)]
    shm = mmap.mmap(-1, 64)
    seed = int(rng.integers(1 << 30))
    kids = []
    want = sum(len(p) for p in progs)
    pickled = [pickle.dumps(sync.ProcessSync(lock)) if chance(rng, .4) else None for _ in progs]
    roots = [place.base]
    stop = 63
    pol = forkrun.Child(poller, place, lock, shm, stop, nsess)
    try:
        if threads:
            kids.append(forkrun.Child(child, spec, place, lock, None, progs, seed, shm, 0, nsess, slow, roots=roots))
        else:
            for i, ops in enumerate(progs):
                kw = {}
                if crash and i == 0:
                    kw['crash_at'] = int(rng.integers(1, 60))
                kids.append(forkrun.Child(child, spec, place, lock, pickled[i], [ops], seed + 100 * i, shm, i, nsess, slow, roots=roots, **kw))
        results = []
        for i, k in enumerate(kids):
            results.append(k.wait(timeout=150))
    except TimeoutError:
        raise core.Violation('the sessions never finished')
    finally:
        for k in kids:
            k.kill()
        shm[stop] = 1
        polls = forkrun.expect(ctx, 'poller', pol.wait(timeout=60))
    logs = []
    for i, r in enumerate(results):
        if crash and i == 0:
            if r[0] == 'died':
                ctx.count('crashed_sessions')
                logs.append(None)
                continue
            crash_done = True
        items, errors = forkrun.expect(ctx, f'session {i}', r)
        if errors and errors[0][0] in ('MemoryError', 'CommClosedError'):
            raise core.Inconclusive(errors[0][1])
        ctx.check(not errors, f'session {i}: an operation failed because of the others: {errors[0][:2] if errors else ""}', errors=errors)
        logs.append(items)
    # -- exclusion: critical sections and mutations
    sections = []   # (got, release, proc, thread)
    outer = []      # (want, released)
    muts = []
    for p, items in enumerate(logs):
        if items is None:
            continue
        cur = {}
        for t, kind, tid, *rest in items:
            if kind in ('want', 'got', 'release', 'released'):
                c = cur.setdefault(tid, {})
                if kind == 'want':
                    ctx.check('want' not in c, 'a session acquired the lock again while holding it')
                c[kind] = t
                if kind == 'released':
                    sections.append((c['got'], c['release'], p, tid))
                    outer.append((c['want'], t))
                    cur[tid] = {}
            elif kind == 'mutation':
                if not rest[1].startswith('.zcollection'):
                    muts.append((t, p, tid, rest))
        ctx.check(not any(cur.values()), 'the lock was not released', state=cur)
    sections.sort()
    for a, b in zip(sections, sections[1:]):
        ctx.check(a[1] <= b[0], 'two sessions held the lock at the same time', a=a, b=b)
    ctx.count('critical_sections', len(sections))
    switches = sum(1 for a, b in zip(sections, sections[1:]) if a[2:] != b[2:])
    ctx.count('lock_handovers', switches)
    for t, p, tid, rest in muts:
        own = None
        for g, r, q, th in sections:
            if g <= t <= r:
                own = q
                break
        if own is not None:
            ctx.check(own == p, 'a session modified data while another one held the lock', mutation=rest)
        elif not any(i is None for i in logs):
            ctx.check(False, 'data modified while nobody held the lock', mutation=rest)
    ctx.count('mutations_observed', len(muts))
    # -- is_locked
    for t0, got, t1 in polls:
        if got:
            ok = any(w <= t1 and r >= t0 for w, r in outer) or any(i is None for i in logs)
            ctx.check(ok, 'the collection reports itself locked while no session holds the lock')
            ctx.count('polled_locked')
        else:
            bad = [s for s in sections if s[0] <= t0 and t1 <= s[1]]
            ctx.check(not bad, 'the collection reports itself unlocked while a session holds the lock', section=bad[:1])
            ctx.count('polled_unlocked')
    # -- final content
    final = {}
    for p in gen.list_dirs(place.fs, place.base, spec.depth):
        rows = gen.zarr_rows(place.fs, f'{place.base}/{p}')
        if not rows and not os.listdir(f'{place.base}/{p}'):
            continue
        final[p] = {n: a for n, (a, d) in rows.items()}
    ctx.check(set(final) <= {spec.path(k) for k in universe}, 'unknown partitions', got=sorted(final))
    for k in universe:
        programs = []
        for i, ops in enumerate(progs):
            pr = []
            for op, keys, rows, *_ in ops:
                if k in keys:
                    pr.append((op, spec.split(rows)[k] if rows is not None else None, bool(crash and i == 0 and logs[0] is None)))
            programs.append(pr)
        ok, n = explain(spec, start.get(k), programs, final.get(spec.path(k)))
        ctx.count('orders_examined', n)
        got = final.get(spec.path(k))
        ctx.check(ok, f'{spec.path(k)}: no sequential order of the operations explains the final content',
                  got=None if got is None else {n: a.tolist() for n, a in got.items()},
                  programs=[[(o, None if r is None else r['var1'].tolist()) for o, r, _ in pr] for pr in programs])
        ctx.count('partitions_explained')
    ctx.count('sessions', nsess)
    ctx.count('threaded' if threads else 'forked')
    ctx.sig(tuple((s[2], s[3] % 97) if threads else s[2] for s in sections))
    ctx.sample({'sessions': nsess, 'threads': threads, 'order_of_critical_sections': [s[2] for s in sections][:40], 'mutations': len(muts), 'polls': len(polls)})
