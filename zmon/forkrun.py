"""Run a function in a forked child (own dask cluster, own crash), result through a pipe.

The parent must not have started a dask cluster.
"""
from __future__ import annotations
import os, pickle, select, signal, sys, time, traceback
from . import audit, core


class Died(Exception):
    pass


class Child:
    """A running child; wait() gives ('ok', value, mutations) | ('violation', ..) | ('error', exc type, text, trace) | ('died', status)"""

    def __init__(self, fn, *args, **audit_kw):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.setsid()
                try:
                    roots = audit_kw.pop('roots', ())
                    with audit.armed(roots, **audit_kw) as s:
                        value = fn(s, *args)
                    data = pickle.dumps(('ok', value, s.n))
                except core.Violation as v:
                    data = pickle.dumps(('violation', v.msg, core.jsonable(v.detail)))
                except BaseException as e:
                    data = pickle.dumps(('error', type(e).__name__, str(e)[:1500], traceback.format_exc()[-3000:]))
                audit.S = None
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            except BaseException:
                code = 9
            finally:
                os._exit(code)
        os.close(w)
        self.r, self.pid = r, pid

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def wait(self, timeout=120, kill_after=None):
        buf = b''
        end = time.time() + timeout
        kill_at = None if kill_after is None else time.time() + kill_after
        try:
            while True:
                now = time.time()
                lim = end if kill_at is None else min(end, kill_at)
                ready, _, _ = select.select([self.r], [], [], max(0, lim - now))
                if ready:
                    b = os.read(self.r, 1 << 20)
                    if not b:
                        break
                    buf += b
                    continue
                self.kill()
                if kill_at is None or lim == end:
                    os.waitpid(self.pid, 0)
                    raise TimeoutError('a child did not finish')
                kill_at = None
        finally:
            os.close(self.r)
        _, status = os.waitpid(self.pid, 0)
        if not buf:
            return ('died', status)
        try:
            return pickle.loads(buf)
        except Exception:
            return ('died', status)


def call(fn, *args, timeout=120, kill_after=None, **audit_kw):
    return Child(fn, *args, **audit_kw).wait(timeout, kill_after)


def expect(ctx, what, res):
    """Unwrap a child's result; anything but success is reported."""
    if res[0] == 'ok':
        return res[1]
    if res[0] == 'violation':
        raise core.Violation(f'{what}: {res[1]}', **res[2])
    if res[0] == 'died':
        raise core.Violation(f'{what}: the process died (status {res[1]})')
    if res[1] in ('MemoryError', 'CommClosedError', 'TimeoutError', 'KilledWorker'):
        raise core.Inconclusive(res[2])
    raise core.Violation(f'{what}: unexpected {res[1]}: {res[2]}', tb=res[3])
