"""Operating-system boundary monitor: every file mutation made by this process.

One audit hook (it can never be removed, so it is installed once and armed/disarmed).  Roles:
  log     - record (seq, thread, op, path)
  guard   - refuse and report mutations outside allowed roots
  fault   - raise OSError at the k-th mutation under a root
  crash   - os._exit at the k-th mutation under a root
  probe   - call a function at every mutation under a root
"""
from __future__ import annotations
import errno, os, sys, threading, contextlib, time

_lock = threading.RLock()
_tls = threading.local()


class State:
    def __init__(self):
        self.roots = ()        # observe mutations below these roots
        self.exclude = ()
        self.events = None     # list or None
        self.allowed = None    # containment roots or None
        self.escapes = []
        self.fault_at = None   # set/int of mutation indices that fail
        self.fault_persist = False
        self.fault_pred = None
        self.errno = errno.EIO
        self.crash_at = None
        self.n = 0
        self.fired = 0
        self.fired_op = None
        self.probe = None
        self.delay = None


S: State | None = None
_installed = False
WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _paths(event, args):
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return None
        if isinstance(flags, int) and not flags & WRITE_FLAGS:
            return None
        if not isinstance(flags, int) and not (mode and set(mode) & set('wax+')):
            return None
        return 'write', [path]
    if event == 'os.remove':
        return 'remove', [args[0]]
    if event == 'os.rename':
        return 'rename', [args[0], args[1]]
    if event == 'os.mkdir':
        return 'mkdir', [args[0]]
    if event == 'os.rmdir':
        return 'rmdir', [args[0]]
    if event in ('os.link', 'os.symlink'):
        return 'link', [args[1]]
    if event == 'os.truncate':
        return 'write', [args[0]]
    return None


def _norm(p, args, event):
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if not os.path.isabs(p):
        # rmtree uses dir_fd-relative names
        dfd = None
        if event == 'os.remove' and len(args) > 1:
            dfd = args[1]
        elif event in ('os.rmdir',) and len(args) > 1:
            dfd = args[1]
        elif event == 'os.mkdir' and len(args) > 2:
            dfd = args[2]
        if isinstance(dfd, int) and dfd >= 0:
            try:
                p = os.path.join(os.readlink(f'/proc/self/fd/{dfd}'), p)
            except OSError:
                return None
        else:
            p = os.path.join(os.getcwd(), p)
    return os.path.normpath(p)


def _under(p, roots):
    return any(p == r or p.startswith(r + '/') for r in roots)


def _hook(event, args):
    s = S
    if s is None or getattr(_tls, 'off', False):
        return
    res = _paths(event, args)
    if res is None:
        return
    _tls.off = True
    try:
        op, raw = res
        paths = [q for q in (_norm(p, args, event) for p in raw) if q is not None]
        if not paths:
            return
        with _lock:
            if s.allowed is not None:
                for p in paths:
                    if not _under(p, s.allowed):
                        s.escapes.append((op, p))
                        raise PermissionError(errno.EACCES, f'zmon: blocked {op} outside the sandbox', p)
            hit = [p for p in paths if _under(p, s.roots) and not _under(p, s.exclude)]
            if not hit:
                return
            s.n += 1
            n = s.n
            if s.events is not None:
                s.events.append((n, threading.get_ident(), op, hit[-1]))
            if s.probe is not None:
                s.probe(n, op, hit[-1])
            if s.crash_at is not None and n >= s.crash_at:
                os._exit(137)
            if s.fault_at is not None:
                fire = n == s.fault_at or (s.fault_persist and n >= s.fault_at)
                if fire and (s.fault_pred is None or s.fault_pred(op, hit[-1])):
                    s.fired += 1
                    s.fired_op = s.fired_op or (op, hit[-1])
                    exc = OSError(s.errno, 'zmon: injected fault', hit[-1])
                    exc.zmon_injected = True
                    raise exc
            delay = s.delay
        if delay is not None:
            delay(n, op)
    finally:
        _tls.off = False


@contextlib.contextmanager
def armed(roots=(), **kw):
    """Arm the monitor; yields its State."""
    global S, _installed
    if not _installed:
        sys.addaudithook(_hook)
        _installed = True
    s = State()
    s.roots = tuple(os.path.normpath(str(r)) for r in roots)
    for k, v in kw.items():
        assert hasattr(s, k), k
        if k in ('allowed', 'exclude') and v is not None:
            v = tuple(os.path.normpath(str(r)) for r in v)
        setattr(s, k, v)
    if s.allowed is None and S is not None:
        s.allowed = S.allowed
        s.escapes = S.escapes
    prev, S = S, s
    try:
        yield s
    finally:
        S = prev


@contextlib.contextmanager
def unmonitored():
    """The harness' own file accesses (this thread)."""
    old = getattr(_tls, 'off', False)
    _tls.off = True
    try:
        yield
    finally:
        _tls.off = old
