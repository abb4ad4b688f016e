"""A local file system on which the k-th write stores only a part of its data and then fails (disk full)."""
from __future__ import annotations
import errno, threading
from fsspec.implementations.local import LocalFileSystem

_lock = threading.Lock()
STATE = {'armed': False, 'n': 0, 'at': None, 'fired': None}


class armed:
    """with armed(k) as state: the k-th write fails (None: count only)."""

    def __init__(self, at=None):
        self.at = at

    def __enter__(self):
        STATE.update(armed=True, n=0, at=self.at, fired=None)
        return STATE

    def __exit__(self, *exc):
        STATE['armed'] = False


class _File:
    def __init__(self, stream, path):
        self._stream, self._path = stream, path

    def __getattr__(self, name):
        return getattr(self._stream, name)

    def write(self, data):
        fail = False
        if STATE['armed']:
            with _lock:
                STATE['n'] += 1
                if STATE['n'] == STATE['at']:
                    fail, STATE['fired'] = True, self._path
        if fail:
            self._stream.write(data[:len(data) // 2])
            exc = OSError(errno.ENOSPC, 'No space left on device (injected)', self._path)
            exc.zmon_injected = True
            raise exc
        return self._stream.write(data)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self._stream.close()


class TornFS(LocalFileSystem):
    protocol = 'file'
    cachable = False

    def open(self, path, mode='rb', **kwargs):
        stream = super().open(path, mode=mode, **kwargs)
        return _File(stream, str(path)) if 'w' in mode or 'a' in mode else stream
