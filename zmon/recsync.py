"""A synchronizer that records its acquisitions; its state is process-global so that pickled copies share it."""
from __future__ import annotations
import itertools, threading
from zcollection import sync

_lock = threading.Lock()
_state: dict = {}
_ids = itertools.count()


def state(token):
    return _state[token]


class RecSync(sync.Sync):
    def __init__(self, token=None):
        if token is None:
            token = next(_ids)
        self.token = token
        with _lock:
            _state.setdefault(token, {'held': 0, 'enters': 0, 'exits': 0, 'max': 0, 'events': []})

    def __reduce__(self):
        return (RecSync, (self.token, ))

    def __enter__(self):
        with _lock:
            s = _state[self.token]
            s['held'] += 1
            s['enters'] += 1
            s['max'] = max(s['max'], s['held'])
        return True

    def __exit__(self, exc_type, exc_value, traceback):
        with _lock:
            s = _state[self.token]
            s['held'] -= 1
            s['exits'] += 1

    def is_locked(self):
        return _state[self.token]['held'] > 0
