"""Process-global registry of calls made by user functions handed to the library.

User functions reference this module by name, so they still find the same registry after being pickled and
unpickled inside the same process.
"""
from __future__ import annotations
import itertools, threading

_lock = threading.Lock()
_logs: dict = {}
_ids = itertools.count()


def new():
    token = next(_ids)
    _logs[token] = []
    return token


def add(token, item):
    with _lock:
        _logs.setdefault(token, []).append(item)
        return len(_logs[token])


def get(token):
    with _lock:
        return list(_logs.get(token, ()))


def reset(token):
    with _lock:
        _logs[token] = []
