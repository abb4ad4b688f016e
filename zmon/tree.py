"""Snapshots of directory trees (local or fsspec)."""
from __future__ import annotations
import hashlib, os


def snap(root, fs=None, skip=()):
    """{relative path: digest or None for directories}"""
    root = str(root).rstrip('/')
    res = {}
    if fs is None or type(fs).__name__ == 'LocalFileSystem':
        for base, dirs, files in os.walk(root):
            rel = os.path.relpath(base, root)
            if rel != '.':
                res[rel] = None
            for f in files:
                p = os.path.join(base, f)
                r = os.path.normpath(os.path.join(rel, f))
                try:
                    with open(p, 'rb') as h:
                        res[r] = hashlib.sha1(h.read()).hexdigest()
                except OSError as e:
                    res[r] = f'unreadable {e.errno}'
    else:
        if fs.exists(root):
            for p in fs.find(root):
                res[os.path.relpath(p, root)] = hashlib.sha1(fs.cat_file(p)).hexdigest()
    return {k: v for k, v in res.items() if not any(k == s or k.startswith(s + '/') for s in skip)}


def diff(a, b):
    return {'added': sorted(set(b) - set(a))[:12], 'removed': sorted(set(a) - set(b))[:12],
            'changed': sorted(k for k in set(a) & set(b) if a[k] != b[k])[:12]}


def part_of(path, depth):
    """Partition directory a relative file path belongs to (or None)."""
    parts = path.split('/')
    if len(parts) >= depth and all('=' in p for p in parts[:depth]):
        return '/'.join(parts[:depth])
    return None
