"""A small concrete index used by several monitors: runs of equal `parity` computed from the axis values."""
from __future__ import annotations
import numpy as np
from zcollection import indexing
from .. import gen


def runs(values):
    """(start, stop, value) of the maximal runs."""
    out = []
    n = len(values)
    i = 0
    while i < n:
        j = i
        while j < n and values[j] == values[i]:
            j += 1
        out.append((i, j, int(values[i])))
        i = j
    return out


def parity(values):
    x = np.asarray(values).view('i8') if np.asarray(values).dtype.kind == 'M' else np.asarray(values)
    return (x.astype('i8') % 2).astype('i8')


def _index(zds, dtype, axis):
    r = runs(parity(gen.raw(zds.variables[axis])))
    return np.array([(a, b, v) for a, b, v in r], dtype=dtype)


class Idx(indexing.Indexer):
    def dtype(self, **kwargs):
        return super().dtype() + [('parity', 'int64')]

    @classmethod
    def create(cls, path, zds, filesystem=None, **kwargs):
        return super()._create(path, zds, meta={'attribute': b'value'}, filesystem=filesystem)

    def update(self, zds, partition_size=None, npartitions=None, **kwargs):
        super()._update(zds, _index, partition_size, npartitions, dtype=self.dtype(), axis=zds.axis, **kwargs)
