"""Collection used by the checks of update, map and map_overlap."""
from __future__ import annotations

import numpy

from . import kit
from .env import Env
from .kit import DIM, PIX, Layout

#: records per partition
ROWS = {
    0: [(0, 0, 1), (0, 2, 1)],
    1: [(1, 1, 1)],
    2: [(2, 0, 1), (2, 1, 1), (2, 3, 1)],
    3: [(3, 5, 1), (3, 6, 1)],
}
EXTRA = {'src': (DIM, ), 'w': (DIM, ), 'v3': (PIX, DIM), 'z': (DIM, )}


def arrays(layout, rows):
    """v1 (masked cells, NaN), v2 (two dimensions), v3 (transposed), src (an
    identifier of the record), w (to be updated), z (fill value 0)."""
    out = kit.arrays_for(layout, rows)
    out['src'] = numpy.array([1 + p * 17 + s for p, s, _ in rows], 'int64')
    out['w'] = numpy.array([-float(p * 10 + s) for p, s, _ in rows], 'float64')
    out['z'] = numpy.array([float(p * 10 + s) for p, s, _ in rows])
    out['v3'] = (out['v2'] * 3 + 1).T.astype('int32')
    return out


def rows_of(parts):
    return [row for p in parts for row in ROWS[p]]


class World:

    def __init__(self, layout: str, fs: str, chunks=None):
        self.layout = Layout(layout)
        self.env = Env(fs)
        zds = kit.make_ds(arrays(self.layout, rows_of(range(4))),
                          extra_dims=EXTRA, chunks=chunks)
        self.coll = kit.create(self.env, self.layout, zds)
        self.coll.insert(zds)
        self.base = self.coll.partition_properties.dir
        self.snap = self.env.snapshot()
        self.tree = self.env.tree()

    def filters(self, subset):
        if len(subset) == 4:
            return None
        keys = [dict(self.layout.key(p)) for p in subset]
        return lambda item: item in keys

    def window(self, subset, p, depth):
        """Partitions seen by the function for p, and the slice of p."""
        ix = subset.index(p)
        parts = subset[max(0, ix - depth):ix + depth + 1]
        before = len(rows_of(subset[max(0, ix - depth):ix]))
        return parts, slice(before, before + len(ROWS[p]))
