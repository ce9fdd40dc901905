"""The operations whose failures, crashes and interleavings are explored."""
from __future__ import annotations

import numpy
import zarr

from . import kit
from .env import Env
from .kit import DIM, Layout
from zcollection import dataset, meta, storage
from zcollection.merging import merge_time_series

ROWS = {0: [(0, 0, 1), (0, 2, 1), (0, 4, 1)], 1: [(1, 1, 1), (1, 3, 1)]}
#: name of the operation -> partitions it is allowed to change
OPS = {
    'insert_new': (2, 3),
    'insert_over': (0, 1),
    'insert_merge': (0, 1),
    'insert_mixed': (1, 2),
    'update': (0, 1),
    'update_depth': (0, 1),
    'add_variable': (0, 1),
    'drop_variable': (0, 1),
    'drop_partitions': (1, ),
}
NEW = {
    'insert_new': [(2, 0, 2), (2, 1, 2), (3, 0, 2)],
    'insert_over': [(0, 1, 2), (0, 2, 2), (1, 0, 2)],
    'insert_merge': [(0, 1, 2), (0, 2, 2), (1, 4, 2)],
    'insert_mixed': [(1, 2, 2), (2, 0, 2), (2, 2, 2)],
}
NEW_VARIABLE = meta.Variable('w', numpy.dtype('float64'), dimensions=(DIM, ),
                             fill_value=-1.0)


def constant(zds):
    return {'v1': numpy.arange(zds.dimensions[DIM]) + 0.5}


class World:
    """A collection of two partitions, stored in several chunks."""

    def __init__(self, layout='date:D', fs='mem', delayed=False,
                 synchronizer=None, empty=False):
        self.layout = Layout(layout)
        self.env = Env(fs)
        self.delayed = delayed
        rows = [] if empty else ROWS[0] + ROWS[1]
        zds = self.dataset(ROWS[0] + ROWS[1])
        self.coll = kit.create(self.env, self.layout, zds,
                               synchronizer=synchronizer)
        if rows:
            self.coll.insert(zds)
        self.base = self.coll.partition_properties.dir
        self.snap = self.env.snapshot()
        self.before = self.state()

    def dataset(self, rows):
        # one chunk of v2 for two records
        return kit.make_ds(kit.arrays_for(self.layout, rows),
                           delayed=self.delayed, chunk=2,
                           chunks=[dataset.Dimension(DIM, 2)])

    def restore(self, synchronizer=None):
        self.env.restore(self.snap)
        self.coll = kit.open_coll(self.env, synchronizer=synchronizer)

    def filters(self, p):
        keys = dict(self.layout.key(p))
        return lambda item: item == keys

    def do(self, op, coll=None):
        coll = coll or self.coll
        if op.startswith('insert'):
            merge = None
            if op in ('insert_merge', 'insert_mixed'):
                merge = merge_time_series
            coll.insert(self.dataset(NEW[op]), merge_callable=merge)
        elif op == 'update':
            coll.update(constant, variables=('v1', ), delayed=self.delayed)
        elif op == 'update_depth':
            coll.update(constant, variables=('v1', ), depth=1,
                        delayed=self.delayed)
        elif op == 'add_variable':
            coll.add_variable(NEW_VARIABLE)
        elif op == 'drop_variable':
            coll.drop_variable('v2')
        elif op == 'drop_partitions':
            coll.drop_partitions(filters=self.filters(1))
        elif op == 'fix':
            coll.validate_partitions(fix=True)
        else:
            raise AssertionError(op)

    def part(self, path):
        """Content of a partition: None when it cannot be read, or the sorted
        content of the variables, None for one that cannot be read."""
        fs = self.env.other('reader')
        try:
            group = zarr.open_consolidated(fs.get_mapper(path), mode='r')
            names = sorted(group)
        except Exception:  # pylint: disable=broad-except
            return None
        out = []
        for name in names:
            try:
                zds = storage.open_zarr_group(path, fs, delayed=False,
                                              selected_variables=[name])
                out.append((name, kit.canon_array(zds[name].values)))
            except Exception:  # pylint: disable=broad-except
                out.append((name, None))
        return tuple(out)

    def state(self):
        """{partition: content}, of everything that is listed."""
        coll = kit.open_coll(self.env, mode='r', fs=self.env.other('lister'))
        out = {}
        for path in coll.partitions():
            name = path[len(self.base) + 1:]
            out[self.number(name)] = self.part(path)
        return out

    def number(self, name):
        for p in range(4):
            if self.layout.dirname(p) == name:
                return p
        return name

    def schema(self):
        coll = kit.open_coll(self.env, mode='r', fs=self.env.other('lister'))
        return coll.metadata.get_config()

    def temporaries(self):
        """Contents of the hidden directories beside the partitions."""
        out = []
        for name in self.env.dirs(self.base):
            last = name.rpartition('/')[2]
            if last.startswith('.') and '/.' not in name.rpartition(
                    '/')[0] and last != '.immutable':
                out.append(self.part(f'{self.base}/{name}'))
        return out
