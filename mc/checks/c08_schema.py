"""C08: the schema of a collection and its partitions always agree."""
from __future__ import annotations

import itertools
import json

import numcodecs
import numpy
import zarr

from mc import kit
from mc.env import Env
from mc.kit import DIM, PIX, Layout, check
import zcollection
from zcollection import dataset, meta
from zcollection.merging import merge_time_series

PROPERTY = 'C08'
LEVEL = 'model_checking'
VALIDATE = 61
RULE = ('every sequence of schema changes, insertions, updates, removals and '
        'reopenings up to the depth, from an empty and from a filled '
        'collection')
ASSUMPTIONS = ['three partitions, five variables']

OPS = ('ins', 'merge', 'add_w', 'add_x', 'drop_w', 'drop_v1', 'upd_w',
       'reopen', 'rmpart', 'refuse')


def scenarios(tier):
    depth = 3 if tier == 'quick' else 4
    for layout in ('date:D', 'seq:a') if tier == 'quick' else (
            'date:D', 'date:h', 'seq:a', 'seq:a,b'):
        for filled in (True, False):
            for ops in itertools.product(OPS, repeat=depth):
                if useful(ops, filled):
                    for fs in ('mem', 'memr'):
                        if fs == 'memr' and tier == 'quick' and \
                                layout != 'date:D':
                            continue
                        yield (layout, filled, fs, ops)
    for ops in itertools.product(('ins', 'add_w', 'drop_w', 'upd_w'),
                                 repeat=3):
        yield ('date:D', True, 'local', ops)


def useful(ops, filled):
    """Sequences without a schema change, or where an operation repeats what
    cannot change anything, are left out."""
    if not any(op.startswith(('add', 'drop')) for op in ops):
        return False
    return all(not (a == b and a in ('reopen', 'refuse'))
               for a, b in zip(ops, ops[1:]))


PROPS = {
    'w': dict(dtype='float64', dims=(DIM, ), fill=7.0,
              attrs=(dataset.Attribute('units', 'kg'), )),
    'x': dict(dtype='int16', dims=(DIM, PIX), fill=-3,
              attrs=(dataset.Attribute('n', 1), ),
              filters=(numcodecs.Delta('int16'), )),
}


class Model:
    """Schema and content a collection must have."""

    def __init__(self, layout, names):
        self.layout = layout
        self.names = list(names)
        self.parts: dict = {}

    def insert(self, rows, values, merge):
        """rows: [(p, s)], values: {(p, s): {name: value}}"""
        for p in sorted({r[0] for r in rows}):
            new = [(s, {n: values[(q, s)].get(n) for n in self.names})
                   for q, s in rows if q == p]
            old = self.parts.get(p, [])
            if merge and old:
                lo, hi = new[0][0], new[-1][0]
                new = sorted([r for r in old if not lo <= r[0] <= hi] + new,
                             key=lambda r: r[0])
            self.parts[p] = new

    def add(self, name):
        self.names.append(name)
        for rows in self.parts.values():
            for _, row in rows:
                row[name] = None

    def drop(self, name):
        self.names.remove(name)
        for rows in self.parts.values():
            for _, row in rows:
                row.pop(name, None)

    def arrays(self):
        rows = [(p, s, row) for p in sorted(self.parts)
                for s, row in self.parts[p]]
        out = {}
        for name in self.names:
            out[name] = stack([row[name] for _, _, row in rows], name)
        return out


def stack(values, name):
    """An array with the missing values masked."""
    info = spec(name)
    two = len(info['dims']) == 2
    shape = (len(values), 2) if two else (len(values), )
    arr = numpy.ma.zeros(shape, dtype=info['dtype'])
    for ix, value in enumerate(values):
        if value is None:
            arr[ix] = numpy.ma.masked
        else:
            arr[ix] = value
    return arr


def spec(name):
    if name in PROPS:
        return PROPS[name]
    return {
        'time': dict(dtype='datetime64[us]', dims=(DIM, )),
        'v1': dict(dtype='float64', dims=(DIM, )),
        'v2': dict(dtype='int32', dims=(DIM, PIX)),
    }.get(name, dict(dtype='int64', dims=(DIM, )))


class World:

    def __init__(self, scenario):
        layout, filled, fs, _ = scenario
        self.layout = Layout(layout)
        self.env = Env(fs)
        self.tag = 0
        zds = self.dataset([(0, 0)], ['time', 'v1', 'v2'])[0]
        self.coll = kit.create(self.env, self.layout, zds)
        self.base = self.coll.partition_properties.dir
        names = ['time', 'v1', 'v2'] + [
            n for n in zds.variables if n not in ('time', 'v1', 'v2')
        ]
        self.model = Model(self.layout, names)
        if filled:
            self.insert([(0, 0), (0, 2), (1, 1)], False)
        self.verify('creation')

    def dataset(self, rows, names):
        """A dataset with the variables ``names`` and the values of it."""
        self.tag += 1
        arrays = kit.arrays_for(self.layout, [(p, s, self.tag)
                                              for p, s in rows])
        arrays['w'] = numpy.array([self.tag * 0.5 + s for _, s in rows])
        arrays['x'] = numpy.array([[self.tag, s] for _, s in rows], 'int16')
        keep = [
            n for n in arrays
            if n in names or n in getattr(self.layout, 'fields', ())
        ]
        variables = []
        values: dict = {row: {} for row in rows}
        for name in keep:
            props = kit.variable_props(name)
            if name in PROPS:
                props = dict(fill_value=PROPS[name]['fill'],
                             compressor=numcodecs.Zlib(1),
                             filters=PROPS[name].get('filters'))
            variables.append(
                dataset.Array(name, arrays[name],
                              spec(name)['dims'], **props))
            fill = props.get('fill_value')
            for ix, row in enumerate(rows):
                value = arrays[name][ix]
                if fill is not None:
                    value = numpy.ma.masked_equal(value, fill)
                    if value.ndim == 0 and value.mask:
                        value = None
                values[row][name] = value
        return dataset.Dataset(variables), values

    def insert(self, rows, merge):
        # Every other insertion leaves out what was added to the schema
        names = [
            n for n in self.model.names
            if self.tag % 2 or n not in ('w', 'x', 'v1')
        ]
        zds, values = self.dataset(rows, names)
        self.coll.insert(zds,
                         merge_callable=merge_time_series if merge else None)
        self.model.insert(rows, values, merge)

    def variable(self, name):
        info = PROPS[name]
        var = meta.Variable(name, numpy.dtype(info['dtype']),
                            dimensions=info['dims'], attrs=info['attrs'],
                            compressor=numcodecs.Zlib(1),
                            fill_value=info['fill'])
        if name == 'x':
            shape = (0, ) * 2
            return dataset.Array(name, numpy.zeros(shape, info['dtype']),
                                 info['dims'], attrs=info['attrs'],
                                 compressor=numcodecs.Zlib(1),
                                 fill_value=info['fill'],
                                 filters=info['filters'])
        return var

    def refused(self, func, *args):
        before = self.env.tree(), self.coll.metadata.get_config()
        try:
            func(*args)
        except ValueError:
            pass
        else:
            check(False, f'{func.__name__}{args} was accepted')
        check((self.env.tree(), self.coll.metadata.get_config()) == before,
              f'{func.__name__}{args} was refused but changed the collection')

    def step(self, op):
        coll, model = self.coll, self.model
        if op == 'ins':
            self.insert([(1, 0), (1, 4), (2, 0)], False)
        elif op == 'merge':
            self.insert([(0, 1), (0, 2), (1, 3)], True)
        elif op in ('add_w', 'add_x'):
            name = op[-1]
            if name in model.names:
                self.refused(coll.add_variable, self.variable(name))
                return
            var = self.variable(name)
            coll.add_variable(var)
            model.add(name)
        elif op in ('drop_w', 'drop_v1'):
            name = op[5:]
            if name not in model.names:
                self.refused(coll.drop_variable, name)
                return
            coll.drop_variable(name)
            model.drop(name)
        elif op == 'upd_w':
            if 'w' not in model.names or not model.parts:
                return
            coll.update(lambda z: {
                'w': z['time'].values.astype('int64') % 1000 + 0.25
            }, delayed=False)
            for p, rows in model.parts.items():
                for s, row in rows:
                    when = self.layout.time(p, s).astype('int64')
                    row['w'] = when % 1000 + 0.25
        elif op == 'reopen':
            self.coll = kit.open_coll(self.env, fs=self.env.other('b'))
        elif op == 'rmpart':
            keys = dict(self.layout.key(1))
            coll.drop_partitions(filters=lambda k: k == keys)
            model.parts.pop(1, None)
        elif op == 'refuse':
            for name in ('time', 'nothing') + tuple(
                    getattr(self.layout, 'fields', ())):
                self.refused(coll.drop_variable, name)
            for var in (meta.Variable('v2', numpy.dtype('f8'),
                                      dimensions=(DIM, )),
                        meta.Variable('y', numpy.dtype('f8'),
                                      dimensions=(PIX, )),
                        meta.Variable('y', numpy.dtype('f8'),
                                      dimensions=(DIM, 'unknown'))):
                self.refused(coll.add_variable, var)

    def verify_array(self, consolidated, name, what):
        """An array is stored as the schema declares it."""
        ref = self.coll.metadata.variables[name]
        got = consolidated[f'{name}/.zarray']
        check(got['dtype'] == numpy.dtype(ref.dtype).str,
              f'{what}/{name}: type {got["dtype"]}')
        check(got['fill_value'] == ref.fill_value,
              f'{what}/{name}: fill value {got["fill_value"]}')
        check(got['compressor'] == config(ref.compressor),
              f'{what}/{name}: compressor {got["compressor"]}')
        check((got['filters'] or []) == [config(i) for i in ref.filters],
              f'{what}/{name}: filters {got["filters"]}')
        dims = consolidated[f'{name}/.zattrs']['_ARRAY_DIMENSIONS']
        check(tuple(dims) == tuple(ref.dimensions),
              f'{what}/{name}: dimensions {dims}')

    def verify(self, what):
        names = set(self.model.names)
        other = kit.open_coll(self.env, fs=self.env.other('c'), mode='r')
        for coll in (self.coll, other):
            check(set(coll.metadata.variables) == names,
                  f'{what}: the schema is {sorted(coll.metadata.variables)}')
        check(self.coll.metadata == other.metadata,
              f'{what}: the stored schema differs from the one in memory')
        got = list(other.partitions(relative=True))
        want = [self.layout.dirname(p) for p in sorted(self.model.parts)]
        check(got == want, f'{what}: partitions {got} instead of {want}')
        tree, dirs = self.env.tree(self.base), self.env.dirs(self.base)
        for part in want:
            sub = {d[len(part) + 1:] for d in dirs if d.startswith(part + '/')}
            check({d.split('/')[0] for d in sub} == names,
                  f'{what}: {part} contains {sorted(sub)}')
            consolidated = json.loads(tree[f'{part}/.zmetadata'])['metadata']
            listed = {k.split('/')[0] for k in consolidated if '/' in k}
            check(listed == names, f'{what}: {part} declares {sorted(listed)}')
            for name in names:
                self.verify_array(consolidated, name, f'{what}: {part}')
        arrays = self.model.arrays()
        for coll, delayed in ((self.coll, True), (other, False)):
            zds = coll.load(delayed=delayed)
            if not self.model.parts:
                check(zds is None, f'{what}: data in an empty collection')
                continue
            kit.same(arrays, kit.values_of(zds), what)
            for name, var in zds.variables.items():
                ref = self.coll.metadata.variables[name]
                check(
                    var.fill_value == ref.fill_value
                    and tuple(var.dimensions) == tuple(ref.dimensions)
                    and var.dtype == ref.dtype
                    and tuple(var.attrs) == tuple(ref.attrs),
                    f'{what}: properties of {name} are {var.metadata()!r} '
                    f'instead of {ref!r}')
                if name in PROPS:
                    info = PROPS[name]
                    check(
                        var.fill_value == info['fill']
                        and tuple(var.attrs) == info['attrs']
                        and var.compressor.get_config()['id'] == 'zlib',
                        f'{what}: properties of {name}: {var.metadata()!r}')


def config(codec):
    return None if codec is None else codec.get_config()


def run(scenario, ctx):
    with kit.policy(ctx.real, workers=2, fs=scenario[2]), kit.quiet():
        world = World(scenario)
        for ix, op in enumerate(scenario[3]):
            world.step(op)
            world.verify(f'after {scenario[3][:ix + 1]}')
            ctx.step()
            ctx.state(kit.digest(scenario[:3], world.env.tree()))
            ctx.outcome(op)
