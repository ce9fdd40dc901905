"""A view on a collection, beside a reference model of both."""
from __future__ import annotations

import copy

import numpy

from . import kit
from .env import Env
from .kit import DIM, PIX, Layout, check
import zcollection
from zcollection import dataset, meta
from zcollection.merging import merge_time_series

FILL = -1.0
TYPES = {'u': 'int32'}
FILLS = {'u': 7}
#: variables of the view: name -> dimensions
VARS = {'x': (DIM, ), 'y': (DIM, PIX), 'u': (DIM, ), 't': (PIX, DIM)}
#: rows of the partitions the reference starts with
START = {0: ((0, 0, 1), (0, 2, 1)), 1: ((1, 1, 1), ), 2: ((2, 0, 1), (2, 3, 1))}
#: insertions into the reference: name -> (rows, merge)
INSERTS = {
    # one record more at the end of partition 0: the view is extended
    'extend': ([(0, 0, 1), (0, 2, 1), (0, 5, 2)], False),
    # the same instants, other values
    'same': ([(1, 1, 7)], False),
    # as many records, other instants
    'replace': ([(0, 1, 3), (0, 4, 3)], False),
    # a record before the existing ones
    'before': ([(1, 0, 4)], True),
    # one record less
    'shrink': ([(2, 0, 5)], False),
    # a new partition
    'new': ([(3, 0, 6), (3, 1, 6)], False),
    # as many records, the same ends and the same sum, others in between
    'middle': ([(2, 0, 8), (2, 2, 8), (2, 3, 8), (2, 5, 8)], False),
    # more records, the last instant of the view is where it was
    'grown': ([(2, 0, 9), (2, 2, 9), (2, 4, 9), (2, 5, 9), (2, 7, 9)], False),
}
#: four records in one partition
LONG = {**START, 2: ((2, 0, 1), (2, 1, 1), (2, 4, 1), (2, 5, 1))}


class Chosen:
    """A filter which is a function (it can be stored)."""

    def __init__(self, keys):
        self.keys = [dict(item) for item in keys]

    def __call__(self, item):
        return item in self.keys



def variable(name):
    return meta.Variable(
        name,
        numpy.dtype(TYPES.get(name, 'float64')),
        dimensions=VARS[name],
        attrs=(dataset.Attribute('role', name), ),
        fill_value=FILLS.get(name, FILL),
    )


def blank(name, size):
    shape = tuple(size if dim == DIM else 2 for dim in VARS[name])
    return numpy.full(shape, FILLS.get(name, FILL),
                      TYPES.get(name, 'float64'))


def turn(arrays):
    """A variable of the reference whose first dimension is not the one of
    the axis."""
    return arrays['v2'].T * 2.0


class Model:
    """What the collection and the view must hold."""

    def __init__(self, parts, filters, start=None):
        start = start or START
        self.ref = dict(start)
        self.filters = set(parts)
        self.text = filters
        self.vars: list[str] = []
        self.turned = False
        self.parts = {
            p: {'axis': self.axis(p), 'data': {}}
            for p in start if p in self.filters
        }

    def clone(self):
        return copy.deepcopy(self)

    def axis(self, p):
        return tuple(s for _, s, _ in self.ref[p])

    def scope(self):
        """Partitions the view is about."""
        return [p for p in sorted(self.ref)
                if p in self.filters or p in self.parts]

    def listed(self):
        return [p for p in sorted(self.ref) if p in self.parts]

    def synced(self, p):
        return p in self.parts and self.parts[p]['axis'] == self.axis(p)

    def sync(self):
        """Returns the partitions that changed."""
        out = []
        for p in self.scope():
            if self.synced(p):
                continue
            out.append(p)
            axis = self.axis(p)
            part = self.parts.get(p)
            if part is not None and len(axis) > len(
                    part['axis']) and axis[:len(part['axis'])] == part['axis']:
                for name, data in part['data'].items():
                    new = blank(name, len(axis))
                    at = VARS[name].index(DIM)
                    new.swapaxes(0, at)[:data.shape[at]] = data.swapaxes(
                        0, at)
                    part['data'][name] = new
                part['axis'] = axis
            else:
                self.parts[p] = {
                    'axis': axis,
                    'data': {n: blank(n, len(axis))
                             for n in self.vars}
                }
        return out

    def rows(self, parts):
        return [row for p in parts for row in self.ref[p]]

    def expected(self, layout, parts):
        """The content of the view, for these partitions."""
        arrays = kit.arrays_for(layout, self.rows(parts))
        if self.turned:
            arrays['vt'] = turn(arrays)
        out = kit.expected_values(arrays)
        for name in self.vars:
            data = numpy.concatenate(
                [self.parts[p]['data'][name] for p in parts],
                axis=VARS[name].index(DIM))
            out[name] = numpy.ma.masked_equal(data, FILLS.get(name, FILL))
        return out

    def key(self):
        return repr((sorted(self.ref.items()), sorted(self.filters),
                     self.vars,
                     [(p, part['axis'], [(n, d.tolist())
                                         for n, d in part['data'].items()])
                      for p, part in sorted(self.parts.items())]))


def listed_names(world, model):
    return [world.layout.dirname(p) + '/' for p in model.listed()]


class World:
    """The collection and the view."""

    def __init__(self, layout='date:D', fs='mem', subset=(0, 1, 2, 3),
                 chunk=True, start=None, kind='text', turned=False):
        start = start or START
        self.layout = Layout(layout)
        self.env = Env(fs)
        self.kind = kind
        self.turned = turned
        self.chunks = [dataset.Dimension(DIM, 2)] if chunk else None
        zds = self.dataset([r for p in start for r in start[p]])
        self.coll = kit.create(self.env, self.layout, zds)
        self.coll.insert(zds)
        self.path = self.env.path('view')
        text = None if len(subset) == 4 else self.filters(subset)
        self.view = zcollection.create_view(
            self.path,
            zcollection.view.ViewReference(self.env.path('coll'),
                                           self.env.fs),
            filesystem=self.env.fs, filters=text)
        self.model = Model(subset, text, start)
        self.model.turned = turned
        self.count = max(4, len(start))

    def dataset(self, rows):
        arrays = kit.arrays_for(self.layout, rows)
        if self.turned:
            arrays['vt'] = turn(arrays)
        return kit.make_ds(arrays, chunks=self.chunks,
                           extra_dims={'vt': (PIX, DIM)})

    def filters(self, subset):
        """An expression, or a function (the filters of a view are stored)."""
        if self.kind == 'call':
            return Chosen([self.layout.key(p) for p in subset])
        terms = []
        for p in subset:
            terms.append('(' + ' and '.join(
                f'{k} == {v}' for k, v in self.layout.key(p)) + ')')
        name = self.layout.key(0)[0][0]
        return ' or '.join(terms) or f'{name} == -12345'

    def open(self):
        return zcollection.open_view(self.path, filesystem=self.env.fs)

    def number(self, path):
        for p in range(self.count):
            if path == f'{self.path}/{self.layout.dirname(p)}':
                return p
        return path

    # -- operations
    def insert(self, name, model):
        rows, merge = INSERTS[name]
        coll = kit.open_coll(self.env)
        coll.insert(self.dataset(rows),
                    merge_callable=merge_time_series if merge else None)
        model.ref = kit.ref_insert(model.ref, rows, merge)

    def add(self, view, name, model):
        view.add_variable(variable(name))
        model.vars.append(name)
        for p in model.listed():
            part = model.parts[p]
            # the shape is the one of the partition of the reference
            part['data'][name] = blank(name, len(model.ref[p]))

    def drop(self, view, name, model):
        view.drop_variable(name)
        model.vars.remove(name)
        for part in model.parts.values():
            part['data'].pop(name, None)

    # -- checks
    def verify(self, model, what, view=None, reference=None,
               leftovers=False):
        view = view or self.view
        layout = self.layout
        got = [self.number(p) for p in view.partitions()]
        check(got == model.listed(),
              f'{what}: partitions {got} instead of {model.listed()}')
        if reference is not None:
            now = self.env.tree(self.env.path('coll'))
            check(now == reference,
                  f'{what}: the files of the reference changed')
        check(sorted(view.metadata.variables) == sorted(model.vars),
              f'{what}: variables {sorted(view.metadata.variables)} instead '
              f'of {sorted(model.vars)}')
        # nothing is left of what was dropped
        for path in () if leftovers else self.env.tree(self.path):
            for p in listed_names(self, model):
                if path.startswith(p):
                    name = path[len(p):].split('/')[0]
                    check(name in model.vars or name.startswith('.'),
                          f'{what}: {path} is left in the view')
        want = all(model.synced(p) for p in model.scope())
        synced = view.is_synced()
        check(synced == want,
              f'{what}: is_synced() is {synced} instead of {want}')
        if not model.vars:
            return
        listed = model.listed()
        good = [p for p in listed if model.synced(p)]
        if good == listed:
            # loading is only possible when the shapes agree
            zds = view.load(delayed=False)
            if not listed:
                check(zds is None, f'{what}: data in an empty view')
                return
            kit.same(model.expected(layout, listed), kit.values_of(zds), what)
            for name in model.vars:
                attrs = {a.name: a.value for a in zds[name].attrs}
                check(attrs == {'role': name},
                      f'{what}: attributes of {name}: {attrs}')
        elif good:
            zds = view.load(delayed=False, filters=self.filters(good))
            kit.same(model.expected(layout, good), kit.values_of(zds),
                     f'{what}, partitions {good}')
