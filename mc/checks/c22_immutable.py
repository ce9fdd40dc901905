"""C22: the variables that do not depend on the partitioning are stored once,
never change, and are given back with every partition."""
from __future__ import annotations

import itertools

import numpy

from mc import faults, kit
from mc.env import Env
from mc.kit import DIM, PIX, Layout, check
from zcollection.merging import merge_time_series

PROPERTY = 'C22'
LEVEL = 'model_checking'
VALIDATE = 2
RULE = ('every sequence of operations up to the depth, on a collection with '
        'variables independent of the partitioning, and after each of them '
        'every way of reading; every crash point of the first insertion')
ASSUMPTIONS = ['three partitions of one to three records, two variables '
               'without the partitioning dimension']

GRID = 'num_grid'
EXTRA = {'grid': (PIX, ), 'mesh': (GRID, PIX)}
VALUES = {
    'grid': numpy.array([3.5, -2.0]),
    'mesh': numpy.arange(6, dtype='int32').reshape(3, 2)
}
START = {0: ((0, 0, 1), (0, 2, 1)), 1: ((1, 1, 1), )}
OPS = ('over_0', 'merge_1', 'new_2', 'other', 'without', 'drop_0', 'drop_v2',
       'refuse', 'update', 'update_depth', 'reopen', 'copy')
INSERTS = {
    'over_0': ([(0, 1, 2), (0, 2, 2), (0, 3, 2)], False),
    'merge_1': ([(1, 0, 3), (1, 2, 3)], True),
    'new_2': ([(2, 0, 4), (2, 5, 4)], False),
    # with other values for the immutable variables
    'other': ([(1, 1, 5), (2, 1, 5)], False),
    # without the immutable variables
    'without': ([(0, 0, 6), (2, 2, 6)], True),
}
SELECTED = (None, ('grid', ), ('time', 'v1'), ('v1', 'mesh'), ('v2', 'grid'))


def scenarios(tier):
    quick = tier == 'quick'
    for layout in ('date:D', 'seq:a,b') if quick else ('date:D', 'date:h',
                                                       'seq:a', 'seq:a,b'):
        for fs in ('mem', 'local'):
            for delayed in (False, True):
                if fs == 'local' and layout != 'date:D':
                    continue
                for first in (('crash', 'mem'), ('crash', 'local')):
                    if layout == 'date:D' and first[1] == fs:
                        for part in range(2):
                            yield ('crash', layout, fs, delayed, part)
                depth = 2 if quick else 3
                if quick and fs == 'local' and delayed:
                    continue
                for op in ('drop_v2', 'refuse', 'reopen', 'copy'):
                    yield ('empty', layout, fs, delayed, (op, ))
                if quick and (fs == 'local' or layout != 'date:D'):
                    depth = 1
                for size in range(depth + 1):
                    for seq in itertools.permutations(OPS, size):
                        yield ('ops', layout, fs, delayed, seq)


def real_ok(scenario):
    return scenario[0] == 'ops' and scenario[2] == 'local'


class World:

    def __init__(self, layout, fs, delayed):
        self.layout = Layout(layout)
        self.env = Env(fs)
        self.delayed = delayed
        self.start = [r for p in START for r in START[p]]
        self.coll = kit.create(self.env, self.layout,
                               self.dataset(self.start))

    def arrays(self, rows, immutable=None):
        out = kit.arrays_for(self.layout, rows)
        out.update(VALUES if immutable is None else immutable)
        return out

    def dataset(self, rows, immutable=None):
        return kit.make_ds(self.arrays(rows, immutable), extra_dims=EXTRA,
                           delayed=self.delayed)

    def filters(self, parts):
        keys = [dict(self.layout.key(p)) for p in parts]
        return lambda item: item in keys

    def number(self, name):
        for p in range(3):
            if self.layout.dirname(p) == name:
                return p
        return name


class Model:

    def __init__(self):
        self.ref = dict(START)
        self.names = {'time', 'v1', 'v2', 'grid', 'mesh'}
        self.v1 = {}  #: updated partitions -> values

    def insert(self, rows, merge):
        old = self.ref
        self.ref = kit.ref_insert(self.ref, rows, merge)
        for p in kit.ref_split(rows):
            if merge and p in self.v1 and p in old:
                values = dict(zip((r[1] for r in old[p]), self.v1[p]))
                fresh = {r[1] for r in rows if r[0] == p}
                self.v1[p] = [
                    None if r[1] in fresh else values[r[1]]
                    for r in self.ref[p]
                ]
            else:
                self.v1.pop(p, None)

    def expected(self, world, parts):
        rows = [r for p in parts for r in self.ref[p]]
        arrays = world.arrays(rows)
        ix = 0
        for p in parts:
            for k, _ in enumerate(self.ref[p]):
                if p in self.v1 and self.v1[p][k] is not None:
                    arrays['v1'][ix] = self.v1[p][k]
                ix += 1
        out = kit.expected_values(arrays)
        return {
            k: v
            for k, v in out.items()
            if k in self.names or k not in ('v2', )
        }


def double_v1(zds):
    """Computed from an immutable variable."""
    size = zds.dimensions[DIM]
    grid = zds['grid'].values
    check(kit.canon_array(grid) == kit.canon_array(VALUES['grid']),
          'update: the function is given another grid')
    return {'v1': numpy.full(size, 7.0) + grid.sum()}


def do(world, model, op, what):
    coll = world.coll
    if op in INSERTS:
        rows, merge = INSERTS[op]
        immutable = None
        if op == 'other':
            immutable = {k: v * 2 for k, v in VALUES.items()}
        if op == 'without':
            immutable = {'mesh': VALUES['mesh']}
        zds = world.dataset(rows, immutable)
        if 'v2' not in model.names:
            zds.drops_vars('v2')
        coll.insert(zds, merge_callable=merge_time_series if merge else None)
        model.insert(rows, merge)
    elif op == 'drop_0':
        coll.drop_partitions(filters=world.filters([0]))
        model.ref.pop(0, None)
        model.v1.pop(0, None)
    elif op == 'drop_v2':
        coll.drop_variable('v2')
        model.names.discard('v2')
    elif op == 'refuse':
        for name in ('grid', 'mesh'):
            refused(lambda name=name: coll.drop_variable(name),
                    f'{what}: removal of {name}')
    elif op in ('update', 'update_depth'):
        coll.update(double_v1, variables=('v1', ), delayed=world.delayed,
                    depth=1 if op == 'update_depth' else 0)
        # again, the variables to update being found by calling the function
        coll.update(double_v1, delayed=world.delayed)
        for p, rows in model.ref.items():
            model.v1[p] = [7.0 + VALUES['grid'].sum()] * len(rows)
    elif op == 'reopen':
        world.coll = kit.open_coll(world.env)
    else:
        target = world.env.path('copied')
        if not world.env.fs.exists(target):
            world.coll = coll.copy(target)


def refused(func, what):
    try:
        func()
    except ValueError:
        return
    check(False, f'{what}: was accepted')


def run(scenario, ctx):
    with kit.policy(ctx.real, workers=2, eager=True, order='fifo'), \
            kit.quiet():
        if scenario[0] == 'crash':
            return run_crash(scenario, ctx)
        kind, layout, fs, delayed, seq = scenario
        world = World(layout, fs, delayed)
        model = Model()
        if kind == 'empty':
            # the operation comes before the first insertion
            do(world, model, seq[0], f'{seq[0]} when empty')
            check(not list(world.coll.partitions()), 'partitions when empty')
            check(world.coll.load() is None, 'data in an empty collection')
        zds = world.dataset(world.start)
        if 'v2' not in model.names:
            zds.drops_vars('v2')
        world.coll.insert(zds)
        done = []
        for op in seq if kind == 'ops' else ():
            done.append(op)
            do(world, model, op, ', '.join(done))
            ctx.step()
            ctx.outcome(op)
        # the state after each operation is the end of a shorter sequence
        verify(world, model, ', '.join(done) or f'first insertion after {seq}')
        world.coll = kit.open_coll(world.env,
                                   world.coll.partition_properties.dir)
        verify(world, model, f'{", ".join(done)}, reopened',
               SELECTED[:2])
        ctx.state((kind, layout, fs, delayed, seq))
    return None


def pick(values, selected):
    return values if selected is None else {
        k: v
        for k, v in values.items() if k in selected
    }


def look(zds):
    return {n: kit.canon_array(v.values) for n, v in zds.variables.items()}


def verify(world, model, what, selections=SELECTED):
    coll = world.coll
    listed = [world.number(p) for p in coll.partitions(relative=True)]
    check(listed == sorted(model.ref), f'{what}: partitions {listed}')
    check(set(coll.metadata.variables) - set(
        getattr(world.layout, 'fields', ())) == model.names,
          f'{what}: variables {sorted(coll.metadata.variables)}')
    check(not coll.validate_partitions(), f'{what}: invalid partitions')
    if not listed:
        check(coll.load() is None, f'{what}: data in an empty collection')
        return
    for selected in selections:
        if selected and 'v2' in selected and 'v2' not in model.names:
            continue
        text = f'{what}: {selected}'
        for delayed in (False, True):
            zds = coll.load(delayed=delayed, selected_variables=selected)
            kit.same(pick(drop(model, world, listed), selected),
                     kit.values_of(zds), f'{text}, load')
            for name in zds.variables:
                dims = {**kit.DIMS, **EXTRA}.get(name, (DIM, ))
                check(tuple(zds[name].dimensions) == dims,
                      f'{text}: dimensions of {name}')
        wanted = {
            world.layout.key(p): {
                k: kit.canon_array(v)
                for k, v in pick(drop(model, world, [p]), selected).items()
            }
            for p in listed
        }
        got = dict(coll.map(look, selected_variables=selected,
                            delayed=world.delayed).compute())
        check(got == wanted, f'{text}: map gives other values')
        if selected == ('grid', ):
            continue
        got = coll.map_overlap(look, depth=1, delayed=world.delayed,
                               selected_variables=selected).compute()
        check([k for k, _ in got] == [world.layout.key(p) for p in listed],
              f'{text}: map_overlap gives the keys {[k for k, _ in got]}')
        for ix, (_, values) in enumerate(got):
            near = listed[max(0, ix - 1):ix + 2]
            check(values == {
                k: kit.canon_array(v)
                for k, v in pick(drop(model, world, near), selected).items()
            }, f'{text}: map_overlap gives other values for {listed[ix]}')
    p = listed[-1]
    zds = coll.load(delayed=False, indexer=[(world.layout.key(p),
                                             slice(0, 1))])
    wanted = drop(model, world, [p])
    wanted = {
        k: v if k in VALUES else v[:1]
        for k, v in wanted.items()
    }
    kit.same(wanted, kit.values_of(zds), f'{what}: load with an indexer')


def drop(model, world, parts):
    out = model.expected(world, parts)
    if 'v2' not in model.names:
        out.pop('v2', None)
    return out


# -- crashes -----------------------------------------------------------------------
def run_crash(scenario, ctx):
    """The first insertion writes the immutable variables."""
    _, layout, fs, delayed, part = scenario
    world = World(layout, fs, delayed)
    inj = faults.Injector(world.env)
    snap = world.env.snapshot()
    zds = world.dataset(world.start)
    with inj.run('count'):
        world.coll.insert(zds)
    steps = list(inj.log)
    for k in range(1, len(steps) + 1):
        if k % 2 != part:
            continue
        for mode in ('crash', 'fault'):
            world.env.restore(snap)
            world.coll = kit.open_coll(world.env)
            failed = False
            with inj.run(mode, k):
                try:
                    world.coll.insert(world.dataset(world.start))
                except faults.Crash:
                    failed = True
                except Exception:  # pylint: disable=broad-except
                    failed = True
            what = (f'first insertion: {mode} at step {k} ({steps[k - 1][0]} '
                    f'{steps[k - 1][1].replace(world.env.root, "")})')
            world.coll = kit.open_coll(world.env,
                                       fs=world.env.other('restarted'))
            if failed:
                world.coll.validate_partitions(fix=True)
                world.coll.insert(world.dataset(world.start))
            verify(world, Model(), f'{what}, repeated', SELECTED[:2])
            ctx.step()
            ctx.state((layout, fs, delayed, mode, k))
            ctx.outcome(mode)
