"""C12: the result of an operation depends neither on the order in which the
workers run its tasks, nor on their number."""
from __future__ import annotations

import numpy

from mc import faults, kit, overlap, sched, sim
from mc.kit import DIM, check
from mc.overlap import ROWS, World, arrays, rows_of
import zcollection
from zcollection import dataset, meta
from zcollection.merging import merge_time_series

PROPERTY = 'C12'
LEVEL = 'model_checking'
VALIDATE = 0
RULE = ('every operation x number of workers x every schedule of the worker '
        'threads with at most the given number of delays, in two base orders '
        '(tasks in the order of their submission, or the last one first)')
ASSUMPTIONS = [
    'the threads are switched when they wait for each other and at the steps '
    'on the storage (those that write only, for the operations that mainly '
    'write, in the quick tier)',
]
CHUNK = 1
PARTS = 4
OPS = ('insert_new', 'insert_over', 'insert_merge', 'update', 'update_depth',
       'add_variable', 'drop_variable', 'drop_partitions', 'load',
       'load_delayed', 'map', 'map_overlap', 'copy', 'view', 'update_self')
#: operations whose readings matter most
READ = ('update', 'update_depth', 'update_self', 'load', 'load_delayed', 'map',
        'map_overlap')
NEW = [(0, 1, 2), (1, 0, 2), (2, 2, 2), (3, 7, 2)]


def scenarios(tier):
    for op in OPS:
        for workers in (1, 2, 4):
            for delayed in (False, True):
                if tier == 'quick' and delayed != (workers == 2):
                    continue
                if tier == 'quick' and workers != 2 and (
                        op.startswith('insert') or op == 'copy'):
                    continue
                reads = tier != 'quick' or op in READ
                for part in range(PARTS):
                    yield (op, workers, delayed, 1 if tier == 'quick' else 2,
                           reads, part)


def neighbours(zds, partition_info=None):
    src = zds['src'].values.astype('float64')
    out = src * 2 + 1000 * src.sum()
    if partition_info is not None:
        out = out + partition_info[1].start
    return {'w': out}


def plus_one(zds):
    return {'w': zds['w'].values + 1, 'v2': zds['v2'].values + 3}


def own_sum(zds):
    w = zds['w'].values
    return {'w': w + 100 * w.sum()}


def summary(zds, *args, **kwargs):
    return {
        name: kit.canon_array(var.values)
        for name, var in zds.variables.items()
    }


class Subject:

    def __init__(self, op, delayed):
        self.op = op
        self.delayed = delayed
        self.world = World('date:D', 'mem',
                           chunks=[dataset.Dimension(DIM, 2)])
        world = self.world
        if op == 'insert_new':
            self.coll = kit.open_coll(world.env)
            self.coll.drop_partitions()
            world.snap = world.env.snapshot()

    def dataset(self, rows):
        return kit.make_ds(arrays(self.world.layout, rows),
                           extra_dims=overlap.EXTRA, delayed=self.delayed,
                           chunk=2, chunks=[dataset.Dimension(DIM, 2)])

    def do(self, coll):
        """The operation; returns what the caller sees."""
        op, delayed = self.op, self.delayed
        if op == 'insert_new':
            return sorted(coll.insert(self.dataset(rows_of(range(4)))))
        if op == 'insert_over':
            return list(coll.insert(self.dataset(NEW)))
        if op == 'insert_merge':
            return list(coll.insert(self.dataset(NEW),
                                    merge_callable=merge_time_series))
        if op == 'update':
            return coll.update(plus_one, variables=('w', 'v2'),
                               delayed=delayed)
        if op == 'update_depth':
            return coll.update(neighbours, depth=1, delayed=delayed)
        if op == 'update_self':
            return coll.update(own_sum, depth=1, delayed=delayed,
                               variables=('w', ))
        if op == 'add_variable':
            return coll.add_variable(
                meta.Variable('x', numpy.dtype('float64'), dimensions=(DIM, ),
                              fill_value=-1.0))
        if op == 'drop_variable':
            return coll.drop_variable('v2')
        if op == 'drop_partitions':
            return list(coll.drop_partitions(
                filters=self.world.filters((1, 2))))
        if op in ('load', 'load_delayed'):
            return summary(coll.load(delayed=op == 'load_delayed'))
        if op == 'map':
            return coll.map(summary, delayed=delayed).compute()
        if op == 'map_overlap':
            return coll.map_overlap(summary, depth=1,
                                    delayed=delayed).compute()
        if op == 'copy':
            other = coll.copy(self.world.env.path('other'),
                              filesystem=coll.fs)
            return list(other.partitions())
        assert op == 'view'
        path = self.world.env.path('view')
        ref = zcollection.view.ViewReference(coll.partition_properties.dir,
                                             coll.fs)
        other = zcollection.create_view(path, ref, filesystem=coll.fs)
        other.add_variable(
            meta.Variable('x', numpy.dtype('float64'), dimensions=(DIM, ),
                          fill_value=-1.0))
        other.update(view_update)
        return summary(other.load(delayed=delayed))

    def execute(self, current, workers, reads):
        world = self.world
        world.env.restore(world.snap)
        coll = kit.open_coll(world.env, fs=world.env.other('one'))
        out = {}

        def call():
            out['result'] = self.do(coll)

        def hook(fs, op, path, data=None):
            if current.current is not None and (reads or op in faults.WRITES):
                current.point()

        thread = current.client('A', call)
        saved = sim.POLICY.sched, sim.POLICY.workers
        sim.POLICY.sched, sim.POLICY.workers = current, workers
        world.env.space.hook = hook
        try:
            current.run()
        finally:
            world.env.space.hook = None
            sim.POLICY.sched, sim.POLICY.workers = saved
        if thread.exc is not None:
            raise thread.exc
        return out['result']

    def tree(self):
        return self.world.env.tree()


def view_update(zds):
    return {'x': zds['src'].values * 2.0}


def run(scenario, ctx):
    op, workers, delayed, bound, reads, part = scenario
    with kit.policy(ctx.real, workers=1, eager=True, order='fifo'), \
            kit.quiet():
        subject = Subject(op, delayed)
        world = subject.world
        coll = kit.open_coll(world.env, fs=world.env.other('one'))
        world.env.restore(world.snap)
        result = subject.do(coll)
        tree = subject.tree()
        got = {}

        def execute(current):
            got['result'] = subject.execute(current, workers, reads)

        for new, delays, current in sched.explore(execute, bound, part=part,
                                                  parts=PARTS):
            what = (f'{op}, {workers} workers, delays {delays}, last task '
                    f'first {new}')
            ctx.step(current.steps)
            ctx.state((op, workers, delayed, new, delays))
            ctx.outcome(op)
            if op == 'update_self':
                self_update(world, what, ctx)
                continue
            check(got['result'] == result,
                  f'{what}: the result {got["result"]} is not the one of a '
                  f'sequential execution, {result}')
            now = subject.tree()
            for name in {*tree, *now}:
                check(now.get(name) == tree.get(name),
                      f'{what}: the file {name} is not the one of a '
                      'sequential execution')


def self_update(world, what, ctx):
    """Each partition was computed from the previous or the new values of its
    neighbours."""
    zds = kit.open_coll(world.env).load(delayed=False)
    w = zds['w'].values
    ref = arrays(world.layout, rows_of(range(4)))['w']
    first = {p: len(rows_of(range(p))) for p in range(5)}
    own = {p: ref[first[p]:first[p + 1]] for p in range(4)}
    got = {p: w[first[p]:first[p + 1]] for p in range(4)}
    stale = False
    for p in range(4):
        near = [q for q in (p - 1, p + 1) if q in own]
        right = own[p] + 100 * (own[p].sum() + sum(
            own[q].sum() for q in near))
        if (got[p] == right).all():
            continue
        stale = True
        # each record of a neighbour is the previous or the new one
        options = [own[p].sum()]
        for q in near:
            for values in zip(own[q], got[q]):
                options = [a + b for a in options for b in values]
        check(any(numpy.allclose(got[p], own[p] + 100 * x) for x in options),
              f'{what}: partition {p} holds {got[p]}')
    if stale:
        ctx.finding('update-depth-self', what)
