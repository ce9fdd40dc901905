"""C07: map and map_overlap apply the function once to each partition, to the
right data."""
from __future__ import annotations

import itertools

import numpy

from mc import kit, overlap
from mc.kit import DIM, check
from mc.overlap import World, arrays, rows_of
from zcollection import dataset

PROPERTY = 'C07'
LEVEL = 'model_checking'
VALIDATE = 29
RULE = ('every subset of the partitions x depth x laziness x batching of the '
        'bag x selection of variables, with and without partition_info')
ASSUMPTIONS = ['collections of four partitions of 1 to 3 records']
SUBSETS = [
    s for size in range(1, 5) for s in itertools.combinations(range(4), size)
]
CALLS: list = []


def scenarios(tier):
    layouts = ('date:D', 'seq:a,b') if tier == 'quick' else (
        'date:Y', 'date:D', 'date:h', 'date:s', 'seq:a', 'seq:a,b',
        'seq:a,b,c')
    for layout in layouts:
        for op in ('map', 'overlap'):
            for depth in ((0, ) if op == 'map' else (None, 0, 1, 2, 3)):
                for delayed in (True, False):
                    for size in ((None, None), (1, None), (3, None),
                                 (None, 1), (None, 2)):
                        for selected in (None, ('src', 'v2'), ()):
                            for info in ((False, ) if op == 'map' else
                                         (False, True)):
                                yield (layout, op, depth, delayed, size,
                                       selected, info, 'mem')
    for op, depth in (('map', 0), ('overlap', 1)):
        yield ('date:D', op, depth, True, (None, None), None, False, 'local')


def record(*args):
    CALLS.append(args)


def summary(zds, a, b, partition_info):
    record(a, b)
    return {
        'values': {
            name: kit.canon_array(var.values)
            for name, var in zds.variables.items()
        },
        'dims': {
            name: tuple(var.dimensions)
            for name, var in zds.variables.items()
        },
        'delayed': (zds.delayed, ) + tuple({
            isinstance(var, dataset.DelayedArray)
            for var in zds.variables.values()
        }),
        'args': (a, b),
        'info': partition_info,
    }


def plain(zds, a, *, b):
    return summary(zds, a, b, None)


def informed(zds, a, *, b, partition_info=None):
    return summary(zds, a, b, partition_info)


def run(scenario, ctx):
    layout, op, depth, delayed, size, selected, info, fs = scenario
    with kit.policy(ctx.real, workers=2, eager=False, order='lifo'), \
            kit.quiet():
        world = World(layout, fs, chunks=[dataset.Dimension(DIM, 2)])
        for subset in SUBSETS:
            one(world, subset, f'{op} on partitions {subset}', scenario)
            ctx.step()
            ctx.state((scenario, subset))
            ctx.outcome(op)
        check(world.env.tree() == world.tree, f'{op} modified the collection')


def one(world, subset, what, scenario):
    layout, op, depth, delayed, size, selected, info, fs = scenario
    CALLS.clear()
    func = informed if info else plain
    kwargs = dict(delayed=delayed, filters=world.filters(subset),
                  partition_size=size[0], selected_variables=selected, b=5)
    if delayed and size[0] is None:
        del kwargs['delayed']  # the default
    if op == 'map':
        bag = world.coll.map(func, 3, npartitions=size[1], **kwargs)
        reach = 0
    else:
        if depth is not None:
            kwargs['depth'] = depth
        reach = 1 if depth is None else depth
        bag = world.coll.map_overlap(func, 3, npartition=size[1], **kwargs)
    check(not CALLS, f'{what}: the function was called before the bag was '
          'computed')
    if selected == ():
        # nothing to load: the dimension of the data is unknown
        if op == 'overlap':
            return
    got = bag.compute()
    check(len(CALLS) == len(subset),
          f'{what}: the function was called {len(CALLS)} times')
    keys = [item[0] for item in got]
    check(keys == [world.layout.key(p) for p in subset],
          f'{what}: keys {keys}')
    for p, (_, res) in zip(subset, got):
        parts, indices = world.window(subset, p, reach)
        ref = kit.expected_values(arrays(world.layout, rows_of(parts)))
        if selected is not None:
            ref = {k: v for k, v in ref.items() if k in selected}
        check(set(ref) == set(res['values']),
              f'{what}: the function was given {sorted(res["values"])}')
        for name, arr in ref.items():
            check(kit.canon_array(arr) == res['values'][name],
                  f'{what}: {name} of partition {p} is not {kit.show(arr)}')
            dims = overlap.EXTRA.get(name) or kit.DIMS.get(name, (DIM, ))
            check(res['dims'][name] == dims, f'{what}: dimensions of {name}')
        check(set(res['delayed']) <= {delayed},
              f'{what}: {delayed=}, the function was given {res["delayed"]}')
        check(res['args'] == (3, 5), f'{what}: arguments {res["args"]}')
        want = (DIM, indices) if info else None
        check(res['info'] == want,
              f'{what}: partition_info {res["info"]} instead of {want}')
