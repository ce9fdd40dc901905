"""C13: a view shows the variables of its reference and its own, and changes
nothing but its own."""
from __future__ import annotations

import itertools

import numpy

from mc import kit
from mc.kit import DIM, PIX, check
from mc.views import FILL, START, VARS, World, blank
from zcollection import meta

PROPERTY = 'C13'
LEVEL = 'model_checking'
VALIDATE = 2
RULE = ('every sequence of operations on a view up to the depth; every subset '
        'of its partitions x way of reading it: filters, indexer, selected '
        'variables, laziness, map, map_overlap and update with every depth')
ASSUMPTIONS = ['three partitions of one or two records']

OPS = ('add_x', 'add_y', 'add_u', 'drop_x', 'upd_x', 'upd_y', 'upd_0',
       'reopen', 'refuse')
SUBSETS = [
    s for size in range(4) for s in itertools.combinations(range(3), size)
]
SELECTED = (None, ('time', 'x'), ('x', ), ('y', 'x'), ('time', 'v2'),
            ('v1', 'y', 'u'), ())


def scenarios(tier):
    depth = 3 if tier == 'quick' else 4
    layouts = ('date:D', 'seq:a,b') if tier == 'quick' else (
        'date:D', 'date:h', 'seq:a', 'seq:a,b')
    for layout in layouts:
        for subset in ((0, 1, 2, 3), (0, 2), ()):
            if subset == () and layout != 'date:D':
                continue
            for seq in itertools.product(OPS, repeat=depth):
                if not seq[0].startswith('add') and seq[0] != 'refuse':
                    continue
                if any(seq.count(op) > 1 for op in OPS):
                    continue
                yield ('ops', layout, subset, 'mem', seq)
        for read in ('load', 'indexer', 'map', 'overlap', 'update'):
            for delayed in (True, False):
                for view in ((0, 1, 2, 3), (0, 2)):
                    for selected in SELECTED:
                        if read == 'update' and selected is not None and \
                                'x' not in selected:
                            continue
                        if read == 'indexer' and selected == ():
                            continue  # nothing to index
                        for fs in ('mem', 'local'):
                            if fs == 'local' and (layout != 'date:D'
                                                  or selected or delayed):
                                continue
                            yield (read, layout, view, fs, delayed, selected)


def real_ok(scenario):
    return scenario[3] == 'local'


def run(scenario, ctx):
    with kit.policy(ctx.real, workers=2, eager=False, order='lifo'), \
            kit.quiet():
        if scenario[0] == 'ops':
            return run_ops(scenario, ctx)
        return run_read(scenario, ctx)


# -- histories -----------------------------------------------------------------
def set_x(zds, factor):
    return {'x': zds['time'].values.astype('int64') % 1000 * factor}


def set_y(zds):
    """Computed from the reference and from the view."""
    return {'y': zds['v2'].values * 1.0 + zds['x'].values[:, None]}


def model_x(world, model, parts, factor):
    for p in parts:
        time = kit.arrays_for(world.layout, model.ref[p])['time']
        model.parts[p]['data']['x'] = time.astype('int64') % 1000 * factor


def model_y(world, model, parts):
    for p in parts:
        values = kit.expected_values(
            kit.arrays_for(world.layout, model.ref[p]))
        x = numpy.ma.masked_equal(model.parts[p]['data']['x'], FILL)
        new = values['v2'] * 1.0 + x[:, None]
        model.parts[p]['data']['y'] = numpy.ma.filled(new, FILL)


def run_ops(scenario, ctx):
    _, layout, subset, fs, seq = scenario
    world = World(layout, fs, subset)
    model, view = world.model, world.view
    reference = world.env.tree(world.env.path('coll'))
    done = []
    for op in seq:
        done.append(op)
        what = f'view on {subset}, {", ".join(done)}'
        parts = model.listed()
        if op.startswith('add_'):
            world.add(view, op[4:], model)
        elif op == 'drop_x':
            if 'x' in model.vars:
                world.drop(view, 'x', model)
            else:
                refused(lambda: view.drop_variable('x'), what)
        elif op in ('upd_x', 'upd_0'):
            factor = 2.0 if op == 'upd_x' else 3.0
            filters = None
            if op == 'upd_0':
                filters = world.filters((0, ))
                parts = [p for p in parts if p == 0]
            if 'x' in model.vars:
                view.update(set_x, factor, filters=filters)
                model_x(world, model, parts, factor)
            elif parts or not model.vars:
                refused(lambda: view.update(set_x, factor, filters=filters),
                        what)
        elif op == 'upd_y':
            if 'x' in model.vars and 'y' in model.vars:
                view.update(set_y)
                model_y(world, model, parts)
        elif op == 'reopen':
            view = world.open()
        else:
            refuse(view, model, what)
        world.verify(model, what, view, reference)
        ctx.step()
        ctx.outcome(op)
    # another process sees the same view
    world.verify(model, f'{what}, reopened', world.open(), reference)
    ctx.state((layout, subset, fs, model.key()))


def refused(func, what):
    try:
        func()
    except ValueError:
        return
    check(False, f'{what}: was accepted')


def refuse(view, model, what):
    """What a view must not accept."""
    for name in ('v1', *model.vars):
        refused(
            lambda name=name: view.add_variable(
                meta.Variable(name, numpy.dtype('float64'), dimensions=
                              (DIM, ))), f'{what}: addition of {name}')
    refused(
        lambda: view.add_variable(
            meta.Variable('q', numpy.dtype('float64'), dimensions=
                          (DIM, 'unknown'))),
        f'{what}: addition on an unknown dimension')
    for name in ('v1', 'unknown'):
        refused(lambda name=name: view.drop_variable(name),
                f'{what}: removal of {name}')
    if model.vars and model.listed():
        for name in ('v1', 'unknown'):
            refused(
                lambda name=name: view.update(lambda zds: {
                    name: zds['time'].values.astype('int64') * 1.0,
                    model.vars[0]: 0
                }), f'{what}: update of {name}')
            refused(
                lambda name=name: view.update(lambda zds: {
                    model.vars[0]: 0,
                    name: zds['time'].values.astype('int64') * 1.0
                }), f'{what}: update of {name} too')
    else:
        if not model.vars:
            refused(view.load, f'{what}: load without variables')


# -- readings --------------------------------------------------------------------
def prepare(layout, subset, fs):
    world = World(layout, fs, subset)
    model = world.model
    for name in ('x', 'y', 'u'):
        world.add(world.view, name, model)
    world.view.update(set_x, 2.0)
    model_x(world, model, model.listed(), 2.0)
    world.view.update(set_y, filters=world.filters((0, 1)))
    model_y(world, model, [p for p in model.listed() if p < 2])
    return world


def summary(zds, a, b, info):
    return {
        'values': {n: kit.canon_array(v.values)
                   for n, v in zds.variables.items()},
        'dims': {n: tuple(v.dimensions) for n, v in zds.variables.items()},
        'delayed': zds.delayed,
        'args': (a, b),
        'info': info,
    }


def plain(zds, a, *, b):
    return summary(zds, a, b, None)


def informed(zds, a, *, b, partition_info=None):
    return summary(zds, a, b, partition_info)


def pick(values, selected):
    if selected is None:
        return values
    return {k: v for k, v in values.items() if k in selected}


DIMS = {**kit.DIMS, **VARS}


def rows_in(model, parts):
    return sum(len(model.ref[p]) for p in parts)


def run_read(scenario, ctx):
    read, layout, viewed, fs, delayed, selected = scenario
    world = prepare(layout, viewed, fs)
    model = world.model
    reference = world.env.tree(world.env.path('coll'))
    mine = world.env.tree(world.path)
    snap = world.env.snapshot()
    view = world.open()
    for subset in SUBSETS:
        parts = [p for p in model.listed() if p in subset]
        filters = None if len(subset) == 3 else world.filters(subset)
        what = (f'{read} of {subset} in a view on {viewed}, '
                f'variables {selected}, delayed {delayed}')
        if read == 'load':
            options = {} if delayed else {'delayed': False}
            zds = view.load(filters=filters, selected_variables=selected,
                            **options)
            same(world, model, zds, parts, selected, what)
            check(zds is None or zds.delayed == delayed,
                  f'{what}: wrong kind of arrays')
        elif read == 'indexer':
            indexers(world, view, filters, parts, delayed, selected, what)
        elif read in ('map', 'overlap'):
            mapped(world, view, read, filters, parts, delayed, selected, what)
        else:
            updated(world, filters, parts, delayed, selected, what, snap)
            from_reference(world, filters, parts, delayed, what, snap)
        if read != 'update':
            check(world.env.tree(world.path) == mine,
                  f'{what}: the view changed')
        check(world.env.tree(world.env.path('coll')) == reference,
              f'{what}: the reference changed')
        ctx.step()
        ctx.state((scenario, subset))
        ctx.outcome(read)


def same(world, model, zds, parts, selected, what, values=None):
    if not parts:
        check(zds is None, f'{what}: data loaded')
        return
    if values is None:
        values = model.expected(world.layout, parts)
    check(zds is not None, f'{what}: nothing loaded')
    kit.same(pick(values, selected), kit.values_of(zds), what)
    for name, var in zds.variables.items():
        dims = DIMS.get(name, (DIM, ))
        check(tuple(var.dimensions) == dims,
              f'{what}: dimensions {var.dimensions} of {name}')
        if name in ('v1', 'v2'):
            check(var.attrs == kit.variable_props(name)['attrs'],
                  f'{what}: attributes {var.attrs} of {name}')
        elif name in VARS:
            check([(i.name, i.value) for i in var.attrs] == [('role', name)],
                  f'{what}: attributes {var.attrs} of {name}')


def indexers(world, view, filters, parts, delayed, selected, what):
    """Every choice of one slice per partition, and two slices in one."""
    model = world.model
    listed = model.listed()
    options = {
        p: [None] + [[slice(a, b)] for a in range(len(model.ref[p]))
                     for b in range(a + 1, len(model.ref[p]) + 1)]
        for p in range(3)
    }
    options[0].append([slice(0, 1), slice(1, 2)])
    for chosen in itertools.product(*(options[p] for p in range(3))):
        indexer = []
        rows = []
        for p, slices in enumerate(chosen):
            for item in slices or ():
                indexer.append((world.layout.key(p), item))
                if p in parts:
                    start = rows_in(model, [q for q in listed if q < p])
                    rows.extend(range(start + item.start, start + item.stop))
        if not indexer:
            continue
        zds = view.load(delayed=delayed, filters=filters, indexer=indexer,
                        selected_variables=selected)
        values = {
            k: v[rows]
            for k, v in model.expected(world.layout, listed).items()
        } if listed else {}
        same(world, model, zds, rows, selected, f'{what}, indexer {chosen}',
             values)


def window(model, parts, p, depth):
    ix = parts.index(p)
    near = parts[max(0, ix - depth):ix + depth + 1]
    start = rows_in(model, parts[max(0, ix - depth):ix])
    return near, slice(start, start + len(model.ref[p]))


def mapped(world, view, read, filters, parts, delayed, selected, what):
    model = world.model
    if not parts or selected == ():
        return
    for depth, info in (((0, False), ) if read == 'map' else itertools.product(
            (0, 1, 2), (True, False))):
        func = informed if info else plain
        kwargs = dict(delayed=delayed, filters=filters, b=5,
                      selected_variables=selected)
        if delayed:
            del kwargs['delayed']  # the default
        if read == 'map':
            got = view.map(func, 3, **kwargs).compute()
        else:
            if depth != 1 or info:
                kwargs['depth'] = depth  # 1 is the default
            got = view.map_overlap(func, 3, **kwargs).compute()
        keys = [item[0] for item in got]
        check(keys == [world.layout.key(p) for p in parts],
              f'{what}: keys {keys}')
        for p, (_, res) in zip(parts, got):
            near, indices = window(model, parts, p, depth)
            values = pick(model.expected(world.layout, near), selected)
            check(set(values) == set(res['values']),
                  f'{what}: the function was given {sorted(res["values"])}')
            for name, arr in values.items():
                check(kit.canon_array(arr) == res['values'][name],
                      f'{what}, depth {depth}: {name} of partition {p} is '
                      f'not {kit.show(arr)}')
                dims = DIMS.get(name, (DIM, ))
                check(res['dims'][name] == dims,
                      f'{what}: dimensions of {name}')
            check(res['delayed'] == delayed,
                  f'{what}: the function was given delayed={res["delayed"]}')
            check(res['args'] == (3, 5), f'{what}: arguments {res["args"]}')
            want = (DIM, indices) if info else None
            check(res['info'] == want,
                  f'{what}: partition_info {res["info"]}')


def spread(zds, a, *, b):
    x = zds['x'].values
    return {'x': x * a + 1000 * x.sum() + b}


def spread_trimmed(zds, a, *, b, partition_info=None):
    out = spread(zds, a, b=b)['x']
    return {'x': out if partition_info is None else out[partition_info[1]]}


def derived(zds):
    return {'x': numpy.ma.filled(zds['v1'].values, 7) * 2 + 1}


def from_reference(world, filters, parts, delayed, what, snap):
    """The function only asks for variables of the reference."""
    for depth in (0, 1):
        world.env.restore(snap)
        view = world.open()
        model = world.model.clone()
        mine = world.env.tree(world.path)
        try:
            view.update(derived, delayed=delayed, depth=depth,
                        filters=filters, selected_variables=['v1'])
        except ValueError:
            # An overlapping update needs the variable it writes.
            check(depth, f'{what}: refused')
            check(world.env.tree(world.path) == mine,
                  f'{what}: refused but the view has changed')
            continue
        if depth:
            check(not parts, f'{what}: accepted with depth {depth}')
            continue
        for p in parts:
            v1 = model.expected(world.layout, [p])['v1']
            model.parts[p]['data']['x'] = numpy.ma.filled(v1, 7) * 2 + 1.0
        same(world, model, view.load(delayed=False), model.listed(), None,
             f'{what}, from the reference')


def updated(world, filters, parts, delayed, selected, what, snap):
    for depth, trim, npart in itertools.product((0, 1, 2), (True, False),
                                                (None, 1)):
        if depth == 0 and not trim:
            continue
        if delayed and depth:
            # the values of the neighbours are read while they are updated:
            # see C12
            continue
        world.env.restore(snap)
        view = world.open()
        model = world.model.clone()
        options = dict(depth=depth, trim=trim, delayed=delayed)
        if npart is None:
            # the default values are 0, True and True
            options = {
                k: v
                for k, v in options.items()
                if v != {'depth': 0}.get(k, True)
            }
        view.update(spread if trim else spread_trimmed, 3, b=5,
                    filters=filters, npartitions=npart,
                    selected_variables=selected, **options)
        for p in parts:
            near, indices = window(model, parts, p, depth)
            x = numpy.concatenate(
                [world.model.parts[q]['data']['x'] for q in near])
            x = numpy.ma.masked_equal(x, FILL)
            model.parts[p]['data']['x'] = numpy.ma.filled(
                (x * 3 + 1000 * x.sum() + 5)[indices], FILL)
        listed = model.listed()
        same(world, model, view.load(delayed=False), listed, None,
             f'{what}, depth {depth}, trim {trim}, npartitions {npart}')
