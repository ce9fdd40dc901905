"""C05: every operation acts on exactly the partitions its filter selects."""
from __future__ import annotations

import functools
import itertools

import numpy

from mc import kit
from mc.env import Env
from mc.kit import Layout, check
import zcollection
from zcollection.expression import Expression

PROPERTY = 'C05'
LEVEL = 'model_checking'
VALIDATE = 37
RULE = ('every subset of the partitions, written as an expression and as a '
        'function, given to every operation; every expression of a bounded '
        'grammar evaluated on every partition')
ASSUMPTIONS = ['collections of four partitions; expressions of depth 2']

OPS = ('partitions', 'cache', 'load', 'load_delayed', 'map', 'map_overlap',
       'update', 'update_overlap', 'drop', 'copy', 'indexer', 'validate',
       'view_create', 'view_ops')
LAYOUTS = ('date:D', 'date:M', 'date:h', 'seq:a', 'seq:a,b', 'seq:a,b,c')


def scenarios(tier):
    for layout in LAYOUTS:
        for op in OPS:
            for form in ('text', 'callable'):
                for fs in ('mem', 'local'):
                    if fs == 'local' and (tier == 'quick'
                                          and layout not in ('date:D',
                                                             'seq:a,b')):
                        continue
                    yield ('op', layout, op, form, fs)
    # any callable is a filter, and any true value selects
    for layout in ('date:D', 'seq:a,b'):
        for op in OPS:
            for form in FORMS:
                yield ('op', layout, op, form, 'mem')
    for layout in LAYOUTS:
        count = len(Layout(layout).key(0))
        for name in range(count):
            yield ('expr', layout, name)


FORMS = ('integer', 'numpy', 'list', 'none', 'partial', 'object', 'method',
         'arithmetic')


def contains(keys, item):
    return item in keys


class Selection:
    """A filter that is an object."""

    def __init__(self, keys):
        self.keys = keys

    def __call__(self, item):
        return item in self.keys

    def selects(self, item):
        return item in self.keys


ROWS = {
    0: [(0, 0, 1), (0, 2, 1)],
    1: [(1, 1, 1)],
    2: [(2, 0, 1), (2, 1, 1), (2, 3, 1)],
    3: [(3, 5, 1), (3, 6, 1)],
}


def predicate(layout, subset, form):
    keys = [dict(layout.key(p)) for p in subset]
    if form == 'callable':
        return lambda item: item in keys
    if form == 'integer':
        return lambda item: 2 * (item in keys)
    if form == 'numpy':
        return lambda item: numpy.bool_(item in keys)
    if form == 'list':
        return lambda item: [key for key in keys if key == item]
    if form == 'none':
        return lambda item: 'selected' if item in keys else None
    if form == 'partial':
        return functools.partial(contains, keys)
    if form == 'object':
        return Selection(keys)
    if form == 'method':
        return Selection(keys).selects
    if form == 'arithmetic':
        # an expression whose value is a number
        if not subset:
            return f'0 * {layout.key(0)[0][0]}'
        return ' + '.join(
            '2 * (' + ' and '.join(f'{k} == {v}' for k, v in layout.key(p)) +
            ')' for p in subset)
    if not subset:
        return f'{layout.key(0)[0][0]} == -12345'
    return ' or '.join(
        '(' + ' and '.join(f'{k} == {v}' for k, v in layout.key(p)) + ')'
        for p in subset)


def rows_of(parts):
    return [row for p in sorted(parts) for row in ROWS[p]]


CALLS: list = []


def record(item):
    CALLS.append(item)


def negate(zds):
    record(kit.show(zds.variables['time'].values))
    return {'v1': zds.variables['v1'].values * 0 - 5.0}


SEEN: list = []


def seen(items):
    SEEN.extend(items)


def negate_seen(zds):
    seen(zds.variables['time'].values.tolist())
    return {'v1': zds.variables['v1'].values * 0 - 5.0}


def expected(layout, parts, updated=()):
    arrays = kit.arrays_for(layout, rows_of(parts))
    want = kit.expected_values(arrays)
    mask = numpy.array([row[0] in updated for row in rows_of(parts)], bool)
    if mask.any():
        v1 = numpy.ma.array(want['v1'], copy=True)
        gone = numpy.ma.getmaskarray(v1) & mask
        v1[mask] = -5.0
        # computing with a missing cell, or with NaN, gives the same again
        v1[mask & numpy.isnan(arrays['v1'])] = numpy.nan
        v1[gone] = numpy.ma.masked
        want['v1'] = v1
    return want


class World:

    def __init__(self, layout, fs):
        self.layout = Layout(layout)
        self.env = Env(fs)
        zds = kit.make_ds(kit.arrays_for(self.layout, rows_of(ROWS)))
        self.coll = kit.create(self.env, self.layout, zds)
        self.coll.insert(zds)
        self.base = self.coll.partition_properties.dir
        self.snap = self.env.snapshot()


def run(scenario, ctx):
    with kit.policy(ctx.real, workers=3), kit.quiet():
        if scenario[0] == 'expr':
            return run_expr(scenario, ctx)
        _, layout, op, form, fs = scenario
        world = World(layout, fs)
        for size in range(5):
            for subset in itertools.combinations(range(4), size):
                world.env.restore(world.snap)
                filters = predicate(world.layout, subset, form)
                ctx.step()
                ctx.state((scenario, subset))
                run_op(world, op, subset, filters,
                       f'{op} of {subset} by {form}')
                ctx.outcome(f'{op} of {size}')
    return None


def names(world, parts):
    return [world.layout.dirname(p) for p in parts]


def check_content(world, parts, updated, what):
    got = list(world.coll.partitions(relative=True))
    check(got == names(world, parts), f'{what}: left {got}')
    zds = world.coll.load(delayed=False)
    if parts:
        kit.same(expected(world.layout, parts, updated), kit.values_of(zds),
                 what)
    else:
        check(zds is None, f'{what}: data left')


def run_op(world, op, subset, filters, what):
    coll, layout, env = world.coll, world.layout, world.env
    everything = range(4)
    if op == 'partitions':
        got = list(coll.partitions(filters=filters, relative=True))
        check(got == names(world, subset), f'{what}: {got}')
        got = list(coll.partitions(filters=filters, lock=True))
        check(got == [f'{world.base}/{n}' for n in names(world, subset)],
              f'{what}: {got}')
    elif op == 'cache':
        paths = [f'{world.base}/{n}' for n in names(world, [3, 1, 2])]
        got = list(coll.partitions(filters=filters, cache=paths))
        want = [
            f'{world.base}/{n}'
            for n in names(world, [p for p in (3, 1, 2) if p in subset])
        ]
        check(got == want, f'{what}: {got} instead of {want}')
    elif op in ('load', 'load_delayed'):
        zds = coll.load(filters=filters, delayed=op == 'load_delayed')
        if subset:
            kit.same(expected(layout, subset), kit.values_of(zds), what)
        else:
            check(zds is None, f'{what}: data loaded')
    elif op == 'map' or op == 'map_overlap':
        if not subset:
            return  # a bag of nothing cannot be computed
        if op == 'map':
            bag = coll.map(lambda zds: kit.show(zds['time'].values),
                           filters=filters, delayed=False)
        else:
            bag = coll.map_overlap(lambda zds: kit.show(zds['time'].values),
                                   filters=filters, depth=0)
        got = dict(bag.compute())
        want = {
            layout.key(p): kit.show(
                kit.arrays_for(layout, ROWS[p])['time'])
            for p in subset
        }
        check(got == want, f'{what}: {got} instead of {want}')
    elif op == 'update':
        # the function is given nothing but the partitions selected, even
        # when it is called to find out what it returns
        given = {
            kit.show(kit.arrays_for(layout, ROWS[p])['time'])
            for p in subset
        }
        for kwargs in ({}, {'variables': ['v1']}):
            env.restore(world.snap)
            CALLS.clear()
            coll.update(negate, filters=filters, **kwargs)
            check(set(CALLS) == given, f'{what}, {kwargs}: the function was '
                  f'given {CALLS} instead of {given}')
            check_content(world, everything, subset, f'{what}, {kwargs}')
    elif op == 'update_overlap':
        times = {
            item
            for p in range(4) if p not in subset for item in
            kit.arrays_for(layout, ROWS[p])['time'].tolist()
        }
        for kwargs in ({}, {'variables': ['v1']}):
            env.restore(world.snap)
            SEEN.clear()
            coll.update(negate_seen, filters=filters, depth=1, **kwargs)
            check(not times & set(SEEN), f'{what}, {kwargs}: the function '
                  'was given a partition that is not selected')
            check_content(world, everything, subset, f'{what}, {kwargs}')
    elif op == 'drop':
        got = list(coll.drop_partitions(filters=filters))
        check(got == [f'{world.base}/{n}' for n in names(world, subset)],
              f'{what}: reported {got}')
        check_content(world, [p for p in everything if p not in subset], (),
                      what)
    elif op == 'copy':
        other = coll.copy(env.path('copy'), filters=filters,
                          filesystem=env.fs)
        got = list(other.partitions(relative=True))
        check(got == names(world, subset), f'{what}: {got}')
        zds = other.load(delayed=False)
        if subset:
            kit.same(expected(layout, subset), kit.values_of(zds), what)
        check_content(world, everything, (), what)
    elif op == 'indexer':
        indexer = [(layout.key(p), slice(0, 1)) for p in (0, 2, 3)]
        zds = coll.load(filters=filters, indexer=indexer, delayed=False)
        rows = [ROWS[p][0] for p in (0, 2, 3) if p in subset]
        if rows:
            kit.same(kit.expected_values(kit.arrays_for(layout, rows)),
                     kit.values_of(zds), what)
        else:
            check(zds is None, f'{what}: data loaded')
    elif op == 'validate':
        # damage two partitions
        for p in (1, 2):
            env.fs.rm(f'{world.base}/{layout.dirname(p)}/.zmetadata')
            with env.fs.open(f'{world.base}/{layout.dirname(p)}/v1/.zarray',
                             'wb') as stream:
                stream.write(b'{')
            with env.fs.open(f'{world.base}/{layout.dirname(p)}/.zmetadata',
                             'wb') as stream:
                stream.write(b'{')
        env.fs.invalidate_cache()
        got = sorted(coll.validate_partitions(filters=filters))
        want = sorted(f'{world.base}/{n}'
                      for n in names(world, [p for p in (1, 2)
                                             if p in subset]))
        check(got == want, f'{what}: {got} instead of {want}')
    elif op == 'view_create':
        view = zcollection.create_view(
            env.path('view'),
            zcollection.view.ViewReference(env.path('coll'), env.fs),
            filesystem=env.fs, filters=filters)
        got = kit.relative(view.partitions(), env.path('view'))
        check(got == names(world, subset), f'{what}: {got}')
    elif op == 'view_ops':
        view = zcollection.create_view(
            env.path('view'),
            zcollection.view.ViewReference(env.path('coll'), env.fs),
            filesystem=env.fs)
        view.add_variable(
            zcollection.meta.Variable('w', numpy.dtype('float64'), dimensions=
                                      (kit.DIM, ), fill_value=-1.0))
        got = kit.relative(view.partitions(filters=filters),
                           env.path('view'))
        check(got == names(world, subset), f'{what}: {got}')
        if subset:
            zds = view.load(filters=filters, delayed=False,
                            selected_variables=['time', 'w'])
            check(
                kit.canon_array(zds['time'].values) == kit.canon_array(
                    kit.arrays_for(layout, rows_of(subset))['time']),
                f'{what}: view.load')
            got = dict(
                view.map(lambda z: kit.show(z['time'].values),
                         filters=filters, delayed=False).compute())
            want = {
                layout.key(p): kit.show(
                    kit.arrays_for(layout, ROWS[p])['time'])
                for p in subset
            }
            check(got == want, f'{what}: view.map {got}')
        view.update(lambda z: {'w': z['v1'].values * 0 + 2.0},
                    filters=filters)
        zds = view.load(delayed=False, selected_variables=['time', 'w'])
        rows = rows_of(everything)
        got = kit.show(zds['w'].values)
        v1 = kit.arrays_for(layout, rows)['v1']
        want = numpy.ma.masked_all(len(rows))
        for ix, row in enumerate(rows):
            if row[0] in subset and v1[ix] != kit.FILL_F:
                want[ix] = numpy.nan if numpy.isnan(v1[ix]) else 2.0
        check(got == kit.show(want),
              f'{what}: view.update wrote {got} instead of {kit.show(want)}')
    else:
        raise AssertionError(op)


# -- expressions ---------------------------------------------------------------
def atoms(key, value):
    """(text, reference) pairs on one key, around one of its values."""
    out = []
    for off in (-1, 0, 1):
        const = value + off
        out += [
            (f'{key} == {const}', lambda k, c=const: k[key] == c),
            (f'{key} != {const}', lambda k, c=const: k[key] != c),
            (f'{key} < {const}', lambda k, c=const: k[key] < c),
            (f'{key}<={const}', lambda k, c=const: k[key] <= c),
            (f'{key} > {const}', lambda k, c=const: k[key] > c),
            (f'{key} >= {const}', lambda k, c=const: k[key] >= c),
            (f'{const} <= {key} < {const + 2}',
             lambda k, c=const: c <= k[key] < c + 2),
            (f'{key} in range({const}, {const + 2})',
             lambda k, c=const: c <= k[key] < c + 2),
            (f'{key} in ({const}, {const + 5})',
             lambda k, c=const: k[key] in (c, c + 5)),
            (f'{key} not in [{const}]', lambda k, c=const: k[key] != c),
            (f'{key} % 2 == {const % 2}',
             lambda k, c=const: k[key] % 2 == c % 2),
            (f'{key} + 1 == {const}', lambda k, c=const: k[key] + 1 == c),
        ]
    return out


def run_expr(scenario, ctx):
    _, name, which = scenario
    layout = Layout(name)
    keys = [dict(layout.key(p)) for p in range(4)]
    key = layout.key(0)[which][0]
    other = layout.key(0)[-1][0]
    one = atoms(key, keys[1][key])
    two = atoms(other, keys[2][other])[::5]
    exprs = list(one)
    for text, ref in one:
        exprs.append((f'not ({text})', lambda k, r=ref: not r(k)))
        for text2, ref2 in two:
            exprs.append((f'{text} and {text2}',
                          lambda k, r=ref, s=ref2: r(k) and s(k)))
            exprs.append((f'{text} or {text2}',
                          lambda k, r=ref, s=ref2: r(k) or s(k)))
            exprs.append((f'({text}) == ({text2})',
                          lambda k, r=ref, s=ref2: r(k) == s(k)))
    world = World(name, 'mem')
    for ix, (text, ref) in enumerate(exprs):
        expr = Expression(text)
        ctx.state((name, text))
        for item in keys:
            ctx.step()
            got, want = bool(expr(dict(item))), bool(ref(item))
            check(got == want, f'{text!r} is {got} for {item}')
        if ix % 10 == 0:
            got = list(world.coll.partitions(filters=text, relative=True))
            want = [layout.dirname(p) for p in range(4) if ref(keys[p])]
            check(got == want, f'{text!r} selects {got} instead of {want}')
        ctx.outcome('expression')
    for text in ('unknown == 1', f'{key} == unknown',
                 f'{key} == 1 or open("x")'):
        try:
            got = list(world.coll.partitions(filters=text))
        except NameError:
            continue
        check(False, f'{text!r} was accepted: {got}')
