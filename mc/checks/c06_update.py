"""C06: an update writes exactly what the function returns, where it must."""
from __future__ import annotations

import itertools
import warnings

import dask.array
import numpy

from mc import kit, overlap
from mc.kit import DIM, check
from zcollection import dataset
from mc.overlap import ROWS, World, arrays, rows_of

PROPERTY = 'C06'
LEVEL = 'model_checking'
VALIDATE = 41
RULE = ('every subset of the partitions x every depth, trim, laziness, '
        'selection of variables, batch size, kind of function')
ASSUMPTIONS = ['collections of four partitions of 1 to 3 records']

#: name -> (variables written, uses partition_info)
FUNCS = {
    'affine': ('v1', 'v2'),
    'window': ('w', ),
    'info': ('w', ),
    'transposed': ('v3', 'w'),
    'dask': ('w', ),
    'constant': ('v1', ),
    'masked': ('z', 'v1'),
    'lazy': ('v2', 'w'),
}
SUBSETS = [
    s for size in range(5) for s in itertools.combinations(range(4), size)
]


def scenarios(tier):
    layouts = ('date:D', 'seq:a,b') if tier == 'quick' else (
        'date:D', 'date:Y', 'date:s', 'seq:a', 'seq:a,b', 'seq:a,b,c')
    for layout in layouts:
        for func in FUNCS:
            for depth in (0, 1, 2, 3):
                for trim in (True, False):
                    if depth == 0 and not trim:
                        continue
                    if tier == 'quick' and depth == 3 and func != 'window':
                        continue
                    if tier == 'quick' and func in (
                            'masked', 'constant', 'lazy') and (
                            depth > 1 or not trim):
                        continue
                    for delayed in (True, False):
                        if func in ('dask', 'lazy') and not delayed:
                            continue
                        for given in (True, False):
                            if not given and depth and not trim:
                                continue  # infers on an untrimmed result
                            for selected in (False, True):
                                for npart, workers, lazy in ((None, 3, False),
                                                             (1, 1, True),
                                                             (2, 2, True)):
                                    if tier == 'quick' and layout != 'date:D'\
                                            and (npart == 1 or depth > 1):
                                        continue
                                    yield (layout, func, depth, trim, delayed,
                                           given, selected, npart, workers,
                                           lazy, 'mem')
    for func in FUNCS:
        for depth in (0, 1):
            yield ('date:D', func, depth, True, True, True, False, None, 3,
                   False, 'local')
            yield ('date:D', func, depth, True, True, True, False, None, 3,
                   False, 'memc')


    for layout in layouts:
        for wrong in WRONG:
            for name in ('v1', 'v2', 'w'):
                for delayed in (True, False):
                    for depth in (0, 1):
                        yield ('wrong', layout, wrong, name, delayed, depth)
    for layout in layouts:
        for right in RIGHT:
            for delayed in (True, False):
                yield ('right', layout, right, delayed)


#: results that do not hold one value per record
WRONG = {
    'short': lambda arr: arr[:-1],
    'long': lambda arr: numpy.concatenate([arr, arr[:1]]),
    'empty': lambda arr: arr[:0],
    'twice': lambda arr: numpy.concatenate([arr, arr]),
    'added axis': lambda arr: arr[numpy.newaxis],
}
#: other ways to give the values
RIGHT = {
    'list': lambda arr: arr.tolist(),
    'strided': lambda arr: numpy.repeat(arr, 2)[::2],
    'reversed': lambda arr: arr[::-1].copy()[::-1],
    'fortran': lambda arr: numpy.asfortranarray(arr),
    'float32': lambda arr: arr.astype('float32'),
    'int64': lambda arr: arr.astype('int64'),
    'bool': lambda arr: arr > 0,
    'big endian': lambda arr: arr.astype('>f8'),
    'readonly': lambda arr: numpy.broadcast_to(arr, arr.shape),
    'one value': lambda arr: 7.0,
}


def run_wrong(scenario, ctx):
    """A result that does not fit is refused, and no other partition gets
    anything else than its own values."""
    _, layout, wrong, name, delayed, depth = scenario
    world = World(layout, 'mem')
    form = WRONG[wrong]
    for p in range(4):
        world.env.restore(world.snap)
        first = arrays(world.layout, ROWS[p])['src'][0]

        def func(zds, p=p, first=first):
            src = numpy.asarray(zds.variables['src'].values)
            res = numpy.asarray(zds.variables[name].values) * 0 + 5
            return {name: form(res) if first in src else res}

        error = None
        try:
            world.coll.update(func, variables=(name, ), delayed=delayed,
                              filters=world.filters((p, )), depth=depth)
        except Exception as exc:  # pylint: disable=broad-except
            error = exc
        what = f'{wrong} result for {name}, partition {p}, depth {depth}'
        ctx.step()
        ctx.state((scenario, p))
        # with an overlap, what exceeds the partition is trimmed
        if depth and wrong in ('long', 'twice'):
            continue
        if wrong == 'added axis' and (len(ROWS[p]) == 1 or depth):
            continue  # one record: numpy accepts it
        if wrong == 'short' and len(ROWS[p]) == 2:
            # one value for two records: numpy spreads it
            continue
        if wrong == 'empty' and len(ROWS[p]) == 0:
            continue
        check(error is not None, f'{what}: accepted')
        check(world.env.tree() == world.tree,
              f'{what}: refused, but the collection is modified')
        ctx.outcome('refused')


def run_right(scenario, ctx):
    _, layout, right, delayed = scenario
    world = World(layout, 'mem')
    form = RIGHT[right]
    for subset in SUBSETS:
        world.env.restore(world.snap)

        def func(zds):
            arr = zds.variables['src'].values * 2 + 1
            return {'w': form(numpy.asarray(arr))}

        world.coll.update(func, variables=('w', ), delayed=delayed,
                          filters=world.filters(subset))
        ref = arrays(world.layout, rows_of(range(4)))
        for p in subset:
            first = len(rows_of(range(p)))
            dest = slice(first, first + len(ROWS[p]))
            ref['w'][dest] = numpy.asarray(form(ref['src'][dest] * 2 + 1))
        kit.same(kit.expected_values(ref),
                 kit.values_of(world.coll.load(delayed=False)),
                 f'{right} result, partitions {subset}')
        ctx.step()
        ctx.state((scenario, subset))
        ctx.outcome(right)


def cut(result, layout, partition_info, trim):
    """The function trims its result itself when it is asked to."""
    if trim or partition_info is None:
        return result
    dim, indices = partition_info
    out = {}
    for name, arr in result.items():
        axis = 1 if name == 'v3' else 0
        key = [slice(None)] * arr.ndim
        key[axis] = indices
        out[name] = arr[tuple(key)]
    return out


CALLS: list = []


def record(*args):
    CALLS.append(args)


def values(zds, name):
    return zds.variables[name].values


def lazy_values(zds, name):
    return zds.variables[name].data


def compute(func, get, a, b, info):
    """The computation itself, on plain arrays (``get`` returns them)."""
    if func == 'affine':
        return {'v1': get('v1') * 2 + a, 'v2': get('v2') * 2 + b}
    if func == 'constant':
        return {'v1': numpy.full(get('src').shape, a + b, 'int16')}
    src = get('src').astype('float64')
    if func == 'masked':
        # what lies under the mask must not be stored
        mask = get('src') % 2 == 1
        return {
            'z': numpy.ma.masked_array(src + a, mask),
            'v1': numpy.ma.masked_array(src + b, ~mask)
        }
    if func == 'lazy':
        # two variables computed from one of them
        return {'v2': get('v2') * 2 + b, 'w': get('v2')[:, 0] * 3.0 + a}
    if func in ('window', 'dask'):
        return {'w': src.cumsum() + 1000 * src.sum() + a * b}
    if func == 'transposed':
        return {
            'v3': get('v3')[::-1, :] + numpy.int32(a),
            'w': src * 7 + src.sum()
        }
    assert func == 'info'
    out = src + 1000 * src.sum()
    if info is not None:
        out[info[1]] += 1e6
        out[:info[1].start] += 2e6
    return {'w': out}


def make(func, trim, lazy_result):
    uses_info = func in ('info', 'dask') or not trim

    def body(zds, a, b, partition_info):
        names = sorted(zds.variables)
        # the record of what the function was given
        src = values(zds, 'src')
        record(tuple(numpy.asarray(src).tolist()), tuple(names),
               partition_info, zds.delayed)
        get = values
        if func == 'lazy':
            # nothing is read before the function returns
            get = lazy_values
        res = compute(func, lambda name: get(zds, name), a, b,
                      partition_info if func == 'info' else None)
        if lazy_result:
            res = {k: dask.array.from_array(v) for k, v in res.items()}
        return cut(res, None, partition_info, trim)

    if uses_info:

        def with_info(zds, a, *, b, partition_info=None):
            return body(zds, a, b, partition_info)

        return with_info

    def without_info(zds, a, *, b):
        return body(zds, a, b, None)

    return without_info


def run(scenario, ctx):
    if scenario[0] in ('wrong', 'right'):
        with kit.policy(ctx.real, workers=2), kit.quiet():
            return {'wrong': run_wrong, 'right': run_right}[scenario[0]](
                scenario, ctx)
    (layout, func, depth, trim, delayed, given, selected, npart, workers, lazy,
     fs) = scenario
    with kit.policy(ctx.real, workers=workers, eager=not lazy,
                    order='lifo'), kit.quiet():
        world = World(layout, fs, chunks=[dataset.Dimension(DIM, 2)] if selected else None)
        for subset in SUBSETS:
            world.env.restore(world.snap)
            what = f'update({func}) of partitions {subset}'
            one(world, subset, what, *scenario[1:9])
            ctx.step()
            ctx.state((scenario, subset))
            ctx.outcome(f'{func} depth {depth}')


def one(world, subset, what, func, depth, trim, delayed, given, selected,
        npart, workers):
    CALLS.clear()
    targets = FUNCS[func]
    kwargs = {}
    # Variables the function reads, and one that it does not.
    wanted = None
    if selected:
        wanted = ['src', 'v1', 'v2', 'v3']
        kwargs['selected_variables'] = list(wanted)
    if given:
        kwargs['variables'] = tuple(targets)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        options = dict(depth=depth, trim=trim, delayed=delayed)
        if npart is None:
            # the default values are 0, True and True
            options = {
                k: v
                for k, v in options.items()
                if v != {'depth': 0}.get(k, True)
            }
        world.coll.update(make(func, trim, func == 'dask'), 3, b=5, **options,
                          filters=world.filters(subset), npartitions=npart,
                          **kwargs)
    if selected:
        check(kwargs['selected_variables'] == wanted,
              f'{what}: the list of the caller became '
              f'{kwargs["selected_variables"]}')
    if not subset and not given:
        check(any(w.category is RuntimeWarning for w in caught),
              f'{what}: no warning for an empty selection')

    # 1. what the function was given: once per partition
    want = []
    for p in subset:
        parts, indices = world.window(subset, p, depth)
        src = arrays(world.layout, rows_of(parts))['src']
        info = (DIM, indices)
        want.append((tuple(src.tolist()), info))
    seen = list(CALLS)
    if not given and subset:
        seen = seen[1:]  # the call that infers the variables
    check(sorted(c[0] for c in seen) == sorted(w[0] for w in want),
          f'{what}: the function was given {[c[0] for c in seen]} instead of '
          f'{[w[0] for w in want]}')
    check(all(c[3] == delayed for c in seen),
          f'{what}: {delayed=}, the function was given {[c[3] for c in seen]}')
    if depth and (func in ('info', 'dask') or not trim):
        got = sorted((c[0], c[2][0], c[2][1].start, c[2][1].stop)
                     for c in seen)
        ref = sorted((w[0], w[1][0], w[1][1].start, w[1][1].stop)
                     for w in want)
        check(got == ref, f'{what}: partition_info {got} instead of {ref}')
    if selected:
        names = set(wanted) | (set(targets) if depth else set())
        for call in seen:
            check(
                set(call[1]) == names,
                f'{what}: the function was given the variables {call[1]}')

    # 2. what is stored
    all_rows = rows_of(range(4))
    ref = arrays(world.layout, all_rows)
    expected = kit.expected_values(ref)
    for p in subset:
        parts, indices = world.window(subset, p, depth)
        window = kit.expected_values(arrays(world.layout, rows_of(parts)))
        info = (DIM, indices) if (func == 'info' and depth) else None
        result = compute(func, lambda n: window[n], 3, 5, info)
        first = len(rows_of(range(p)))
        for name, arr in result.items():
            key = (slice(None), ) if name == 'v3' else ()
            dest = key + (slice(first, first + len(ROWS[p])), )
            part = arr[key + (indices, )]
            if isinstance(expected[name], numpy.ma.MaskedArray):
                expected[name] = numpy.ma.array(expected[name], copy=True)
            else:
                expected[name] = numpy.array(expected[name])
            expected[name][dest] = part
    zds = world.coll.load(delayed=False)
    for name in ('v1', 'v2', 'z'):
        fill = kit.variable_props(name)['fill_value']
        expected[name] = numpy.ma.masked_equal(
            numpy.ma.filled(expected[name].astype(ref[name].dtype), fill),
            fill)
    kit.same(expected, kit.values_of(zds), what)

    # 3. nothing else moved
    tree = world.env.tree()
    allowed = tuple(f'coll/{world.layout.dirname(p)}/{name}/' for p in subset
                    for name in targets)
    for name in set(tree) | set(world.tree):
        if tree.get(name) != world.tree.get(name) and not (
                allowed and name.startswith(allowed)):
            check(False, f'{what}: the file {name} changed')
