"""C02: a dataset is split into its partitions exactly."""
from __future__ import annotations

import itertools

import dask.array
import numpy

from mc import kit
from mc.env import Env
from mc.kit import Violation, check
from zcollection import dataset, partitioning

PROPERTY = 'C02'
LEVEL = 'model_checking'
VALIDATE = 0
RULE = ('every sequence of keys up to the stated length over an alphabet of '
        'boundary keys, in memory and through every block layout of a lazy '
        'array; the expected groups come from the keys by a linear scan')
ASSUMPTIONS = ['bounded number of records and keys per dataset']

# Instants on both sides of calendar boundaries, before and after the epoch,
# years with and without a leap day.
INSTANTS = {
    'new year': [
        '1999-12-31T23:59:59.999999', '2000-01-01T00:00:00',
        '2000-01-01T00:00:01', '2001-01-01T00:00:00'
    ],
    'leap': [
        '2000-02-28T23:59:59.999999', '2000-02-29T00:00:00',
        '2000-02-29T23:59:59.999999', '2000-03-01T00:00:00'
    ],
    'epoch': [
        '1969-12-31T23:59:58.5', '1969-12-31T23:59:59.999999',
        '1970-01-01T00:00:00', '1970-01-01T00:00:00.000001'
    ],
    'minute': [
        '2010-10-10T09:59:59.999999', '2010-10-10T10:00:00',
        '2010-10-10T10:00:59.999999', '2010-10-10T10:01:00'
    ],
    'old': [
        '1950-02-28T00:00:00', '1950-03-01T12:00:00', '1950-12-31T23:00:00',
        '1951-01-01T00:00:00'
    ],
    'far past': [
        '1599-12-31T23:59:59', '1600-02-29T12:59:59', '1600-03-01T00:00:01',
        '1677-09-21T00:12:43'
    ],
    'far future': [
        '2262-04-12T00:00:00', '2300-02-28T23:59:59', '2300-03-01T00:00:00',
        '9999-12-31T23:59:59'
    ],
}
# Instants a 64-bit number of nanoseconds cannot represent.
FAR = ('far past', 'far future')
UNITS = ('ns', 'us', 'ms', 's')
COARSE = ('m', 'h', 'D')
RES = 'YMDhms'

# Key alphabets for the sequences of 1, 2 and 3 fields.
KEYS = {
    1: [[(0, ), (1, ), (9, ), (10, )], [(-2, ), (-1, ), (0, ), (100, )],
        [(1, ), (2**31, ), (2**32 + 1, ), (2**62, )]],
    2: [[(1, 2**33 + 1), (1, 2**33 + 2), (2**33 + 1, 1), (2**33 + 1, 2)],
        [(1, 1), (1, 2), (2, 1), (2, 2)], [(9, 10), (10, 9), (10, 10),
                                           (9, 11)]],
    3: [[(1, 1, 2), (1, 2, 1), (2, 1, 1), (1, 2, 2)]],
}
DTYPES = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
          'uint64')


def sequences(alphabet, length):
    """All the sequences of 1..length elements (as index tuples)."""
    for size in range(1, length + 1):
        yield from itertools.product(range(alphabet), repeat=size)


def block_layouts(size, tier):
    """Every composition of ``size`` (the block sizes of a lazy array)."""
    out = []
    for cuts in itertools.product((0, 1), repeat=size - 1):
        blocks, current = [], 1
        for cut in cuts:
            if cut:
                blocks.append(current)
                current = 1
            else:
                current += 1
        blocks.append(current)
        out.append(tuple(blocks))
    return out


def scenarios(tier):
    length = 4 if tier == 'quick' else 5
    for name in INSTANTS:
        for unit in UNITS + COARSE:
            if unit == 'ns' and name in FAR:
                continue
            for res in RES:
                if tier == 'quick' and unit in ('ms', 's', 'm', 'h') and res in 'Yhm':
                    continue
                short = tier == 'quick' and (unit in COARSE or name in FAR)
                yield ('date', name, unit, res, 3 if short else length)
    for nb, alphabets in KEYS.items():
        for ix in range(len(alphabets)):
            for dtype in DTYPES:
                if min(min(k) for k in alphabets[ix]) < 0 and dtype[0] == 'u':
                    continue
                if max(max(k) for k in alphabets[ix]) > numpy.iinfo(dtype).max:
                    continue
                yield ('seq', nb, ix, dtype, length)
    # longer runs over two keys: the boundaries between many blocks
    for size in (6, 7) if tier == 'quick' else (8, 9):
        yield ('runs', 'date', size)
        yield ('runs', 'seq', size)
    # many records: the positions do not fit in a small integer
    for kind in ('date', 'seq'):
        for size in (260, 1030, 33000, 70000):
            for delayed in (False, True):
                yield ('long', kind, size, delayed)
    for kind in ('date:D', 'seq:a', 'seq:a,b'):
        for delayed in (False, True):
            yield ('insert', kind, delayed)


def groups(keys):
    """Expected result: [(key, start, stop)] or None when the keys are not
    sorted (a key comes back, or decreases)."""
    out = []
    for ix, key in enumerate(keys):
        if out and out[-1][0] == key:
            out[-1][2] = ix + 1
        else:
            out.append([key, ix, ix + 1])
    order = [item[0] for item in out]
    if any(b <= a for a, b in zip(order, order[1:])):
        return None
    return [tuple(item) for item in out]


def compare(ctx, handler, arrays, keys, names, delayed, blocks, what):
    cls = dataset.DelayedArray if delayed else dataset.Array
    zds = dataset.Dataset([
        cls(name,
            dask.array.from_array(arr, chunks=(blocks, )) if delayed else arr,
            ('x', )) for name, arr in arrays.items()
    ])
    want = groups(keys)
    ctx.step()
    try:
        got = [(part, ix['x'].start, ix['x'].stop, ix['x'].step, list(ix))
               for part, ix in handler.split_dataset(zds, 'x')]
    except ValueError:
        check(want is None, f'{what}: sorted keys {keys} were rejected')
        ctx.outcome('rejected')
        return
    check(want is not None,
          f'{what}: unsorted keys {keys} accepted as {got}')
    expected = [(names(key), start, stop, None, ['x'])
                for key, start, stop in want]
    check(
        [g[:1] + (int(g[1]), int(g[2])) + g[3:] for g in got] == expected,
        f'{what}: keys {keys} split as {got} instead of {expected}')
    ctx.outcome(f'{len(want)} partitions')


def date_key(instant, res):
    text = str(instant.astype('datetime64[s]'))
    year, month, day = text[:10].split('-')
    hour, minute, second = text[11:].split(':')
    return tuple(
        int(v) for v in (year, month, day, hour, minute,
                         second))[:RES.index(res) + 1]


NAMES = ('year', 'month', 'day', 'hour', 'minute', 'second')


def run_date(scenario, ctx):
    _, name, unit, res, length = scenario
    texts = INSTANTS[name]
    if unit in COARSE:
        # cut the text itself
        keep = {'m': 16, 'h': 13, 'D': 10}[unit]
        texts = [t[:keep] + '0000-00-00T00:00:00'[keep:] for t in texts]
    if name in FAR:
        values = [numpy.datetime64(t, unit) for t in texts]
    else:
        # floor to the unit ourselves, with integer arithmetic on the text
        values = [numpy.datetime64(t, 'ns') for t in texts]
        step = {'ns': 1, 'us': 10**3, 'ms': 10**6, 's': 10**9,
                'm': 60 * 10**9, 'h': 3600 * 10**9,
                'D': 86400 * 10**9}[unit]
        values = [
            numpy.datetime64(int(v.astype('int64')) // step, unit)
            for v in values
        ]
    keys = [date_key(numpy.datetime64(t.split('.')[0]), res) for t in texts]
    handler = partitioning.Date(('time', ), res)
    names = lambda key: tuple(f'{n}={v:02d}' for n, v in zip(NAMES, key))
    for seq in sequences(4, length):
        arr = numpy.array([values[i] for i in seq],
                          dtype=f'datetime64[{unit}]')
        key = [keys[i] for i in seq]
        ctx.state((scenario[1:4], seq))
        what = f'{name} [{unit}] by {res}'
        compare(ctx, handler, {'time': arr}, key, names, False, None, what)
        layouts = block_layouts(len(seq), ctx.tier)
        if ctx.tier == 'quick':
            # one layout per sequence, all of them in turn
            layouts = [layouts[sum(seq) % len(layouts)]]
        for blocks in layouts:
            compare(ctx, handler, {'time': arr}, key, names, True, blocks,
                    f'{what} lazy{blocks}')


def run_seq(scenario, ctx):
    _, nb, which, dtype, length = scenario
    alphabet = KEYS[nb][which]
    fields = ('alpha', 'beta', 'gamma')[:nb]
    handler = partitioning.Sequence(fields)
    names = lambda key: tuple(f'{n}={v}' for n, v in zip(fields, key))
    for seq in sequences(len(alphabet), length):
        key = [alphabet[i] for i in seq]
        arrays = {
            field: numpy.array([k[i] for k in key], dtype=dtype)
            for i, field in enumerate(fields)
        }
        ctx.state((scenario[1:4], seq))
        what = f'{fields} {dtype}'
        compare(ctx, handler, arrays, key, names, False, None, what)
        layouts = block_layouts(len(seq), ctx.tier)
        if ctx.tier == 'quick':
            layouts = [layouts[(sum(seq) + len(seq)) % len(layouts)]]
        for blocks in layouts:
            compare(ctx, handler, arrays, key, names, True, blocks,
                    f'{what} lazy{blocks}')


def run_runs(scenario, ctx):
    """Every block layout against every sorted run pattern."""
    _, kind, size = scenario
    for cut1 in range(0, size + 1):
        for cut2 in range(cut1, size + 1):
            idx = [0] * cut1 + [1] * (cut2 - cut1) + [2] * (size - cut2)
            if kind == 'date':
                handler = partitioning.Date(('time', ), 'D')
                days = ['1999-12-31', '2000-01-01', '2000-03-01']
                arrays = {
                    'time':
                    numpy.array([days[i] for i in idx], dtype='datetime64[ns]')
                }
                key = [date_key(numpy.datetime64(days[i]+'T00:00:00'), 'D') for i in idx]
                names = lambda k: tuple(f'{n}={v:02d}'
                                        for n, v in zip(NAMES, k))
            else:
                handler = partitioning.Sequence(('a', 'b'))
                alphabet = [(1, 5), (2, 5), (2, 7)]
                key = [alphabet[i] for i in idx]
                arrays = {
                    'a': numpy.array([k[0] for k in key]),
                    'b': numpy.array([k[1] for k in key]),
                }
                names = lambda k: (f'a={k[0]}', f'b={k[1]}')
            layouts = block_layouts(size, ctx.tier)
            if ctx.tier == 'quick':
                layouts = layouts[(cut1 + cut2) % 5::5]
            for blocks in layouts:
                ctx.state((scenario, cut1, cut2, blocks))
                compare(ctx, handler, arrays, key, names, True, blocks,
                        f'runs {kind} lazy{blocks}')


def run_long(scenario, ctx):
    """Two boundaries anywhere around the powers of two."""
    _, kind, size, delayed = scenario
    cuts = sorted({0, 1, size - 1, size} | {
        2**n + off
        for n in (7, 8, 10, 15, 16)
        for off in (-1, 0, 1) if 2**n + off <= size
    })
    for cut1, cut2 in itertools.combinations_with_replacement(cuts, 2):
        spans = [cut1, cut2 - cut1, size - cut2]
        if kind == 'date':
            handler = partitioning.Date(('time', ), 'D')
            days = ['1999-12-31', '2000-01-01', '2000-03-01']
            alphabet = [date_key(numpy.datetime64(d + 'T00:00:00'), 'D')
                        for d in days]
            arrays = {
                'time': numpy.repeat(numpy.array(days, 'datetime64[ns]'),
                                     spans)
            }
            names = lambda k: tuple(f'{n}={v:02d}' for n, v in zip(NAMES, k))
        else:
            handler = partitioning.Sequence(('a', 'b'))
            alphabet = [(1, 5), (2, 5), (2, 7)]
            arrays = {
                'a': numpy.repeat([1, 2, 2], spans),
                'b': numpy.repeat([5, 5, 7], spans),
            }
            names = lambda k: (f'a={k[0]}', f'b={k[1]}')
        cls = dataset.DelayedArray if delayed else dataset.Array
        zds = dataset.Dataset([
            cls(name,
                dask.array.from_array(arr, chunks=(size // 3, ))
                if delayed else arr, ('x', ))
            for name, arr in arrays.items()
        ])
        got = [(part, int(ix['x'].start), int(ix['x'].stop))
               for part, ix in handler.split_dataset(zds, 'x')]
        bounds = [0, cut1, cut2, size]
        want = [(names(alphabet[i]), bounds[i], bounds[i + 1])
                for i in range(3) if spans[i]]
        check(got == want, f'{size} records: {got} instead of {want}')
        ctx.step()
        ctx.state((scenario, cut1, cut2))
        ctx.outcome('long')


def run_insert(scenario, ctx):
    """A rejected dataset leaves the collection unchanged; a dataset in order
    lands where its keys say."""
    _, kind, delayed = scenario
    layout = kit.Layout(kind)
    with kit.policy(ctx.real), kit.quiet():
        env = Env('mem')
        first = [(0, 0, 1), (1, 0, 1), (2, 0, 1)]
        coll = kit.create(env, layout, kit.make_ds(
            kit.arrays_for(layout, first), delayed=delayed))
        coll.insert(kit.make_ds(kit.arrays_for(layout, first),
                                delayed=delayed))
        snap = env.snapshot()
        before = env.tree()
        for seq in sequences(3, 4):
            env.restore(snap)
            counts = [0] * 3
            rows = []
            for p in seq:
                rows.append((p, counts[p], 2))
                counts[p] += 1
            zds = kit.make_ds(kit.arrays_for(layout, rows), delayed=delayed,
                              chunk=2)
            ctx.step()
            ctx.state((scenario, seq))
            try:
                coll.insert(zds)
            except ValueError:
                check(groups(seq) is None, f'insert {seq}: rejected')
                check(env.tree() == before,
                      f'insert {seq}: rejected but the collection changed')
                ctx.outcome('insert rejected')
                continue
            check(groups(seq) is not None,
                  f'insert of the unsorted partitions {seq} accepted')
            ref = kit.ref_insert(
                kit.ref_insert({}, first, False), rows, False)
            for p in range(3):
                key = dict(layout.key(p))
                got = coll.load(filters=lambda keys: keys == key,
                                delayed=False)
                kit.same(
                    kit.expected_values(kit.arrays_for(layout, ref[p])),
                    kit.values_of(got), f'insert {seq}: partition {p}')
            ctx.outcome('inserted')


def run(scenario, ctx):
    {
        'date': run_date,
        'seq': run_seq,
        'runs': run_runs,
        'long': run_long,
        'insert': run_insert
    }[scenario[0]](scenario, ctx)
