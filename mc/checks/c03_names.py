"""C03: partition keys, names and values correspond one to one, and listings
follow the order of the keys."""
from __future__ import annotations

import itertools

import numpy

from mc import kit
from mc.env import Env
from mc.kit import Layout, check
from zcollection import dataset, partitioning

PROPERTY = 'C03'
LEVEL = 'model_checking'
RULE = ('every key of the stated ranges through name -> key -> value -> key, '
        'every subset/creation order of a set of partitions through the '
        'listings, collections at every awkward location')
ASSUMPTIONS = ['years 1000 to 9999 for dates']

NAMES = ('year', 'month', 'day', 'hour', 'minute', 'second')
RES = 'YMDhms'
VALUES = (0, 1, 2, 9, 10, 11, 19, 20, 99, 100, 101, 999, 1000, 2**31 - 1,
          2**31, 2**53 + 1, 2**63 - 1, -1, -9, -10, -100)
FIELDS = [('a', ), ('a', 'b'), ('b', 'a'), ('cycle', 'pass'), ('a', 'aa'),
          ('aa', 'a'), ('a', 'b', 'c'), ('year', 'month'),
          ('x_1', 'x_2', 'x_3')]
ROOTS = [
    '/root/zc', '/root/year=1998/zc', '/root/a=3/zc', '/root/a=3',
    '/root/year=2001', '/root/year=1998/month=11/day=07', '/root/data=7/zc',
    '/root/a=1/b=2/zc', '/root/a=b/zc', '/root/.hidden/zc', '/root/zc.d',
    '/a=1', '/root/a=1/a=1', '/root/my coll', '/root/x/zc/x/zc'
]


def scenarios(tier):
    for res in RES:
        first, last = (1000, 9999) if res == 'Y' else (
            1890, 2110) if res == 'M' else (1968, 2004) if res == 'D' else (
                1999, 1999) if res == 'h' else (2000, 2000)
        if tier == 'thorough' and res in 'Dh':
            first, last = (1850, 2110) if res == 'D' else (1968, 1972)
        for year in range(first, last + 1, 20 if res == 'Y' else 4):
            yield ('dates', res, year, 20 if res == 'Y' else 4)
    for ix in range(len(FIELDS)):
        yield ('values', ix)
    for layout in ('date:Y', 'date:M', 'date:D', 'date:h', 'seq:a', 'seq:a,b',
                   'seq:a,b,c'):
        for fs in ('mem', 'memc', 'local'):
            yield ('listing', layout, fs)
    for root in range(len(ROOTS)):
        for layout in ('date:Y', 'date:D', 'seq:a', 'seq:a,b'):
            for fs in ('mem', 'local'):
                yield ('root', root, layout, fs)


def round_trip(ctx, handler, key, name, values):
    """key <-> name <-> values"""
    ctx.step(4)
    got = handler.join(key, '/')
    check(got == name, f'{key} named {got!r} instead of {name!r}')
    for text in (name, '/data/zc/' + name, '/d/year=1/a=2/zc/' + name):
        got = handler.parse(text)
        check(got == key, f'{text!r} parsed as {got} instead of {key}')
    got = handler.encode(key)
    check(
        len(got) == len(values)
        and all(a == b for a, b in zip(got, values)),
        f'{key} encoded as {got} instead of {values}')
    got = handler.decode(tuple(values))
    check(
        tuple((k, int(v)) for k, v in got) == key,
        f'{values} decoded as {got} instead of {key}')
    ctx.outcome('key')


def days_in(year, month):
    leap = year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)
    return (31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30,
            31)[month - 1]


def date_keys(res, first, count):
    """Every key of the resolution (the finer ones at the ends of the
    ranges)."""
    depth = RES.index(res) + 1
    for year in range(first, first + count):
        if depth == 1:
            yield (year, )
            continue
        if depth > 4 and year != 2000:
            continue
        for month in range(1, 13):
            if depth == 2:
                yield (year, month)
                continue
            for day in range(1, days_in(year, month) + 1):
                if depth == 3:
                    yield (year, month, day)
                    continue
                if depth > 3 and day not in (1, 10, days_in(year, month)):
                    continue
                for hour in range(24):
                    if depth == 4:
                        yield (year, month, day, hour)
                        continue
                    if hour not in (0, 9, 23) or month not in (1, 2, 12):
                        continue
                    for minute in range(60):
                        if depth == 5:
                            yield (year, month, day, hour, minute)
                            continue
                        if minute not in (0, 9, 59):
                            continue
                        for second in range(60):
                            yield (year, month, day, hour, minute, second)


def run_dates(scenario, ctx):
    _, res, year, count = scenario
    handler = partitioning.Date(('time', ), res)
    keys = list(date_keys(res, year, count))
    seen = {}
    instants = []
    for item in keys:
        key = tuple(zip(NAMES, item))
        name = '/'.join(f'{n}={v:02d}' for n, v in key)
        full = item + (1, 1, 0, 0, 0)[len(item) - 1:]
        # the first instant of the partition
        text = '{:04d}-{:02d}-{:02d}T{:02d}:{:02d}:{:02d}'.format(*full)
        instant = numpy.datetime64(text)
        instants.append(instant)
        round_trip(ctx, handler, key, name, (instant, ))
        check(name not in seen, f'{key} and {seen.get(name)} share {name}')
        seen[name] = key
        ctx.state((res, item))
    # the split of the axis gives the same names
    arr = numpy.array(instants, dtype='datetime64[s]')
    arr = numpy.sort(numpy.concatenate([arr, arr]))
    for dtype in ('datetime64[s]', 'datetime64[us]'):
        zds = dataset.Dataset(
            [dataset.Array('time', arr.astype(dtype), ('x', ))])
        got = [('/'.join(part), int(ix['x'].start), int(ix['x'].stop))
               for part, ix in handler.split_dataset(zds, 'x')]
        want = [(name, 2 * ix, 2 * ix + 2)
                for ix, name in enumerate(seen)]
        check(got == want, f'{res}: split names {got[:3]}... differ')


def run_values(scenario, ctx):
    fields = FIELDS[scenario[1]]
    handler = partitioning.Sequence(fields)
    values = VALUES if len(fields) < 3 else VALUES[:11] + VALUES[-3:]
    seen = {}
    for item in itertools.product(values, repeat=len(fields)):
        key = tuple(zip(fields, item))
        name = '/'.join(f'{n}={v}' for n, v in key)
        round_trip(ctx, handler, key, name, item)
        check(name not in seen, f'{key} and {seen.get(name)} share {name}')
        seen[name] = key
        ctx.state((fields, item))
    # Names which are not partitions of this scheme are refused.
    wrong = ['', 'z=1', '/'.join(f'{n}=x' for n in fields),
             '/'.join(f'{n}' for n in fields),
             '/'.join(f'{n}=1' for n in fields) + '/zz=2']
    if len(fields) > 1:
        wrong.append('/'.join(f'{n}=1' for n in fields[:-1]))
        if len(set(fields)) == len(fields) and fields[0] not in fields[-1]:
            wrong.append('/'.join(f'{n}=1' for n in reversed(fields)))
    for text in wrong:
        try:
            got = handler.parse(text)
        except ValueError:
            continue
        check(False, f'{text!r} accepted as a partition of {fields}: {got}')


ORDERS = [(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (1, 3, 0, 2)]


def run_listing(scenario, ctx):
    """Every subset of four partitions, created in several orders, among
    hidden and foreign entries."""
    _, name, fs = scenario
    layout = Layout(name)
    with kit.policy(ctx.real), kit.quiet():
        env = Env(fs)
        first = kit.make_ds(kit.arrays_for(layout, [(0, 0, 1)]))
        coll = kit.create(env, layout, first)
        snap = env.snapshot()
        base = coll.partition_properties.dir
        for size in range(0, 5):
            for subset in itertools.combinations(range(4), size):
                for order in ORDERS:
                    env.restore(snap)
                    env.fs.invalidate_cache()
                    for p in order:
                        if p in subset:
                            coll.insert(
                                kit.make_ds(
                                    kit.arrays_for(layout, [(p, 0, 1),
                                                            (p, 1, 2)])))
                    # entries which are not partitions
                    env.fs.mkdir(base + '/.tmp')
                    with env.fs.open(base + '/README', 'wb') as stream:
                        stream.write(b'x')
                    env.fs.invalidate_cache()
                    ctx.step()
                    ctx.state((scenario, subset, order))
                    want = [layout.dirname(p) for p in subset]
                    got = list(coll.partitions(relative=True))
                    check(got == want, f'listing {got} instead of {want}')
                    got = list(coll.partitions(lock=True))
                    check(got == [base + '/' + w for w in want],
                          f'listing {got} instead of {want} (absolute)')
                    got = [
                        tuple(coll.partitioning.parse(item))
                        for item in coll.partitions()
                    ]
                    check(got == [layout.key(p) for p in subset],
                          f'keys {got} instead of {subset}')
                    got = [item[0] for item in coll.iterate_on_records(
                        relative=True)]
                    check(got == want, f'records {got} instead of {want}')
                    zds = coll.load(delayed=False,
                                    selected_variables=['time'])
                    if subset:
                        rows = [(p, s, 1) for p in subset for s in (0, 1)]
                        kit.same(
                            {'time': kit.arrays_for(layout, rows)['time']},
                            kit.values_of(zds), 'load order')
                    else:
                        check(zds is None, 'load of nothing')
                    ctx.outcome(f'{size} partitions')


def run_root(scenario, ctx):
    """A collection works wherever it is located, and stays there."""
    _, root, name, fs = scenario
    layout = Layout(name)
    with kit.policy(ctx.real), kit.quiet():
        env = Env(fs, root=ROOTS[root] if fs == 'mem' else '/o' +
                  ROOTS[root])
        path = env.root
        env.fs.rm(path, recursive=True)
        before = set(env.tree('' if fs == 'mem' else env.base))
        rows1 = [(0, 0, 1), (0, 2, 1), (1, 1, 1), (2, 1, 1)]
        rows2 = [(0, 1, 2), (1, 1, 2), (3, 0, 2)]
        rows3 = [(1, 0, 3), (1, 3, 3)]
        ref: dict = {}
        coll = kit.create(env, layout, kit.make_ds(
            kit.arrays_for(layout, rows1)), path=path)
        for rows, merge in ((rows1, False), (rows2, True), (rows3, False)):
            coll.insert(kit.make_ds(kit.arrays_for(layout, rows)),
                        merge_callable=kit.MERGES['ts' if merge else None])
            ref = kit.ref_insert(ref, rows, merge)
            ctx.step()
            for one in (coll, kit.open_coll(env, path=path, mode='r')):
                got = list(one.partitions(relative=True))
                want = [layout.dirname(p) for p in sorted(ref)]
                check(got == want, f'{path}: listing {got}, not {want}')
                for filters in (None, lambda keys: True):
                    zds = one.load(delayed=False, filters=filters)
                    kit.same(
                        kit.expected_values(
                            kit.arrays_for(layout, kit.ref_rows(ref))),
                        kit.values_of(zds), f'{path}')
                for p in ref:
                    key = dict(layout.key(p))
                    text = ' and '.join(f'{k} == {v}' for k, v in key.items())
                    got = list(one.partitions(filters=text, relative=True))
                    check(got == [layout.dirname(p)],
                          f'{path}: {text!r} selects {got}')
                check(one.validate_partitions() == [],
                      f'{path}: partitions reported invalid')
            ctx.state(kit.digest(env.tree()))
        inside = path.rstrip('/') + '/'
        top = '' if fs == 'mem' else env.base
        for item in set(env.tree(top)) - before:
            check((top + '/' + item).startswith(inside),
                  f'{path}: the collection wrote {top}/{item}')
        for item in env.dirs(top):
            full = top + '/' + item
            check(full.startswith(inside) or inside.startswith(full + '/'),
                  f'{path}: the collection created {full}')
        ctx.outcome('location')


def run(scenario, ctx):
    {
        'dates': run_dates,
        'values': run_values,
        'listing': run_listing,
        'root': run_root
    }[scenario[0]](scenario, ctx)
