"""C20: removing partitions (by filter, by age, because they are damaged)
removes exactly the right ones."""
from __future__ import annotations

import datetime
import itertools
import os
import time as clock

from mc import kit, mcfs
from mc.env import Env
from mc.kit import DIM, PIX, Layout, check
from zcollection import dataset
from zcollection.merging import merge_time_series
import numpy

PROPERTY = 'C20'
LEVEL = 'model_checking'
VALIDATE = 7
RULE = ('every age x delay x time zone x subset of the partitions; every file '
        'of a partition x every damage, every pair of damaged partitions x '
        'every filter; and what every reader then sees')
ASSUMPTIONS = [
    'four partitions of one to three records',
    'a chunk that is missing holds the fill value (this is how zarr stores '
    'it): only what makes a partition unreadable is invalid',
]

HOUR = datetime.timedelta(hours=1)
#: age of the partitions
AGES = {0: 0 * HOUR, 1: 3 * HOUR, 2: 30 * HOUR, 3: 24 * 40 * HOUR}
DELAYS = (None, -HOUR, 0 * HOUR, HOUR / 2, 2 * HOUR, 12 * HOUR, 48 * HOUR,
          24 * 60 * HOUR)
ZONES = ('UTC', 'EAST-10', 'WEST8')
ROWS = {
    0: [(0, 0, 1), (0, 2, 1), (0, 4, 1)],
    1: [(1, 1, 1), (1, 3, 1)],
    2: [(2, 0, 1)],
    3: [(3, 1, 1), (3, 2, 1)],
}
SUBSETS = [
    subset for n in range(5)
    for subset in itertools.combinations(range(4), n)
]
DAMAGES = ('removed', 'empty', 'half', 'inverted', 'first', 'middle', 'last',
           'longer', 'text')
GRID = numpy.array([3.5, -2.0])


def scenarios(tier):
    quick = tier == 'quick'
    layouts = ('date:D', ) if quick else ('date:D', 'date:h', 'seq:a,b')
    for layout in layouts:
        for zone, delay in itertools.product(ZONES, DELAYS):
            for fs in ('mem', 'memc', 'memr', 'local'):
                yield ('drop', layout, fs, zone, None if delay is None
                       else delay.total_seconds())
        for fs in ('mem', 'memc', 'local'):
            for fixed in (False, True):
                for damage in DAMAGES:
                    yield ('damage', layout, fs, fixed, damage)
        for fs in ('mem', 'memc', 'memr', 'local'):
            for pair in SUBSETS:
                if quick and fs != 'mem' and len(pair) != 2:
                    continue
                yield ('several', layout, fs, pair)
    if not quick:
        for fs in ('mem', 'local'):
            for name in ('.zmetadata', 'v1/.zarray', 'v1/0', 'v2/1.0'):
                for part in range(8):
                    yield ('bytes', 'date:D', fs, name, part)


def real_ok(scenario):
    return scenario[2] == 'local'


class World:

    def __init__(self, layout, fs, fixed=False):
        self.layout = Layout(layout)
        self.env = Env(fs)
        self.fixed = fixed
        zds = self.dataset(range(4))
        kit.create(self.env, self.layout, zds).insert(zds)
        self.base = self.env.path('coll')
        self.snap = self.env.snapshot()
        self.files = self.env.tree(self.base)

    def dataset(self, parts):
        rows = [r for p in parts for r in ROWS[p]]
        arrays = kit.arrays_for(self.layout, rows)
        if self.fixed:
            arrays['grid'] = GRID
        return kit.make_ds(arrays, extra_dims={'grid': (PIX, )},
                           chunks=(dataset.Dimension(DIM, 2), ))

    def restore(self):
        self.env.restore(self.snap)
        self.env.fs.invalidate_cache()
        coll = kit.open_coll(self.env)
        # what a client has listed is in its cache
        list(coll.partitions())
        return coll

    def path(self, p):
        return f'{self.base}/{self.layout.dirname(p)}'

    def filters(self, parts):
        keys = [dict(self.layout.key(p)) for p in parts]
        return lambda item: item in keys

    def expected(self, parts):
        rows = [r for p in parts for r in ROWS[p]]
        arrays = kit.arrays_for(self.layout, rows)
        if self.fixed:
            arrays['grid'] = GRID
        return kit.expected_values(arrays)

    def verify(self, left, what, *colls, damaged=()):
        """What remains, as seen by everybody."""
        for coll in colls + (kit.open_coll(
                self.env, mode='r', fs=self.env.other('reader')), ):
            got = list(coll.partitions())
            check(got == [self.path(p) for p in left],
                  f'{what}: {got} is left instead of {left}')
            if damaged:
                continue
            zds = coll.load(delayed=False)
            if not left:
                check(zds is None, f'{what}: data are left')
            else:
                kit.same(self.expected(left), kit.values_of(zds), what)
        size = len(self.base) + 1
        gone = tuple(self.path(p)[size:] + '/' for p in range(4)
                     if p not in left)
        wanted = {
            name: data
            for name, data in self.files.items()
            if not name.startswith(gone or ('//', ))
        }
        for p in damaged:
            wanted = {
                name: data
                for name, data in wanted.items()
                if not name.startswith(self.path(p)[size:] + '/')
            }
        files = self.env.tree(self.base)
        for p in damaged:
            files = {
                name: data
                for name, data in files.items()
                if not name.startswith(self.path(p)[size:] + '/')
            }
        check(files == wanted, f'{what}: other files have changed: '
              f'{sorted(set(files) ^ set(wanted))[:5]}')


def zone_set(zone):
    os.environ['TZ'] = zone
    clock.tzset()


def run(scenario, ctx):
    kind, layout, fs = scenario[:3]
    with kit.policy(ctx.real, workers=2, eager=True, order='fifo', fs=fs), \
            kit.quiet():
        if kind == 'drop':
            saved = os.environ.get('TZ')
            zone_set(scenario[3])
            try:
                run_drop(layout, fs, scenario[4], scenario[3], ctx)
            finally:
                for item in mcfs._SPACES.values():
                    item.naive = False
                if saved is None:
                    os.environ.pop('TZ')
                    clock.tzset()
                else:
                    zone_set(saved)
        elif kind == 'damage':
            run_damage(layout, fs, scenario[3], scenario[4], ctx)
        elif kind == 'several':
            run_several(layout, fs, scenario[3], ctx)
        else:
            run_bytes(layout, fs, scenario[3], scenario[4], ctx)
        ctx.state(scenario)


def run_drop(layout, fs, delay, zone, ctx):
    world = World(layout, fs)
    env = world.env
    now = datetime.datetime.now(datetime.timezone.utc)
    delay = None if delay is None else datetime.timedelta(seconds=delay)
    if fs != 'local':
        for p, age in AGES.items():
            path = world.path(p)
            for item in list(env.space.ctime):
                if item == path or item.startswith(path + '/'):
                    env.space.ctime[item] = now - age
        world.snap = env.snapshot()
    ages = AGES if fs != 'local' else dict.fromkeys(AGES, 0 * HOUR)
    old = {p for p, age in ages.items() if delay is None or age >= delay}
    # some filesystems give naive dates
    for naive, subset in itertools.product((False, True), SUBSETS):
        if fs != 'local':
            env.space.naive = naive
        if naive and (fs == 'local' or zone != 'UTC'):
            continue
        coll = world.restore()
        second = kit.open_coll(env, mode='r', fs=env.other('second'))
        what = (f'partitions {subset}, older than {delay}, {zone}, {fs}')
        kwargs = {}
        if subset != (0, 1, 2, 3):
            kwargs['filters'] = world.filters(subset)
        if delay is not None:
            kwargs['timedelta'] = delay
        got = list(coll.drop_partitions(**kwargs))
        gone = [p for p in subset if p in old]
        check(got == [world.path(p) for p in gone],
              f'{what}: {got} is returned instead of {gone}')
        left = [p for p in range(4) if p not in gone]
        world.verify(left, what, coll, second)
        ctx.step()
        ctx.outcome(f'{len(gone)} dropped')
        # they can be inserted again, with or without a merge
        if gone:
            coll.insert(world.dataset(gone[:1]), merge_callable=merge_time_series
                        if len(subset) % 2 else None)
            world.verify(sorted(left + gone[:1]), f'{what}, then inserted',
                         coll)


def spoil(env, path, damage):
    """Damage a file."""
    with env.fs.open(path, 'rb') as stream:
        data = bytearray(stream.read())
    if damage == 'removed':
        env.fs.rm(path)
        return
    if damage == 'empty':
        data = b''
    elif damage == 'half':
        data = data[:len(data) // 2]
    elif damage == 'inverted':
        data = bytes(255 - i for i in data)
    elif damage in ('first', 'middle', 'last'):
        ix = {'first': 0, 'middle': len(data) // 2, 'last': -1}[damage]
        data[ix] ^= 0xff
    elif damage == 'longer':
        data = bytes(data) + b'}'
    elif damage == 'text':
        data = b'{}'
    with env.fs.open(path, 'wb') as stream:
        stream.write(bytes(data))


def readable(world, p):
    """Whether the partition can be loaded."""
    coll = kit.open_coll(world.env, mode='r', fs=world.env.other('judge'))
    try:
        coll.load(filters=world.filters([p]), delayed=False)
    except Exception:  # pylint: disable=broad-except
        return False
    return True


def run_damage(layout, fs, fixed, damage, ctx):
    world = World(layout, fs, fixed)
    env = world.env
    size = len(world.base) + 1
    for p in (0, 2):
        prefix = world.path(p)[size:] + '/'
        for name in sorted(world.files):
            if not name.startswith(prefix):
                continue
            coll = world.restore()
            spoil(env, f'{world.base}/{name}', damage)
            env.fs.invalidate_cache()
            bad = not readable(world, p)
            what = f'{name} {damage}, {fs}'
            ctx.outcome('invalid' if bad else 'valid')
            ctx.step()
            judge(world, coll, [p] if bad else [], [p], what)


def run_bytes(layout, fs, name, part, ctx):
    """Every byte of a file is changed in turn."""
    world = World(layout, fs)
    env = world.env
    path = f'{world.path(0)}/{name}'
    data = world.files[path[len(world.base) + 1:]]
    for ix in range(part, len(data), 8):
        for mask in (0x01, 0x10, 0xff):
            coll = world.restore()
            other = bytearray(data)
            other[ix] ^= mask
            with env.fs.open(path, 'wb') as stream:
                stream.write(bytes(other))
            env.fs.invalidate_cache()
            bad = not readable(world, 0)
            ctx.outcome('invalid' if bad else 'valid')
            ctx.step()
            judge(world, coll, [0] if bad else [], [0],
                  f'byte {ix} of {name} ^ {mask}, {fs}')


def run_several(layout, fs, damaged, ctx):
    """Several damaged partitions, some of them selected."""
    world = World(layout, fs)
    env = world.env
    for subset in SUBSETS:
        coll = world.restore()
        for p in damaged:
            name = ('.zmetadata', 'v1/0', 'time/0', '.zmetadata')[p]
            spoil(env, f'{world.path(p)}/{name}',
                  ('removed', 'inverted', 'empty', 'half')[p])
        env.fs.invalidate_cache()
        bad = [p for p in damaged if p in subset]
        filters = world.filters(subset)
        if subset == (0, 1, 2, 3):
            filters = None
        judge(world, coll, bad, damaged, f'damaged {damaged}, selected '
              f'{subset}, {fs}', filters)
        ctx.step()
        ctx.outcome(f'{len(bad)} of {len(damaged)}')


def judge(world, coll, bad, damaged, what, filters=None):
    """bad: what must be reported; damaged: the partitions modified."""
    second = kit.open_coll(world.env, mode='r',
                           fs=world.env.other('second'))
    wanted = [world.path(p) for p in bad]
    before = world.env.tree(world.base)
    for who in (coll, second):
        got = sorted(who.validate_partitions(filters=filters))
        check(got == wanted, f'{what}: {got} is reported instead of {bad}')
    check(world.env.tree(world.base) == before,
          f'{what}: validation has modified the files')
    got = sorted(coll.validate_partitions(filters=filters, fix=True))
    check(got == wanted, f'{what}: {got} is repaired instead of {bad}')
    left = [p for p in range(4) if p not in bad]
    world.verify(left, what, coll,
                 damaged=[p for p in damaged if p not in bad])
    check(not coll.validate_partitions(filters=filters),
          f'{what}: invalid partitions are left')
    if bad and set(bad) == set(damaged):
        # the data can be inserted again
        coll.insert(world.dataset(bad))
        world.verify(range(4), f'{what}, inserted again', coll)
