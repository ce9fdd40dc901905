"""C17: a copy holds what was selected, and lives its own life."""
from __future__ import annotations

import itertools

import numpy

from mc import faults, kit
from mc.env import Env
from mc.kit import DIM, PIX, Layout, check
from zcollection import meta, sync
from zcollection.merging import merge_time_series

PROPERTY = 'C17'
LEVEL = 'model_checking'
VALIDATE = 3
RULE = ('every state of the source x every subset of its partitions x every '
        'pair of filesystems x every number of groups x both modes; every '
        'sequence of operations on the source and on the copy up to the '
        'depth; every failing step of the storage')
ASSUMPTIONS = ['four partitions of one to three records']

ROWS = [(0, 0, 1), (0, 2, 1), (0, 4, 1), (1, 1, 1), (1, 3, 1), (2, 0, 1),
        (3, 1, 1), (3, 2, 1)]
STATES = ('plain', 'fixed', 'empty', 'lived', 'stray')
PAIRS = (('mem', 'mem'), ('mem', 'memc'), ('memc', 'memc'), ('memc', 'mem'),
         ('mem', 'local'), ('local', 'local'), ('local', 'mem'),
         ('memr', 'memr'))
SUBSETS = [
    subset for n in range(5)
    for subset in itertools.combinations(range(4), n)
]
#: operations applied to the source (s) or to the copy (c)
LIFE = ('insert', 'merge', 'update', 'drop', 'add', 'remove')
GRID = numpy.array([3.5, -2.0])


def scenarios(tier):
    quick = tier == 'quick'
    for state, pair in itertools.product(STATES, PAIRS):
        for mode in ('r', 'w'):
            for groups in (None, 1, 2, 3, 7):
                if quick and pair != ('mem', 'mem') and groups not in (
                        None, 3):
                    continue
                yield ('copy', state, pair, mode, groups)
    depth = 2 if quick else 3
    for state in ('plain', 'fixed', 'lived'):
        for pair in PAIRS[:2] if quick else PAIRS:
            for seq in itertools.product(LIFE, repeat=depth):
                if any(seq.count(op) > 1 for op in ('add', 'remove')):
                    continue
                for who in itertools.product('sc', repeat=depth):
                    if quick and pair[1] != 'mem' and who[0] == who[1]:
                        continue
                    yield ('life', state, pair,
                           tuple(a + ':' + b for a, b in zip(who, seq)))
    for state in ('plain', 'fixed'):
        for pair in (('mem', 'mem'), ('mem', 'memc')):
            for part in range(8):
                yield ('fault', state, pair, part)
    for pair in PAIRS:
        for size in (2**16, 2**20, 5 * 2**20 + 1):
            yield ('big', 'plain', pair, size)
    for pair in PAIRS:
        for subset in SUBSETS[1:]:
            yield ('existing', 'plain', pair, subset)


def real_ok(scenario):
    return scenario[2] == ('local', 'local') and scenario[0] == 'copy'


class World:

    def __init__(self, state, pair, layout='date:D'):
        self.layout = Layout(layout)
        self.state = state
        self.env = Env(pair[0])
        if pair[0] == pair[1]:
            self.target_env = self.env
        else:
            self.target_env = Env(pair[1])
        self.extra = {}
        self.names = ['time', 'v1', 'v2'] + (['grid'] if state == 'fixed'
                                             else [])
        zds = self.dataset(ROWS)
        coll = kit.create(self.env, self.layout, zds)
        self.base = coll.partition_properties.dir
        self.target = self.target_env.path('sub', 'copy')
        if state != 'empty':
            coll.insert(zds)
        if state == 'lived':
            coll.insert(self.dataset([(0, 1, 2), (0, 2, 2), (1, 5, 2)]),
                        merge_callable=merge_time_series)
            coll.add_variable(W)
            coll.update(lambda item: {'w': item['v1'].values + 1},
                        variables=('w', ))
            coll.drop_variable('v2')
            coll.drop_partitions(filters=self.filters([2]))
        if state == 'stray':
            for name in ('README', 'year.txt'):
                with self.env.fs.open(f'{self.base}/{name}', 'wb') as stream:
                    stream.write(b'text')
            self.env.fs.makedirs(f'{self.base}/.0123abcd/v1')
            with self.env.fs.open(f'{self.base}/.0123abcd/v1/0',
                                  'wb') as stream:
                stream.write(b'unfinished')
        self.env.fs.invalidate_cache()
        self.snap = self.env.snapshot()
        self.parts = [
            p for p in range(4)
            if self.env.fs.exists(self.path(p))
        ]
        self.env.fs.invalidate_cache()

    def dataset(self, rows):
        arrays = kit.arrays_for(self.layout, rows)
        if self.state == 'fixed':
            arrays['grid'] = GRID
        return kit.make_ds(arrays, extra_dims={'grid': (PIX, )})

    def path(self, p, base=None):
        return f'{base or self.base}/{self.layout.dirname(p)}'

    def filters(self, parts):
        keys = [dict(self.layout.key(p)) for p in parts]
        return lambda item: item in keys

    def restore(self):
        self.env.restore(self.snap)
        self.env.fs.invalidate_cache()
        if self.target_env is not self.env:
            self.target_env.reset()
            self.target_env.fs.invalidate_cache()
        return kit.open_coll(self.env, mode='r')

    def copy(self, coll, **kwargs):
        if self.target_env is not self.env:
            kwargs['filesystem'] = self.target_env.fs
        return coll.copy(self.target, **kwargs)

    def image(self, env, base):
        return env.tree(base), env.dirs(base)


W = meta.Variable('w', numpy.dtype('float64'), dimensions=(DIM, ),
                  fill_value=-1.0)


def content(coll, parts):
    """Everything that can be read."""
    out = {'metadata': coll.metadata.get_config(), 'axis': coll.axis,
           'partitioning': coll.partitioning.get_config(),
           'immutable': coll.immutable}
    listing = list(coll.partitions(relative=True))
    out['partitions'] = listing
    for p in parts:
        zds = coll.load(filters=p, delayed=False)
        out[str(p)] = None if zds is None else {
            name: (kit.canon_array(var.values), tuple(var.dimensions),
                   repr(var.fill_value),
                   sorted((i.name, repr(i.value)) for i in var.attrs))
            for name, var in sorted(zds.variables.items())
        }
    return out


def run(scenario, ctx):
    kind, state, pair = scenario[:3]
    with kit.policy(ctx.real, workers=2, eager=True, order='fifo',
                    fs=pair[0]), kit.quiet():
        world = World(state, pair)
        {'copy': run_copy, 'life': run_life, 'fault': run_fault,
         'existing': run_existing, 'big': run_big}[kind](world, scenario, ctx)
        ctx.state(scenario)


def expressions(world, parts):
    """Filters that can be given to both collections."""
    return [
        ' and '.join(f'{k} == {v}' for k, v in world.layout.key(p))
        for p in parts
    ]


def verify_copy(world, coll, other, before, subset, what):
    check(world.image(world.env, world.base) == before,
          f'{what}: the source is modified')
    chosen = [p for p in world.parts if p in subset]
    names = [world.layout.dirname(p) for p in chosen]
    queries = expressions(world, range(4))
    wanted = content(coll, queries)
    wanted['partitions'] = names
    for p in range(4):
        if p not in chosen:
            wanted[queries[p]] = None
    readers = [other, kit.open_coll(
        world.target_env, world.target, mode='r',
        fs=world.target_env.other('reader'))]
    for reader in readers:
        got = content(reader, queries)
        for key, value in wanted.items():
            check(got[key] == value, f'{what}: {key}: {got[key]} instead of '
                  f'{value}')
    # The files too: nothing is missing from a partition
    source = world.env.tree(world.base)
    target = world.target_env.tree(world.target)
    for name, data in source.items():
        top = name.rpartition('/')[0]
        while '/' in top and top not in names:
            top = top.rpartition('/')[0]
        if top in names:
            check(target.get(name) == data, f'{what}: {name} is not copied')
    if world.state == 'fixed' and world.parts:
        zds = other.load(delayed=False)
        if zds is not None:
            check((zds['grid'].values == GRID).all(), f'{what}: grid')


def run_copy(world, scenario, ctx):
    _, state, pair, mode, groups = scenario
    for subset in SUBSETS:
        coll = world.restore()
        before = world.image(world.env, world.base)
        kwargs = {}
        if subset != (0, 1, 2, 3):
            kwargs['filters'] = world.filters(subset)
        if groups is not None:
            kwargs['npartitions'] = groups
        locks = sync.NoSync() if groups in (1, 3) else None
        if locks is not None:
            kwargs['synchronizer'] = locks
        other = world.copy(coll, mode=mode, **kwargs)
        what = f'copy of {subset}, {state}, {pair}, {mode}, {groups} groups'
        check(other.mode == mode, f'{what}: mode {other.mode}')
        check(locks is None or other.synchronizer is locks,
              f'{what}: the synchronizer is {other.synchronizer}')
        check(other.partition_properties.dir == world.target,
              f'{what}: {other.partition_properties.dir}')
        verify_copy(world, coll, other, before, subset, what)
        ctx.step()
        ctx.outcome(f'{len([p for p in world.parts if p in subset])} copied')


def operate(world, coll, op):
    if op == 'insert':
        coll.insert(select(world, coll, [(0, 1, 7), (2, 5, 7)]))
    elif op == 'merge':
        coll.insert(select(world, coll, [(0, 3, 8), (3, 7, 8)]),
                    merge_callable=merge_time_series)
    elif op == 'update':
        coll.update(lambda item: {'v1': item['v1'].values * 2 + 3},
                    variables=('v1', ))
    elif op == 'drop':
        coll.drop_partitions(filters=world.filters([1]))
    elif op == 'add':
        coll.add_variable(
            meta.Variable('z', numpy.dtype('int32'), dimensions=(DIM, ),
                          fill_value=5))
    elif op == 'remove':
        coll.drop_variable('v1')


def select(world, coll, rows):
    zds = world.dataset(rows)
    for name in list(zds.variables):
        if name not in coll.metadata.variables:
            zds.drops_vars(name)
    return zds


def run_life(world, scenario, ctx):
    """What happens to one does not happen to the other, and both behave in
    the same way."""
    _, state, pair, seq = scenario
    queries = expressions(world, range(4))
    world.restore()
    source = kit.open_coll(world.env)
    copied = world.copy(source)
    base = content(source, queries)
    done = {'s': [], 'c': []}
    for item in seq:
        who, op = item.split(':')
        if op == 'update' and any(x == 'remove' for x in done[who]):
            continue
        coll = source if who == 's' else copied
        still, where, path = ((copied, world.target_env, world.target)
                              if who == 's' else
                              (source, world.env, world.base))
        before = world.image(where, path)
        seen = content(still, queries)
        operate(world, coll, op)
        done[who].append(op)
        what = f'{state}, {pair}, {done}'
        check(world.image(where, path) == before,
              f'{what}: {op} on {"source" if who == "s" else "copy"} has '
              'modified the files of the other')
        check(content(still, queries) == seen,
              f'{what}: {op} has modified what the other reads')
        ctx.step()
        ctx.outcome(op)
    # the same operations give the same results
    if done['s'] == done['c']:
        one, two = content(source, queries), content(copied, queries)
        check(one == two, f'{state}, {pair}, {done}: the copy differs')
    elif not done['c']:
        check(content(copied, queries) == base, f'{done}: copy')
    elif not done['s']:
        # the same on a fresh source
        got = content(copied, queries)
        for op in done['c']:
            operate(world, source, op)
        one = content(source, queries)
        check(one == got, f'{state}, {pair}, {done}: the copy behaves in '
              'another way than the source')


def run_fault(world, scenario, ctx):
    """A failing step is reported; the source is intact."""
    _, state, pair, part = scenario
    kinds = faults.WRITES + ('read', 'ls')
    sides = {'source': world.env}
    if world.target_env is not world.env:
        sides['target'] = world.target_env
    for side, env in sides.items():
        for at in itertools.count(part + 1, 8):
            coll = world.restore()
            before = world.image(world.env, world.base)
            injector = faults.Injector(env, kinds)
            error = None
            other = None
            with injector.run('fault', at):
                try:
                    other = world.copy(coll)
                except Exception as exc:  # pylint: disable=broad-except
                    error = exc
            if injector.hit is None:
                check(error is None, f'the copy fails: {error!r}')
                break
            what = (f'{state}, {pair}: step {at} of the {side} fails '
                    f'({injector.hit[0]} {injector.hit[1]})')
            check(world.image(world.env, world.base) == before,
                  f'{what}: the source is modified')
            ctx.step()
            if error is not None:
                ctx.outcome('reported')
                continue
            # not reported: then it had no consequence
            verify_copy(world, coll, other, before, range(4), what)
            ctx.outcome('harmless')


def run_existing(world, scenario, ctx):
    """A partition that exists is not overwritten."""
    _, _, pair, subset = scenario
    coll = world.restore()
    before = world.image(world.env, world.base)
    other = world.copy(coll, filters=world.filters(subset))
    other.update(lambda item: {'v1': item['v1'].values * 0},
                 variables=('v1', ))
    names = tuple(world.layout.dirname(p) + '/' for p in subset)
    there = {
        name: data
        for name, data in world.target_env.tree(world.target).items()
        if name.startswith(names)
    }
    for again in SUBSETS[1:]:
        if not set(again) & set(subset):
            continue
        error = None
        try:
            world.copy(coll, filters=world.filters(again))
        except ValueError as exc:
            error = exc
        what = f'{pair}: {again} over {subset}'
        check(error is not None, f'{what}: accepted')
        now = world.target_env.tree(world.target)
        for name, data in there.items():
            check(now.get(name) == data, f'{what}: {name} is overwritten')
        check(world.image(world.env, world.base) == before,
              f'{what}: the source is modified')
        ctx.step()
        ctx.outcome('refused')


def run_big(world, scenario, ctx):
    """Whatever the size of the files."""
    _, _, pair, size = scenario
    coll = world.restore()
    path = f'{world.path(1)}/v1/big'
    data = bytes(range(256)) * (size // 256) + b'e' * (size % 256)
    with world.env.fs.open(path, 'wb') as stream:
        stream.write(data)
    world.env.fs.invalidate_cache()
    world.copy(coll)
    got = world.target_env.tree(world.target)
    check(got.get(f'{world.layout.dirname(1)}/v1/big') == data,
          f'{pair}: a file of {size} bytes is not copied')
    ctx.step()
    ctx.outcome('big')
