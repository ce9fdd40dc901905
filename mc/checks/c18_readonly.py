"""C18: reading never modifies, a read-only collection refuses to change."""
from __future__ import annotations

import io
import itertools
import pickle

import numpy

from mc import faults, kit
from mc.env import Env
from mc.kit import DIM, PIX, Layout, check
from zcollection import collection, meta, view
import zcollection

PROPERTY = 'C18'
LEVEL = 'model_checking'
VALIDATE = 61
RULE = ('every sequence of operations up to the depth, of every operation that '
        'reads (both modes) or modifies (read-only mode), in every state of '
        'the collection; any step that modifies the storage below the '
        'collection is refused by the model filesystem and reported')
ASSUMPTIONS = [
    'three partitions; on the local filesystem the files and directories are '
    'compared after each operation'
]

ROWS = [(0, 0, 1), (0, 2, 1), (0, 4, 1), (1, 1, 1), (2, 0, 1), (2, 3, 1)]
STATES = ('plain', 'fixed', 'empty', 'broken', 'unfinished')
READS = ('partitions', 'filtered', 'variables', 'load', 'load_delayed',
         'load_some', 'load_indexer', 'map', 'map_overlap', 'records',
         'validate', 'copy', 'view', 'alter', 'describe')
WRITES = ('insert', 'insert_merge', 'update', 'update_depth', 'add_variable',
          'drop_variable', 'drop_partitions', 'drop_old', 'fix')
MODES = ('r', None, 'pickled', 'class', 'w')
GRID = numpy.array([3.5, -2.0])


def scenarios(tier):
    quick = tier == 'quick'
    for layout in ('date:D', ) if quick else ('date:D', 'seq:a,b'):
        for fs in ('mem', 'local', 'memc'):
            for state in STATES:
                for mode in MODES:
                    ops = READS if mode == 'w' else READS + WRITES
                    depth = 2
                    if quick and (fs != 'mem' or mode in (None, 'pickled')):
                        depth = 1
                    if not quick and fs == 'mem' and mode == 'r':
                        depth = 3
                    for seq in itertools.product(ops, repeat=depth):
                        yield (layout, fs, state, mode, seq)
        for fs in ('mem', 'local'):
            yield (layout, fs, 'missing', 'r', ())


def real_ok(scenario):
    return scenario[1] == 'local'


class World:

    def __init__(self, layout, fs, state):
        self.layout = Layout(layout)
        self.env = Env(fs)
        self.state = state
        zds = self.dataset(ROWS)
        coll = kit.create(self.env, self.layout, zds)
        self.base = coll.partition_properties.dir
        if state != 'empty':
            coll.insert(zds)
        fs = self.env.fs
        if state == 'broken':
            # the metadata of a partition was truncated
            path = f'{self.base}/{self.layout.dirname(1)}/.zmetadata'
            with fs.open(path, 'wb') as stream:
                stream.write(b'{"zarr')
        if state == 'unfinished':
            # what an interrupted insertion leaves
            part = f'{self.base}/{self.layout.dirname(3)}'
            fs.makedirs(part + '/v1', exist_ok=True)
            with fs.open(part + '/.zgroup', 'wb') as stream:
                stream.write(b'{}')
            fs.makedirs(f'{self.base}/.0123abcd', exist_ok=True)
            with fs.open(f'{self.base}/.0123abcd/.zgroup', 'wb') as stream:
                stream.write(b'{"zarr_format": 2}')
            fs.invalidate_cache()
        self.snap = self.env.snapshot()
        self.images = self.image()

    def dataset(self, rows):
        arrays = kit.arrays_for(self.layout, rows)
        extra = None
        if self.state == 'fixed':
            arrays['grid'] = GRID
            extra = {'grid': (PIX, )}
        return kit.make_ds(arrays, extra_dims=extra)

    def image(self):
        return (self.env.tree(self.base), self.env.dirs(self.base))

    def open(self, mode):
        if mode == 'class':
            good = kit.open_coll(self.env, mode='r')
            return collection.Collection(
                good.axis, meta.Dataset.from_config(good.metadata.get_config()),
                good.partitioning, self.base, mode='r',
                filesystem=self.env.fs)
        if mode == 'pickled':
            coll = kit.open_coll(self.env, mode='r')
            return pickle.loads(pickle.dumps(coll))
        return kit.open_coll(self.env, mode=mode)

    def key(self, p):
        return dict(self.layout.key(p))


class Touched(OSError):
    """The storage is read-only below the collection."""


def guard(world, seen):
    """The hook that refuses every modification below the collection."""

    def hook(fs, op, path, data=None):
        if op in faults.WRITES and (path == world.base or path.startswith(
                world.base + '/')):
            seen.append((op, path))
            raise Touched(f'{op} {path}')

    return hook


def canon(zds):
    return None if zds is None else {
        name: kit.canon_array(var.values)
        for name, var in sorted(zds.variables.items())
    }


def alter(zds):
    """Write all over a dataset."""
    for var in zds.variables.values():
        values = var.values
        if values.flags.writeable:
            values[...] = values.dtype.type(0) if values.dtype.kind != 'M' \
                else numpy.datetime64(0, 'us')
        var.attrs = ()
    zds.attrs = ()


def altering(zds):
    alter(zds)
    return int(zds.dimensions[DIM])


def extent(zds):
    return tuple(sorted(zds.dimensions.items())), canon(zds)


def constant(zds):
    return {'v1': numpy.zeros(zds.dimensions[DIM])}


def read(world, coll, op):
    """The result of an operation that only reads."""
    size = len(world.base) + 1
    if op == 'partitions':
        return [p[size:] for p in coll.partitions()]
    if op == 'filtered':
        return [
            p[size:] for p in coll.partitions(
                filters=lambda keys: keys != world.key(0))
        ]
    if op == 'variables':
        return [str(v.metadata().get_config()) for v in coll.variables()]
    if op == 'load':
        return canon(coll.load(delayed=False))
    if op == 'load_delayed':
        zds = coll.load()
        return None if zds is None else canon(zds.compute())
    if op == 'load_some':
        return canon(
            coll.load(filters=lambda keys: keys == world.key(0),
                      selected_variables=('v1', ), delayed=False))
    if op == 'load_indexer':
        key = tuple((k, v) for k, v in world.layout.key(0))
        if world.state == 'empty':
            return None
        return canon(coll.load(indexer=[(key, slice(0, 2))], delayed=False))
    if op in ('map', 'map_overlap'):
        if op == 'map':
            bag = coll.map(extent)
        else:
            bag = coll.map_overlap(extent, depth=1)
        return sorted((str(k), v) for k, v in bag.compute())
    if op == 'records':
        return [(name, sorted(group.array_keys()))
                for name, group in coll.iterate_on_records(relative=True)]
    if op == 'validate':
        return sorted(p[size:] for p in coll.validate_partitions())
    if op == 'copy':
        target = world.env.path('copy')
        other = coll.copy(target)
        return [p[len(target) + 1:] for p in other.partitions()]
    if op == 'view':
        return use_view(world)
    if op == 'alter':
        zds = coll.load(delayed=False)
        if zds is not None:
            alter(zds)
            coll.map(altering).compute()
        return None
    if op == 'describe':
        return (str(coll), coll.is_locked(), coll.axis, coll.immutable,
                coll.metadata.get_config())
    raise AssertionError(op)


def use_view(world):
    """The whole life of a view: its reference is only read."""
    path = world.env.path('view')
    item = view.create_view(path,
                            view.ViewReference(world.base, world.env.fs),
                            filesystem=world.env.fs) \
        if hasattr(view, 'create_view') else zcollection.create_view(
            path, view.ViewReference(world.base, world.env.fs),
            filesystem=world.env.fs)
    item.add_variable(
        meta.Variable('x', numpy.dtype('float64'), dimensions=(DIM, )))
    item.update(lambda zds: {'x': zds['v1'].values * 2})
    item.sync()
    out = canon(item.load(delayed=False))
    item.drop_variable('x')
    return out


def write(world, coll, op):
    new = [(0, 1, 2), (0, 2, 2), (3, 0, 2)]
    if op == 'insert':
        coll.insert(world.dataset(new))
    elif op == 'insert_merge':
        coll.insert(world.dataset(new),
                    merge_callable=zcollection.merging.merge_time_series)
    elif op == 'update':
        coll.update(constant, variables=('v1', ))
    elif op == 'update_depth':
        coll.update(constant, variables=('v1', ), depth=1)
    elif op == 'add_variable':
        coll.add_variable(
            meta.Variable('w', numpy.dtype('float64'), dimensions=(DIM, )))
    elif op == 'drop_variable':
        coll.drop_variable('v2')
    elif op == 'drop_partitions':
        coll.drop_partitions(filters=lambda keys: keys == world.key(0))
    elif op == 'drop_old':
        coll.drop_partitions()
    elif op == 'fix':
        coll.validate_partitions(fix=True)
    else:
        raise AssertionError(op)


def attempt(func):
    try:
        return ('ok', func())
    except Touched:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        return ('raises', type(exc).__name__)


#: (layout, fs, state) -> world and the results of the operations alone
_WORLDS: dict = {}


def prepare(layout, fs, state):
    key = (layout, fs, state)
    if key not in _WORLDS:
        _WORLDS.clear()
        _WORLDS[key] = (World(*key), {})
    world, alone = _WORLDS[key]
    world.env.restore(world.snap)
    world.env.fs.invalidate_cache()
    return world, alone


def guarded(world, func):
    """Run with the storage of the collection protected."""
    seen: list = []
    if world.env.kind != 'local':
        world.env.space.hook = guard(world, seen)
    try:
        out = attempt(func)
    except Touched:
        out = None
    finally:
        if world.env.kind != 'local':
            world.env.space.hook = None
    return out, seen


def run(scenario, ctx):
    layout, fs, state, mode, seq = scenario
    with kit.policy(ctx.real, workers=2, eager=True, order='fifo', fs=fs), \
            kit.quiet():
        if state == 'missing':
            return missing(layout, fs, ctx)
        world, alone = prepare(layout, fs, state)
        done = []
        coll = world.open(mode)
        check(coll.is_readonly() == (mode != 'w'),
              f'{mode}: is_readonly() is {coll.is_readonly()}')
        for op in seq:
            done.append(op)
            what = (f'{state} collection opened with {mode!r} on {fs}, '
                    f'{", ".join(done)}')
            if op in READS:
                out, seen = guarded(world, lambda: read(world, coll, op))
            else:
                out, seen = guarded(world, lambda: write(world, coll, op))
            check(not seen, f'{what}: the collection is modified: {seen[:3]}')
            check(world.image() == world.images,
                  f'{what}: the files of the collection changed')
            if op == 'fix' and state != 'broken':
                # there is nothing to repair
                pass
            elif op in WRITES:
                check(out == ('raises', io.UnsupportedOperation.__name__),
                      f'{what}: not refused: {out}')
            else:
                for name in ('copy', 'view'):
                    path = world.env.path(name)
                    if world.env.fs.exists(path):
                        world.env.fs.rm(path, recursive=True)
                        world.env.fs.invalidate_cache()
                if op == 'describe':
                    out = (out[0], out[1][1:])
                if op not in alone:
                    alone[op] = out
                    if state == 'plain':
                        check(out[0] == 'ok', f'{what}: {out}')
                check(out == alone[op],
                      f'{what}: {out} instead of {alone[op]}')
            ctx.step()
            ctx.outcome(f'{op}: {out[0]}')
        ctx.state((layout, fs, state, mode, seq))
    return None


def missing(layout, fs, ctx):
    """Nothing is created by opening what does not exist."""
    env = Env(fs)
    spec = Layout(layout)
    before = (env.tree(), env.dirs())
    for mode in ('r', 'w', None):
        out = attempt(lambda mode=mode: kit.open_coll(env, mode=mode))
        check(out == ('raises', 'ValueError'), f'opened: {out}')
        check((env.tree(), env.dirs()) == before,
              'opening a missing collection created files')
        ctx.step()
    zds = kit.make_ds(kit.arrays_for(spec, ROWS))
    collection.Collection('time', zds.metadata(), spec.handler,
                          env.path('coll'), mode='r', filesystem=env.fs)
    check((env.tree(), env.dirs()) == before,
          'a read-only collection created files')
    out = attempt(lambda: collection.Collection(
        'time', zds.metadata(), spec.handler, env.path('coll'), mode='a',
        filesystem=env.fs))
    check(out == ('raises', 'ValueError'), f'mode a: {out}')
    check((env.tree(), env.dirs()) == before, 'mode a created files')
    ctx.step(2)
    ctx.state((layout, fs, 'missing'))
