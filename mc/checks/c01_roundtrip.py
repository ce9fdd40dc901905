"""C01: what was inserted is what is loaded, over every operation history."""
from __future__ import annotations

import itertools

import numpy

from mc import kit
from mc.env import Env
from mc.kit import Layout, Violation, check

PROPERTY = 'C01'
LEVEL = 'model_checking'
VALIDATE = 31
RULE = ('breadth-first search over the real collection: a state is the exact '
        'content of the storage, a transition is one insert/drop on it; every '
        'state is compared with a reference map partition -> ordered rows')
ASSUMPTIONS = [
    'histories up to the stated depth over the stated alphabet of datasets',
    'one writer; tasks are run to completion (schedules are in C12, faults in '
    'C09, crashes in C10)',
]

# datasets: rows (partition, slot)
DATA = {
    'A': [(0, 0), (0, 2), (1, 0), (1, 2), (1, 4)],
    'B': [(0, 1), (1, 2), (1, 3)],
    'C': [(1, 1)],
    'D': [(2, 0), (2, 3), (3, 1)],
    'E': [(0, 3), (0, 4), (1, 4), (1, 5), (2, 3)],
}
OPS = [('ins', name, merge) for name in DATA for merge in (None, 'ts')] + [
    ('drop', 1),
    ('drop', None),
]


def configs(tier):
    if tier == 'thorough':
        layouts = [
            'date:Y', 'date:M', 'date:D', 'date:h', 'date:m', 'date:s',
            'seq:a', 'seq:a,b', 'seq:a,b,c'
        ]
        return [(layout, delayed, fs, variant) for layout in layouts
                for delayed in (False, True)
                for fs in ('mem', 'local', 'memc') for variant in range(3)]
    out = []
    for layout in ('date:D', 'date:M', 'seq:a', 'seq:a,b'):
        for delayed in (False, True):
            out.append((layout, delayed, 'mem', 0))
            out.append((layout, delayed, 'mem', 1 + delayed))
    for ix, layout in enumerate(('date:D', 'seq:a,b', 'date:h', 'seq:a,b,c')):
        out.append((layout, bool(ix % 2), 'local', ix % 3))
        out.append((layout, not ix % 2, 'memc', (ix + 1) % 3))
    return out


# variant -> (dask chunk, zarr chunk, npartitions, policy)
VARIANTS = [
    (None, None, None, dict(workers=1, eager=True)),
    (2, 2, 1, dict(workers=2, eager=False, order='lifo')),
    (1, 1, 2, dict(workers=3, eager=False, order='fifo', pickle=True)),
]


def scenarios(tier):
    """One scenario explores all the histories starting with a given pair of
    operations, up to the depth, on one configuration."""
    depth = 3 if tier == 'quick' else 4
    for config in configs(tier):
        full = config[2] == 'mem' and config[3] == 0 and (
            tier == 'thorough' or config[0] in ('date:D', 'seq:a,b'))
        for first in range(len(OPS) - 1):
            yield config + (first, depth if full else 2)
    # more partitions than workers, more records than a block
    for layout in ('date:D', 'date:M', 'seq:a'):
        for delayed in (False, True):
            for fs in ('mem', 'local'):
                for variant in range(3):
                    yield ('many', layout, fs, variant, delayed)
    for delayed in (False, True):
        for chunk in (None, 1000, 65536):
            for fs in ('mem', 'local'):
                yield ('large', 'date:D', fs, chunk, delayed)


def rows_of(name, tag):
    return [(p, s, tag) for p, s in DATA[name]]


class World:

    def __init__(self, scenario, ctx) -> None:
        layout, delayed, fs, variant, self.first, self.depth = scenario
        self.ctx = ctx
        self.compared: dict = {}
        self.layout = Layout(layout)
        self.delayed = delayed
        self.env = Env(fs)
        (self.chunk, zchunk, self.npartitions,
         self.policy) = VARIANTS[variant]
        self.chunks = None if zchunk is None else [
            kit.dataset.Dimension(kit.DIM, zchunk)
        ]
        ds = self.dataset('A', 0)
        self.coll = kit.create(self.env, self.layout, ds)
        # The other reader: another process, opened before any data exists.
        self.reader = kit.open_coll(self.env, mode='r')

    def dataset(self, name, tag):
        return kit.make_ds(kit.arrays_for(self.layout, rows_of(name, tag)),
                           delayed=self.delayed, chunk=self.chunk,
                           chunks=self.chunks)

    def apply(self, op, tag, ref):
        """Run the operation on the collection and on the reference."""
        self.ctx.step()
        before = self.env.tree(self.coll.partition_properties.dir)
        if op[0] == 'ins':
            _, name, merge = op
            rows = rows_of(name, tag)
            done = list(
                self.coll.insert(self.dataset(name, tag),
                                 merge_callable=kit.MERGES[merge],
                                 npartitions=self.npartitions))
            new = kit.ref_insert(ref, rows, merge == 'ts')
            touched = sorted({r[0] for r in rows})
        else:
            p = op[1]
            if p is None:
                filters = None
                touched = sorted(ref)
            else:
                key = dict(self.layout.key(p))
                filters = lambda keys: keys == key
                touched = [p] if p in ref else []
            done = list(self.coll.drop_partitions(filters=filters))
            new = {k: v for k, v in ref.items() if k not in touched}
        want = [
            self.coll.partition_properties.dir + '/' + self.layout.dirname(p)
            for p in touched
        ]
        check(done == want, f'{op} reported {done} instead of {want}')
        # The partitions that are not concerned are not modified.
        after = self.env.tree(self.coll.partition_properties.dir)
        prefixes = tuple(self.layout.dirname(p) + '/' for p in touched)
        for name in set(before) | set(after):
            if name.startswith(prefixes) if prefixes else False:
                continue
            check(before.get(name) == after.get(name),
                  f'{op} modified {name} outside the partitions {touched}')
        return new

    def compare(self, ref, history):
        ctx = self.ctx
        # What is read is a function of the content of the storage: a content
        # already compared is not loaded again.
        content = kit.digest(self.env.tree())
        rows = tuple(kit.ref_rows(ref))
        if self.env.kind != 'memc' and self.compared.get(content) == rows:
            ctx.outcome('content already compared')
            return
        self.compared[content] = rows
        what = f'after {history}'
        names = [self.layout.dirname(p) for p in sorted(ref)]
        for coll in (self.coll, self.reader):
            if coll is self.reader and self.env.kind == 'memc':
                # another instance sees the modification once its own cached
                # listings are refreshed
                coll.fs.invalidate_cache()
            got = list(coll.partitions(relative=True))
            check(got == names, f'{what}: partitions {got}, not {names}')
        for delayed in (True, False):
            zds = self.coll.load(delayed=delayed)
            if not rows:
                check(zds is None, f'{what}: data in an empty collection')
                continue
            want = kit.expected_values(kit.arrays_for(self.layout, rows))
            kit.same(want, kit.values_of(zds), f'{what}, load({delayed=})')
            check(zds.delayed == delayed, f'{what}: wrong kind of arrays')
            check(zds.variables['v1'].attrs == kit.variable_props('v1')
                  ['attrs'], f'{what}: attributes lost')
            for name, var in zds.variables.items():
                check(tuple(var.dimensions) == kit.DIMS.get(
                    name, (kit.DIM, )), f'{what}: dimensions of {name}')
        if rows:
            # A part of the records, asked for in another order
            indexer = [(self.layout.key(p), slice(0, 1))
                       for p in sorted(ref, reverse=True)]
            indexer += [(self.layout.key(p), slice(2, 3)) for p in sorted(ref)
                        if len(ref[p]) > 2]
            some = [ref[p][i] for p in sorted(ref) for i in (0, 2)
                    if i < len(ref[p])]
            zds = self.coll.load(delayed=len(rows) % 2 == 1, indexer=indexer)
            kit.same(kit.expected_values(kit.arrays_for(self.layout, some)),
                     kit.values_of(zds), f'{what}, indexer')
            check(zds.variables['v1'].attrs == kit.variable_props('v1')
                  ['attrs'], f'{what}: attributes lost with an indexer')
        for p in sorted(ref):
            key = dict(self.layout.key(p))
            zds = self.coll.load(filters=lambda keys: keys == key,
                                 delayed=False,
                                 selected_variables=['v2', 'time'])
            want = kit.expected_values(
                kit.arrays_for(self.layout, ref[p]))
            kit.same({k: want[k] for k in ('v2', 'time')},
                     kit.values_of(zds), f'{what}, partition {key}')
        ctx.outcome(f'{len(ref)} partitions, {len(rows)} rows')


def run_many(scenario, ctx):
    _, name, fs, variant, delayed = scenario
    count = 45
    layout = Layout(name)
    if layout.kind != 'date':
        layout.seq_keys = [(3 * p, ) for p in range(count)]
    chunk, _, npartitions, policy = VARIANTS[variant]
    with kit.policy(ctx.real, **policy), kit.quiet():
        env = Env(fs)
        rows = [(p, s, 1) for p in range(count) for s in range(1 + p % 3)]
        zds = lambda rows: kit.make_ds(kit.arrays_for(layout, rows),
                                       delayed=delayed, chunk=chunk)
        coll = kit.create(env, layout, zds(rows))
        steps = [
            (rows, None),
            ([r[:2] + (2, ) for r in rows if r[0] % 4 == 1], None),
            ([r[:2] + (3, ) for r in rows if r[0] % 5 < 3 and r[1]], 'ts'),
        ]
        ref: dict = {}
        for ix, (new, merge) in enumerate(steps):
            coll.insert(zds(new), merge_callable=kit.MERGES[merge],
                        npartitions=npartitions)
            ref = kit.ref_insert(ref, new, merge == 'ts')
            got = list(coll.partitions(relative=True))
            check(got == [layout.dirname(p) for p in sorted(ref)],
                  f'step {ix}: partitions {got}')
            want = kit.expected_values(
                kit.arrays_for(layout, kit.ref_rows(ref)))
            for lazy in (True, False):
                kit.same(want, kit.values_of(coll.load(delayed=lazy)),
                         f'{count} partitions, step {ix}, delayed={lazy}')
            half = {p: v for p, v in ref.items() if p % 2}
            keys = [dict(layout.key(p)) for p in half]
            got = coll.load(filters=lambda item, keys=keys: item in keys)
            kit.same(kit.expected_values(
                kit.arrays_for(layout, kit.ref_rows(half))),
                     kit.values_of(got), f'half of {count}, step {ix}')
            indexer = [(layout.key(p), slice(0, 1)) for p in sorted(half)]
            kit.same(kit.expected_values(
                kit.arrays_for(layout, [v[0] for _, v in
                                        sorted(half.items())])),
                     kit.values_of(coll.load(indexer=indexer)),
                     f'indexer on half of {count}, step {ix}')
            ctx.step()
            ctx.state((scenario, ix))
            ctx.outcome(f'{count} partitions')


def run_large(scenario, ctx):
    _, name, fs, chunk, delayed = scenario
    layout = Layout(name)
    with kit.policy(ctx.real, workers=2), kit.quiet():
        env = Env(fs)
        base = [(0, s, 1) for s in range(5)] + [(1, 2 * s, 1)
                                                for s in range(70000)]
        some = [(1, s, 2) for s in range(65530, 65545)] + [(2, 0, 2)]
        zds = lambda rows: kit.make_ds(
            kit.arrays_for(layout, rows), delayed=delayed, chunk=chunk,
            chunks=chunk and [kit.dataset.Dimension(kit.DIM, chunk)])
        coll = kit.create(env, layout, zds(base))
        ref: dict = {}
        for rows, merge in ((base, None), (some, 'ts')):
            coll.insert(zds(rows), merge_callable=kit.MERGES[merge])
            ref = kit.ref_insert(ref, rows, merge == 'ts')
            want = kit.expected_values(
                kit.arrays_for(layout, kit.ref_rows(ref)))
            for lazy in (True, False):
                got = kit.values_of(coll.load(delayed=lazy))
                for var, arr in want.items():
                    check(kit.canon_array(arr) == kit.canon_array(got[var]),
                          f'{len(kit.ref_rows(ref))} records: {var} differs')
            ctx.step()
            ctx.state((scenario, merge))
            ctx.outcome('large')


def run(scenario, ctx):
    if scenario[0] in ('many', 'large'):
        return {'many': run_many, 'large': run_large}[scenario[0]](scenario,
                                                                   ctx)
    with kit.policy(ctx.real, **VARIANTS[scenario[3]][3]), kit.quiet():
        world = World(scenario, ctx)
        env = world.env
        root = env.snapshot()
        ref = world.apply(OPS[world.first], 1, {})
        world.compare(ref, [OPS[world.first]])
        seen = set()
        frontier = [(env.snapshot(), ref, [OPS[world.first]])]
        del root
        for level in range(2, (2 if ctx.real else world.depth) + 1):
            nxt = []
            for snap, ref, history in frontier:
                for op in OPS:
                    env.restore(snap)
                    new = world.apply(op, level, ref)
                    hist = history + [op]
                    world.compare(new, hist)
                    key = kit.digest(env.tree())
                    ctx.state(key)
                    if key in seen:
                        continue
                    seen.add(key)
                    nxt.append((env.snapshot(), new, hist))
            frontier = nxt


def real_ok(scenario):
    return scenario[2] != 'memc'
