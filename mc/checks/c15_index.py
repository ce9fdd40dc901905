"""C15: an index selects exactly the records of the entries that match."""
from __future__ import annotations

import functools
import itertools
import operator

import numpy

from mc import kit
from mc.env import Env
from mc.kit import Layout, check
from zcollection import indexing

PROPERTY = 'C15'
LEVEL = 'model_checking'
VALIDATE = 9
RULE = ('every content of the indexed partitions (labels of the records), '
        'every set of entries in a partition, overlapping or not, every query '
        '(columns, operators, mask), and every sequence of insertions, '
        'removals, updates of the index and reopenings up to the depth')
ASSUMPTIONS = ['the records of a query are loaded when the partitions of the '
               'index exist (the entries of a removed partition stay in the '
               'index)', 'up to four records per partition, labels in {0, 1}^2 and '
               'two-byte names']

LABELS = [(0, 0), (0, 1), (1, 0), (1, 1)]
NAMES = {(0, 0): b'aa', (0, 1): b'ab', (1, 0): b'ba', (1, 1): b'bb'}
OPERATORS = ('and', 'and_not', 'or', 'xor', 'invert')
NOTHING = -1  #: label of the records that are not indexed


# -- the index -----------------------------------------------------------------
def runs(labels):
    """Entries (start, stop, label) of the constant parts."""
    out = []
    for ix, label in enumerate(labels):
        if label == NOTHING:
            continue
        if out and out[-1][2] == label and out[-1][1] == ix:
            out[-1] = (out[-1][0], ix + 1, label)
        else:
            out.append((ix, ix + 1, label))
    return out


def by_runs(zds, *, dtype=None, named=False):
    """The label is stored in the variable v1."""
    values = [
        NOTHING if int(v) < 0 else LABELS[int(v)] for v in zds['v1'].values
    ]
    return array(runs(values), dtype, named)


def by_table(zds, *, dtype=None, named=False, table=()):
    """The entries are given."""
    del zds
    return array(table, dtype, named)


def array(entries, dtype, named):
    rows = [(a, b, *label) + ((NAMES[label], ) if named else ())
            for a, b, label in entries]
    return numpy.array(rows, dtype=dtype)


class Index(indexing.Indexer):

    named = False

    def dtype(self, **kwargs):
        return super().dtype() + [('c', 'uint16'), ('d', 'int64')] + (
            [('name', 'S2')] if self.named else [])

    @classmethod
    def create(cls, path, zds, *, filesystem=None, **kwargs):
        return super()._create(path, zds, meta={'attribute': b'value'},
                               filesystem=filesystem)

    def update(self, zds, *, partition_size=None, npartitions=None,
               func=by_runs, **kwargs):
        super()._update(zds, func, partition_size, npartitions,
                        dtype=self.dtype(), named=self.named, **kwargs)


class Named(Index):
    named = True


# -- the reference ---------------------------------------------------------------
def matches(label, columns, op):
    """Does an entry match the query?"""
    if not columns:
        return True
    values = {'c': label[0], 'd': label[1], 'name': NAMES[label]}

    def one(name):
        wanted = columns[name]
        if not isinstance(wanted, (list, tuple)):
            wanted = [wanted]
        return values[name] in wanted

    func = {
        'and': operator.and_,
        'or': operator.or_,
        'xor': operator.xor,
        'and_not': lambda a, b: a and not b,
        'invert': operator.and_,
    }[op or 'and']
    found = functools.reduce(func, [one(name) for name in columns])
    return not found if op == 'invert' else found


def queries(named):
    """(columns, operator)"""
    single = [{'c': 0}, {'c': [1]}, {'c': [0, 1]}, {'d': (1, )}, {'c': []}]
    double = [{'c': 0, 'd': 1}, {'d': [0], 'c': 1}, {'c': [0, 1], 'd': 0}]
    if named:
        single = [{'name': b'aa'}, {'name': [b'aa', b'ab']}, {'name': b'ab'}]
        double = [{'name': [b'ba'], 'c': 1}, {'c': 0, 'name': b'aa'}]
    yield {}, None
    for columns in single:
        yield columns, None
    yield single[0], 'invert'
    for columns in double:
        for op in OPERATORS:
            yield columns, op


def rows_of(entries, columns, op):
    """Positions selected in the partition."""
    return sorted({
        ix
        for a, b, label in entries if matches(label, columns, op)
        for ix in range(a, b)
    })


# -- scenarios ---------------------------------------------------------------------
def scenarios(tier):
    quick = tier == 'quick'
    sizes = (1, 2, 3) if quick else (1, 2, 3, 4)
    for size in sizes:
        contents = list(itertools.product((NOTHING, 0, 1, 2, 3), repeat=size))
        step = 8
        for ix in range(0, len(contents), step):
            yield ('contents', 'date:D', 'mem', size, ix, ix + step)
    for layout, fs in (('seq:a,b', 'mem'), ('date:h', 'local')):
        for ix in range(0, 125, 8):
            yield ('contents', layout, fs, 3, ix, ix + 8)
    for size in range(4 if quick else 5):
        count = sum(1 for _ in tables(size))
        for ix in range(0, count, 60):
            yield ('tables', 'date:D', 'mem', size, ix, ix + 60)
    depth = 3 if quick else 4
    for layout in ('date:D', ) if quick else ('date:D', 'seq:a,b'):
        for seq in itertools.product(HISTORY, repeat=depth):
            if any(a == b for a, b in zip(seq, seq[1:])):
                continue
            for fs in ('mem', 'local'):
                if fs == 'local' and seq[-1] != 'index':
                    continue
                yield ('history', layout, fs, seq)


def real_ok(scenario):
    return scenario[2] == 'local'


def run(scenario, ctx):
    with kit.policy(ctx.real, workers=2, eager=False, order='lifo'), \
            kit.quiet():
        {
            'contents': run_contents,
            'tables': run_tables,
            'history': run_history
        }[scenario[0]](scenario, ctx)


class World:

    def __init__(self, layout, fs):
        self.layout = Layout(layout)
        self.env = Env(fs)
        self.path = self.env.path('index.parquet')
        zds = self.dataset({0: [0]})
        self.coll = kit.create(self.env, self.layout, zds)

    def dataset(self, content):
        rows = [(p, s, 1) for p in sorted(content)
                for s in range(len(content[p]))]
        arrays = kit.arrays_for(self.layout, rows)
        arrays['v1'] = numpy.array(
            [float(v) for p in sorted(content) for v in content[p]])
        return kit.make_ds(arrays)

    def index(self, cls=Index):
        return cls.create(self.path, self.coll, filesystem=self.env.fs)


def label(value):
    return NOTHING if value == NOTHING else LABELS[value]


def verify(world, index, entries, content, what, named, load=False):
    """entries: partition -> entries; content: partition -> labels."""
    for columns, op in queries(named):
        text = f'{what}, query {columns} {op}'
        got = list(index.query(columns, logical_op=op))
        want = {}
        for p in sorted(entries):
            rows = rows_of(entries[p], columns, op)
            if rows:
                want[world.layout.key(p)] = rows
        found = expand(got, text)
        check(found == want, f'{text}: selects {found} instead of {want}')
        full = list(
            index.query(columns, logical_op=op, only_partition_keys=False))
        pairs = set()
        names = world.handler_names
        for key, item in full:
            key = dict(key)
            where = tuple((n, int(key[n])) for n in names)
            for ix in range(item.start, item.stop):
                pairs.add((where, int(key['c']), int(key['d']), int(ix)))
        all_pairs = {(world.layout.key(p), *lab, ix)
                     for p in entries for a, b, lab in entries[p]
                     if matches(lab, columns, op) for ix in range(a, b)}
        check(pairs == all_pairs,
              f'{text}, all the columns: {sorted(pairs)} instead of '
              f'{sorted(all_pairs)}')
        if load:
            zds = world.coll.load(
                indexer=index.query(columns, logical_op=op), delayed=False)
            values = [
                content[p][ix] for p in sorted(content)
                for ix in want.get(world.layout.key(p), ())
            ]
            rows = [] if zds is None else [int(v) for v in zds['v1'].values]
            check(rows == values, f'{text}: loads {rows} instead of {values}')


def expand(indexer, what):
    out = {}
    for key, item in indexer:
        key = tuple((n, int(v)) for n, v in key)
        out.setdefault(key, []).extend(range(item.start, item.stop))
    for key, rows in out.items():
        check(rows == sorted(set(rows)),
              f'{what}: {key} gives the records {rows}')
        out[key] = [int(r) for r in rows]
    return out


def run_contents(scenario, ctx):
    _, layout, fs, size, first, last = scenario
    contents = list(itertools.product((NOTHING, 0, 1, 2, 3), repeat=size))
    for ix, values in enumerate(contents[first:last]):
        world = World(layout, fs)
        world.handler_names = [n for n, _ in world.layout.key(0)]
        named = ix % 2 == 1
        # the second partition starts as the first one ends
        content = {0: values, 1: values[::-1], 2: (NOTHING, )}
        world.coll.insert(world.dataset(content))
        index = world.index(Named if named else Index)
        index.update(world.coll, npartitions=1 + ix % 2)
        entries = {p: runs([label(v) for v in content[p]]) for p in content}
        what = f'partitions {content}'
        if not any(entries.values()):
            ctx.outcome('empty')
            continue
        verify(world, index, entries, content, what, named, load=ix % 4 == 0)
        again = type(index).open(world.path, filesystem=world.env.fs)
        check(again.meta == {'attribute': b'value'},
              f'{what}: metadata {again.meta}')
        verify(world, again, entries, content, f'{what}, reopened', named)
        masks(world, again, entries, what)
        ctx.step()
        ctx.state((layout, fs, values))
        ctx.outcome('contents')


def masks(world, index, entries, what):
    """The mask selects rows of the table."""
    import pyarrow
    table = index.table
    rows = table.to_pylist()
    for parity in (0, 1):
        mask = pyarrow.chunked_array([[i % 2 == parity
                                       for i in range(len(rows))]])
        got = expand(index.query({'c': 1}, mask=mask), what)
        want = {}
        for i, row in enumerate(rows):
            if i % 2 == parity and row['c'] == 1:
                key = tuple((n, row[n]) for n in world.handler_names)
                want.setdefault(key, set()).update(
                    range(row['start'], row['stop']))
        want = {k: sorted(v) for k, v in want.items()}
        check(got == want, f'{what}, mask {parity}: {got} instead of {want}')


def tables(size):
    """Sets of entries on four records."""
    slices = [(a, b) for a in range(4) for b in range(a + 1, 5)]
    for chosen in itertools.combinations(slices, size):
        for labels in itertools.product(((0, 0), (1, 1)), repeat=size):
            yield [(a, b, lab) for (a, b), lab in zip(chosen, labels)]


def run_tables(scenario, ctx):
    _, layout, fs, size, first, last = scenario
    world = World(layout, fs)
    world.handler_names = [n for n, _ in world.layout.key(0)]
    content = {0: (0, 1, 2, 3), 1: (3, 2, 1, 0)}
    world.coll.insert(world.dataset(content))
    index = world.index()
    index.update(world.coll)
    for ix, table in enumerate(
            itertools.islice(tables(size), first, last)):
        # entries come in any order
        given = table[::-1] if ix % 2 else table
        index.update(world.coll, func=by_table, table=given)
        entries = {0: table, 1: table}
        verify(world, index, entries, content, f'entries {given}', False,
               load=ix % 8 == 0)
        ctx.step()
        ctx.state((size, first, ix))
        ctx.outcome('entries')


HISTORY = ('index', 'index_0', 'index_1', 'over_0', 'blank_0', 'new_2',
           'drop_1', 'open')


def run_history(scenario, ctx):
    _, layout, fs, seq = scenario
    world = World(layout, fs)
    world.handler_names = [n for n, _ in world.layout.key(0)]
    content = {0: (0, 0, 1), 1: (1, 3)}
    world.coll.insert(world.dataset(content))
    index = world.index()
    index.update(world.coll)
    entries = {}
    model(entries, content, content)
    done = []
    for op in seq:
        done.append(op)
        what = ', '.join(done)
        new = {
            'over_0': {0: (2, 0, 0, 0)},
            'blank_0': {0: (NOTHING, NOTHING)},
            'new_2': {2: (1, 1), 1: (2, )},
        }.get(op)
        if new:
            world.coll.insert(world.dataset(new))
            content.update(new)
        elif op == 'drop_1':
            world.coll.drop_partitions(filters=filters(world, 1))
            content.pop(1, None)
        elif op == 'open':
            index = Index.open(world.path, filesystem=world.env.fs)
        elif op == 'index':
            index.update(world.coll)
            model(entries, content, content)
        else:
            p = int(op[-1])
            index.update(world.coll, filters=filters(world, p))
            model(entries, content, [p])
        verify(world, index, entries, content, what, False)
        ctx.step()
        ctx.outcome(op)
    if all(entries.get(p, []) == runs([label(v) for v in content[p]])
           for p in content) and all(p in content for p in entries):
        verify(world, index, entries, content, what, False, load=True)
    ctx.state((layout, fs, seq))


def model(entries, content, parts):
    for p in parts:
        if p in content:
            entries[p] = runs([label(v) for v in content[p]])


def filters(world, p):
    return ' and '.join(f'{k} == {v}' for k, v in world.layout.key(p))
