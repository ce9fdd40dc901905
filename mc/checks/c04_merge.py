"""C04: merging a time series replaces exactly the period it covers."""
from __future__ import annotations

import itertools

import dask.array
import numpy

from mc import kit
from mc.env import Env
from mc.kit import Layout, check
from zcollection import dataset
from zcollection.merging import merge_time_series

PROPERTY = 'C04'
LEVEL = 'model_checking'
VALIDATE = 0
RULE = ('every pair (existing records, inserted records) of non-empty subsets '
        'of a grid of instants, for every tolerance; the expected result is '
        'computed on the sets of instants')
ASSUMPTIONS = ['instants on a grid of the stated size']


def subsets(size):
    for mask in range(1, 2**size):
        yield tuple(i for i in range(size) if mask >> i & 1)


def scenarios(tier):
    size = 6 if tier == 'quick' else 8
    for tolerance in (None, 0, 1, 2, 3, 10):
        for delayed in (False, True):
            if delayed and tier == 'quick' and tolerance in (0, 3, 10):
                continue
            for existing in subsets(size if not delayed else size - 1):
                yield ('direct', tolerance, delayed, existing,
                       size if not delayed else size - 1)
    for unit in ('ns', 'us', 'ms', 's'):
        for step in (1, 7):
            for existing in subsets(5):
                yield ('unit', unit, step, existing)
    for existing in itertools.combinations_with_replacement(range(4), 4):
        yield ('duplicates', existing)
    for tolerance in (None, 1, 2):
        for existing in subsets(5 if tier == 'quick' else 6):
            yield ('collection', tolerance, existing,
                   5 if tier == 'quick' else 6)


def reference(existing, inserted, tolerance):
    """Lists of (instant, origin)."""
    if tolerance is None:
        pieces = [list(inserted)]
    else:
        pieces = []
        for item in inserted:
            if pieces and item[0] - pieces[-1][-1][0] <= tolerance:
                pieces[-1].append(item)
            else:
                pieces.append([item])
    out = list(existing)
    for piece in pieces:
        lo, hi = piece[0][0], piece[-1][0]
        out = [r for r in out if r[0] < lo] + piece + [
            r for r in out if r[0] > hi
        ]
    return out


def build(rows, delayed, unit='us', step=1, chunk=None):
    time = numpy.array([numpy.datetime64('2000-01-01', unit) +
                        numpy.timedelta64(t * step, unit) for t, _ in rows])
    v1 = numpy.array([100.0 * o + t for t, o in rows])
    v2 = numpy.array([[1000 * o + 10 * t, 1000 * o + 10 * t + 1]
                      for t, o in rows], dtype='int32')
    cls = dataset.DelayedArray if delayed else dataset.Array
    wrap = (lambda a: dask.array.from_array(
        a, chunks=(chunk or len(a), ) + a.shape[1:])) if delayed else (
            lambda a: a)
    return dataset.Dataset([
        cls('time', wrap(time), ('x', ),
            attrs=(dataset.Attribute('units', 'u'), )),
        cls('v1', wrap(v1), ('x', ), fill_value=103.0),
        cls('v2', wrap(v2), ('x', 'y')),
    ])


def expect(rows, unit='us', step=1):
    zds = build(rows, False, unit, step)
    return kit.values_of(zds)


def compare(ctx, existing, inserted, tolerance, delayed, what, unit='us',
            step=1, key=None):
    ctx.step()
    old = [(t, 1) for t in existing]
    new = [(t, 2) for t in inserted]
    kwargs = {}
    if tolerance is not None:
        kwargs['tolerance'] = numpy.timedelta64(tolerance * step, unit)
    one, two = build(old, delayed, unit, step, 2), build(new, delayed, unit,
                                                         step, 1)
    got = merge_time_series(one, two, 'time', 'x', **kwargs)
    want = reference(old, new, tolerance)
    kit.same(expect(want, unit, step), kit.values_of(got),
             f'{what}: existing {existing}, inserted {inserted}, tolerance '
             f'{tolerance}')
    # the arguments are left as they were
    kit.same(expect(old, unit, step), kit.values_of(one),
             f'{what}: the existing dataset was modified')
    kit.same(expect(new, unit, step), kit.values_of(two),
             f'{what}: the inserted dataset was modified')
    ctx.outcome(f'{len(want)} records')


def run(scenario, ctx):
    with kit.policy(ctx.real), kit.quiet():
        kind = scenario[0]
        if kind == 'direct':
            _, tolerance, delayed, existing, size = scenario
            for inserted in subsets(size):
                ctx.state((tolerance, delayed, existing, inserted))
                compare(ctx, existing, inserted, tolerance, delayed, 'merge')
        elif kind == 'unit':
            _, unit, step, existing = scenario
            for inserted in subsets(5):
                ctx.state((unit, step, existing, inserted))
                compare(ctx, existing, inserted, None, False, f'[{unit}]',
                        unit, step)
        elif kind == 'duplicates':
            # several records at the same instant
            existing = scenario[1]
            for inserted in itertools.combinations_with_replacement(
                    range(4), 3):
                ctx.state((existing, inserted))
                compare(ctx, existing, inserted, None, False, 'duplicates')
        else:
            run_collection(scenario, ctx)


_ENVS: dict = {}


def run_collection(scenario, ctx):
    """The same through a collection: what is stored is the merge, and the
    other partitions are not changed."""
    _, tolerance, existing, size = scenario
    layout = Layout('seq:a')
    env = Env('mem')
    coll = kit.create(
        env, layout, kit.make_ds(kit.arrays_for(layout, [(0, 0, 1)])))
    other = [(1, 0, 7), (1, 1, 7)]
    coll.insert(
        kit.make_ds(
            kit.arrays_for(layout, [(0, t, 1) for t in existing] + other)))
    snap = env.snapshot()
    kwargs = {}
    if tolerance is not None:
        kwargs['tolerance'] = numpy.timedelta64(tolerance, 'us')
    masks = list(subsets(size))
    if ctx.tier == 'quick':
        masks = masks[sum(existing) % 3::3]
    for inserted in masks:
        env.restore(snap)
        ctx.state((scenario, inserted))
        ctx.step()
        coll.insert(
            kit.make_ds(kit.arrays_for(layout, [(0, t, 2) for t in inserted])),
            merge_callable=merge_time_series, **kwargs)
        want = reference([(t, 1) for t in existing],
                         [(t, 2) for t in inserted], tolerance)
        rows = [(0, t, o) for t, o in want] + other
        kit.same(kit.expected_values(kit.arrays_for(layout, rows)),
                 kit.values_of(coll.load(delayed=False)),
                 f'collection: existing {existing}, inserted {inserted}, '
                 f'tolerance {tolerance}')
        ctx.outcome('collection')
