"""C14: a view follows its reference when it is synchronized."""
from __future__ import annotations

import itertools

import numpy

from mc import kit
from mc.kit import check
from mc.views import INSERTS, LONG, World
import zcollection

PROPERTY = 'C14'
LEVEL = 'model_checking'
VALIDATE = 23
RULE = ('every sequence of changes of the reference, of the view, and of '
        'synchronizations up to the depth, for views on all or some of the '
        'partitions')
ASSUMPTIONS = ['four partitions, up to five records each']

REF = ('extend', 'same', 'replace', 'before', 'shrink', 'new', 'remove',
       'middle', 'grown')
VIEW = ('update', 'add_y', 'drop_x', 'reopen', 'sync', 'sync_all', 'sync_3',
        'sync_0')
SUBSETS = ((0, 1, 2, 3), (0, 1), ())


def scenarios(tier):
    depth = 3 if tier == 'quick' else 4
    layouts = ('date:D', ) if tier == 'quick' else ('date:D', 'seq:a,b')
    for layout in layouts:
        for subset in SUBSETS:
            for seq in itertools.product(REF + VIEW, repeat=depth):
                if seq[-1] not in ('sync', 'sync_all', 'sync_3', 'sync_0',
                                   'reopen', 'update', 'add_y'):
                    continue
                if not any(op in REF for op in seq):
                    continue
                if any(a == b for a, b in zip(seq, seq[1:])):
                    continue
                if any(seq.count(op) > 1 for op in
                       ('same', 'new', 'remove', 'add_y', 'drop_x', 'sync_3',
                        'sync_0', 'middle', 'grown')):
                    continue
                for fs in ('mem', 'local'):
                    if fs == 'local' and (depth > 3 or seq[-1] != 'sync'
                                          or subset != (0, 1)):
                        continue
                    yield (layout, subset, fs, 'text', seq)
                    # a filter which is a function; variables whose first
                    # dimension is not the one of the axis
                    if fs == 'mem' and subset == (0, 1) and (
                            'reopen' in seq or depth > 3):
                        yield (layout, subset, fs, 'call', seq)
                    if fs == 'mem' and len(subset) == 4 and any(
                            op in ('extend', 'grown', 'replace', 'add_y')
                            for op in seq):
                        yield (layout, subset, fs, 'turned', seq)


def real_ok(scenario):
    return scenario[2] == 'local'


def doubled(zds, names):
    out = zds['time'].values.astype('int64') % 1000 * 2.0
    return {'x': out, **({'t': spread(out)} if 't' in names else {})}


def spread(values):
    return numpy.array([values + 1, values + 2])


def update(world, view, model):
    """x is computed from the reference, where the view is synchronized."""
    good = [p for p in model.listed() if model.synced(p)]
    if 'x' not in model.vars or not good:
        return
    view.update(doubled, tuple(model.vars), filters=world.filters(good))
    for p in good:
        time = kit.arrays_for(world.layout, model.ref[p])['time']
        model.parts[p]['data']['x'] = time.astype('int64') % 1000 * 2.0
        if 't' in model.vars:
            model.parts[p]['data']['t'] = spread(
                model.parts[p]['data']['x'])


def run(scenario, ctx):
    layout, subset, fs, kind, seq = scenario
    with kit.policy(ctx.real, workers=2, eager=True, order='fifo'), \
            kit.quiet():
        world = World(layout, fs, subset, start=LONG, turned=kind == 'turned',
                      kind='call' if kind == 'call' else 'text')
        model = world.model
        view = world.view
        world.add(view, 'x', model)
        if kind == 'turned':
            world.add(view, 't', model)
        update(world, view, model)
        done = []
        for op in seq:
            done.append(op)
            what = f'view on {subset} ({kind}), {", ".join(done)}'
            reference = None
            if op not in REF:
                reference = world.env.tree(world.env.path('coll'))
            if op in INSERTS:
                world.insert(op, model)
            elif op == 'remove':
                kit.open_coll(world.env).drop_partitions(
                    filters=world.filters((1, )))
                model.ref.pop(1, None)
                stale = model.parts.pop(1, None)
                if stale is not None:
                    model.hidden = stale
            elif op == 'update':
                update(world, view, model)
            elif op == 'add_y':
                world.add(view, 'y', model)
            elif op == 'drop_x':
                world.drop(view, 'x', model)
            elif op == 'reopen':
                view = world.open()
            else:
                synchronize(world, view, model, op, what)
            if op in ('same', 'before') and getattr(model, 'hidden', None):
                # the removed partition is back: its directory in the view
                # was kept
                model.parts[1] = model.hidden
                model.hidden = None
            world.verify(model, what, view, reference)
            ctx.step()
            ctx.outcome(op)
        ctx.state((layout, subset, fs, kind, model.key()))
    return None


def synchronize(world, view, model, op, what):
    if op == 'sync':
        got = view.sync()
    else:
        chosen = {'sync_all': (0, 1, 2, 3), 'sync_3': (3, ),
                  'sync_0': (0, )}[op]
        got = view.sync(filters=world.filters(chosen))
        # partitions created by the call are up to date before it compares
        created = [p for p in chosen if p in model.ref
                   and p not in model.parts]
        model.filters = set(chosen)
        changed = model.sync()
        names = [world.number(p) for p in view.partitions(filters=got)]
        check(set(changed) - set(created) <= set(names) <= set(changed),
              f'{what}: the filter selects {names} instead of {changed}')
        return
    changed = model.sync()
    names = [world.number(p) for p in view.partitions(filters=got)]
    check(names == changed,
          f'{what}: the filter selects {names} instead of {changed}')
    check(view.is_synced(), f'{what}: still not synchronized')
