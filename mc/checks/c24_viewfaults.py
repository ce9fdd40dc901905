"""C24: a failure or a crash never leaves a view that cannot be used again."""
from __future__ import annotations

from mc import faults, kit
from mc.kit import check
from mc.views import World, blank, variable
import zcollection

PROPERTY = 'C24'
LEVEL = 'fault_enumeration'
CHUNK = 1
PARTS = 4
RULE = ('every primitive step of the storage met by an operation of a view '
        'fails, or is the last one before the process stops; the write it '
        'interrupts reached the storage not at all, empty, or half (local '
        'filesystem)')
ASSUMPTIONS = [
    'the storage keeps every step that completed before the crash, in order; '
    'an object of a remote store is written entirely or not at all',
    'a directory left by the interrupted creation of a view is removed by '
    'the user',
    'the values of a partition that a synchronization was writing may be '
    'reset; if its files are damaged, the first synchronization says so '
    'and the second one succeeds',
]

OPS = ('create', 'add_y', 'drop_x', 'update', 'sync_extend', 'sync_replace',
       'sync_new', 'sync_0')


def scenarios(tier):
    for op in OPS:
        for fs in ('mem', 'local'):
            for mode in ('fault', 'full', 'crash'):
                for eager in (True, False):
                    if tier == 'quick' and eager == (fs == 'mem'):
                        continue
                    for torn in ((None, 0, 0.5)
                                 if (mode, fs) == ('crash', 'local') else
                                 (None, )):
                        for part in range(PARTS):
                            yield (op, fs, mode, eager, torn, part)


class Subject:
    """A view with a variable whose values are defined."""

    def __init__(self, op, fs):
        self.op = op
        self.world = world = World('date:D', fs, (0, 1, 2, 3))
        self.model = world.model
        if op == 'create':
            world.env.fs.rm(world.path, recursive=True)
            world.view = None
        else:
            world.add(world.view, 'x', self.model)
            world.view.update(values_x, 2.0)
            self.set_x(self.model, 2.0)
        if op.startswith('sync_') and op != 'sync_0':
            world.insert(op[5:], self.model)
        self.snap = world.env.snapshot()
        self.wanted = self.model.clone()
        self.finish(self.wanted)

    def set_x(self, model, factor):
        for p in model.listed():
            time = kit.arrays_for(self.world.layout, model.ref[p])['time']
            model.parts[p]['data']['x'] = time.astype(
                'int64') % 1000 * factor

    def finish(self, model):
        """What the operation does."""
        if self.op == 'add_y':
            model.vars.append('y')
            for p in model.listed():
                model.parts[p]['data']['y'] = blank('y', len(model.ref[p]))
        elif self.op == 'drop_x':
            model.vars.remove('x')
            for part in model.parts.values():
                part['data'].pop('x', None)
        elif self.op == 'update':
            self.set_x(model, 3.0)
        elif self.op == 'sync_0':
            model.filters = {0}
            model.sync()
        elif self.op.startswith('sync'):
            model.sync()

    def restore(self):
        self.world.env.restore(self.snap)
        self.world.env.fs.invalidate_cache()
        if self.op == 'create':
            return None
        return zcollection.open_view(self.world.path,
                                     filesystem=self.world.env.fs)

    def do(self, view):
        world = self.world
        if self.op == 'create':
            return zcollection.create_view(
                world.path,
                zcollection.view.ViewReference(world.env.path('coll'),
                                               world.env.fs),
                filesystem=world.env.fs)
        if self.op == 'add_y':
            view.add_variable(variable('y'))
        elif self.op == 'drop_x':
            view.drop_variable('x')
        elif self.op == 'update':
            view.update(values_x, 3.0)
        elif self.op == 'sync_0':
            view.sync(filters=world.filters((0, )))
        else:
            view.sync()
        return view


def values_x(zds, factor):
    return {'x': zds['time'].values.astype('int64') % 1000 * factor}


def run(scenario, ctx):
    op, fs, mode, eager, torn, part = scenario
    with kit.policy(ctx.real, workers=2, eager=eager, order='fifo'), \
            kit.quiet():
        subject = Subject(op, fs)
        world = subject.world
        kinds = faults.WRITES
        if mode == 'fault':
            kinds = kinds + faults.READS
        inj = faults.Injector(world.env, kinds)
        view = subject.restore()
        reference = world.env.tree(world.env.path('coll'))
        with inj.run('count'):
            view = subject.do(view)
        world.verify(subject.wanted, f'{op}: without a failure', view,
                     reference)
        steps = list(inj.log)
        for k in range(1, len(steps) + 1):
            if k % PARTS != part:
                continue
            if torn is not None and steps[k - 1][0] != 'write':
                continue
            view = subject.restore()
            where = steps[k - 1][1].replace(world.env.root, '')
            what = (f'{op}: {mode} at step {k} ({steps[k - 1][0]} {where}' +
                    (')' if torn is None else f', {torn} of the data '
                     'written)'))
            error = None
            with inj.run(mode, k, torn):
                try:
                    result = subject.do(view)
                except faults.Crash:
                    error = 'crash'
                except Exception as exc:  # pylint: disable=broad-except
                    error = exc
            if inj.hit is None:
                continue  # another order
            check(world.env.tree(world.env.path('coll')) == reference,
                  f'{what}: the files of the reference changed')
            ctx.step()
            ctx.state((scenario[:5], k))
            if error is None:
                # the failure had no consequence
                world.verify(subject.wanted, f'{what}, not reported', result,
                             reference)
                ctx.outcome('harmless')
                continue
            if mode != 'crash':
                after_failure(subject, view, what)
            recover(subject, what, reference)
            ctx.outcome('recovered')


def after_failure(subject, view, what):
    """The object in memory and the stored view agree."""
    if view is None:
        return
    other = subject.world.open()
    check(sorted(view.metadata.variables) == sorted(
        other.metadata.variables),
          f'{what}: variables {sorted(view.metadata.variables)} in memory, '
          f'{sorted(other.metadata.variables)} stored')
    if subject.op == 'add_y':
        check('y' not in other.metadata.variables,
              f'{what}: the addition is not cancelled')


def recover(subject, what, reference):
    """A new process completes what was interrupted."""
    world, op = subject.world, subject.op
    fs = world.env.other('restarted')
    saved, world.env.fs = world.env.fs, fs
    try:
        if op == 'create':
            try:
                view = zcollection.open_view(world.path, filesystem=fs)
            except ValueError:
                if fs.exists(world.path):
                    fs.rm(world.path, recursive=True)
                    fs.invalidate_cache()
                view = subject.do(None)
            view.sync()
            world.verify(subject.wanted, f'{what}, recovered', view,
                         reference)
            model = subject.wanted.clone()
            world.add(view, 'x', model)
            world.verify(model, f'{what}, recovered, and added later', view,
                         reference)
            return
        view = zcollection.open_view(world.path, filesystem=fs)
        intact(subject, view, what)
        if op.startswith('sync_') and op != 'sync_0':
            try:
                view.sync()
            except Exception:  # pylint: disable=broad-except
                # what is damaged is reported, and removed
                view.sync()
        elif op == 'sync_0':
            subject.do(view)
        elif op == 'add_y':
            if 'y' not in view.metadata.variables:
                subject.do(view)
        elif op == 'drop_x':
            if 'x' in view.metadata.variables:
                subject.do(view)
        else:
            subject.do(view)
        final(subject, view, what, reference)
        # and later changes of the reference are followed
        later(subject, what)
    finally:
        world.env.fs = saved


def intact(subject, view, what):
    """What the operation does not concern is as it was."""
    world, model, op = subject.world, subject.model, subject.op
    names = set(view.metadata.variables)
    check(names in (set(model.vars), set(subject.wanted.vars)),
          f'{what}: variables {sorted(names)}')
    if op == 'add_y':
        untouched = model.listed()
    elif op in ('sync_new', 'sync_0'):
        untouched = [p for p in model.listed() if p < 3]
    elif op in ('sync_extend', 'sync_replace'):
        untouched = [1, 2]
    else:
        return
    zds = view.load(delayed=False, filters=world.filters(untouched),
                    selected_variables=['time', 'v1', 'x'])
    want = {k: v for k, v in model.expected(world.layout, untouched).items()
            if k in ('time', 'v1', 'x')}
    check(zds is not None, f'{what}: {untouched} cannot be read')
    kit.same(want, kit.values_of(zds), f'{what}, partitions {untouched}')


def final(subject, view, what, reference):
    """The expected result, where a partition which was synchronized may have
    been reset."""
    model = subject.wanted.clone()
    if subject.op == 'sync_extend':
        zds = view.load(delayed=False,
                        filters=subject.world.filters((0, )))
        check(zds is not None, f'{what}: partition 0 cannot be read')
        got = kit.values_of(zds)['x']
        if got.mask.all():
            model.parts[0]['data']['x'] = blank('x', len(model.ref[0]))
    subject.world.verify(model, f'{what}, recovered', view, reference,
                         leftovers=subject.op == 'drop_x')


def later(subject, what):
    """The view that was repaired follows its reference."""
    world = subject.world
    model = subject.wanted.clone()
    text = f'{what}, recovered'
    # 'extend' keeps the values of partition 0, 'replace' resets them
    world.insert('replace' if subject.op == 'sync_extend' else 'extend',
                 model)
    view = world.open()
    view.sync()
    model.sync()
    world.verify(model, f'{text}, and synchronized later', view,
                 leftovers=True)
    if subject.op == 'drop_x':
        world.add(view, 'x', model)
        world.verify(model, f'{text}, and added later', view)
