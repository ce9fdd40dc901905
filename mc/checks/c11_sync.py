"""C11: operations of several clients that share a synchronizer behave as if
they were done one after the other."""
from __future__ import annotations

import itertools

from mc import faults, kit, ops, sched, sim
from mc.kit import check
from mc.ops import World
from zcollection import sync

PROPERTY = 'C11'
LEVEL = 'model_checking'
VALIDATE = 0
RULE = ('every pair of operations of two clients x every schedule of the '
        'client and worker threads with at most the given number of delays; '
        'every single storage failure of an operation x the schedules of its '
        'workers')
ASSUMPTIONS = [
    'the threads are switched at the lock, when they wait for each other, and '
    'at the steps that write to the storage (all the steps, when the bound is '
    'more than one delay)',
    'the lock of the synchronizer is exclusive (see C23)',
]
CHUNK = 1
PARTS = 4
#: failures combined with the schedules in every tier
FIRST = 4
#: operations of the two clients
PAIRS = [
    pair for pair in itertools.product(
        ('insert_new', 'insert_over', 'insert_merge', 'insert_mixed',
         'update', 'drop_partitions'), repeat=2)
] + [('fix', op) for op in ('insert_new', 'insert_over', 'insert_merge',
                            'insert_mixed', 'update', 'drop_partitions')]
FAIL = ('insert_new', 'insert_over', 'insert_merge', 'insert_mixed', 'update',
        'update_depth', 'add_variable', 'drop_variable', 'drop_partitions')


class McSync(sync.Sync):
    """The synchronizer given to the clients."""

    def __init__(self, name):
        self.name = name

    def __reduce__(self):
        return McSync, (self.name, )

    def __enter__(self):
        current = sim.POLICY.sched
        if current is not None and current.current is not None:
            sched.Lock.registry[self.name].acquire(current)
        return True

    def __exit__(self, exc_type, exc_value, traceback):
        current = sim.POLICY.sched
        if current is not None and current.current is not None:
            sched.Lock.registry[self.name].release(current)

    def is_locked(self):
        return sched.Lock.registry[self.name].owner is not None


def scenarios(tier):
    for a, b in PAIRS:
        for part in range(PARTS):
            if tier == 'quick':
                yield ('pair', a, b, 1, part, False)
            else:
                for delayed in (False, True):
                    yield ('pair', a, b, 2, part, delayed)
    for op in FAIL:
        for part in range(PARTS):
            yield ('fail', op, None, 0 if tier == 'quick' else 1, part, False)


class Clients:

    def __init__(self, delayed, reads):
        self.world = World('date:D', 'mem', delayed,
                           synchronizer=McSync('coll'))
        self.lock = None
        #: whether the threads are also switched at the readings
        self.reads = reads
        self.bad = None

    def second(self, op, coll):
        """The operation of the second client, on other data."""
        world = self.world
        if op.startswith('insert'):
            rows = [(p, s, 5) for p, s, _ in ops.NEW[op]]
            merge = None
            if op in ('insert_merge', 'insert_mixed'):
                merge = ops.merge_time_series
                rows = [(p, s + 1, 5) for p, s, _ in ops.NEW[op]]
            coll.insert(world.dataset(rows), merge_callable=merge)
        elif op == 'update':
            coll.update(second_update, variables=('v1', ),
                        delayed=world.delayed)
        else:
            coll.drop_partitions(filters=world.filters(0))

    def hook(self, current, faulty=None):
        """Observe the steps on the storage."""
        base = self.world.base

        def hook(fs, op, path, data=None):
            thread = current.current
            if thread is None:
                return None
            if self.reads or op in faults.WRITES:
                current.point()
            if op in faults.WRITES and path.startswith(base + '/') and \
                    not path.endswith('.zcollection'):
                if self.lock.owner != thread.root and self.bad is None:
                    self.bad = (f'{thread.root}: {op} {path[len(base):]} '
                                f'while the lock is held by {self.lock.owner}')
                if faulty is not None:
                    faulty(op, path)
            return None

        return hook

    def execute(self, current, first, second=None, faulty=None):
        """One controlled execution of the operations."""
        world = self.world
        world.env.restore(world.snap)
        self.lock = sched.Lock('coll')
        self.bad = None
        errors = {}

        def guard(name, func):

            def call():
                try:
                    func()
                except Exception as exc:  # pylint: disable=broad-except
                    errors[name] = exc

            return call

        one = kit.open_coll(world.env, fs=world.env.other('one'),
                            synchronizer=McSync('coll'))
        current.client('A', guard('A', lambda: world.do(first, one)))
        if second is not None:
            two = kit.open_coll(world.env, fs=world.env.other('two'),
                                synchronizer=McSync('coll'))
            current.client('B', guard('B', lambda: self.second(second, two)))
        saved = sim.POLICY.sched
        sim.POLICY.sched = current
        world.env.space.hook = self.hook(current, faulty)
        try:
            current.run()
        finally:
            world.env.space.hook = None
            sim.POLICY.sched = saved
        return errors


def second_update(zds):
    return {'v1': zds['v1'].values * 2 + 1}


def run(scenario, ctx):
    kind, first, second, bound, part, delayed = scenario
    with kit.policy(ctx.real, workers=2, eager=True, order='fifo'), \
            kit.quiet():
        clients = Clients(delayed, reads=bound > 1)
        if kind == 'fail':
            return run_fail(clients, first, bound, part, ctx)
        world = clients.world
        serial = []
        for order in ('AB', 'BA'):
            world.restore()
            for who in order:
                if who == 'A':
                    world.do(first)
                else:
                    clients.second(second, world.coll)
            serial.append(world.state())
        results = {}

        def execute(current):
            results['errors'] = clients.execute(current, first, second)

        for new, delays, current in sched.explore(execute, bound, part=part,
                                                  parts=PARTS):
            what = f'{first} || {second}, delays {delays}, newest {new}'
            check(clients.bad is None, f'{what}: {clients.bad}')
            ctx.step(current.steps)
            ctx.state((scenario[1:4], new, delays))
            errors = results['errors']
            if {first, second} == {'update', 'drop_partitions'}:
                # the partitions of an update are listed beforehand: it may
                # meet one that no longer exists
                errors = {
                    name: exc
                    for name, exc in errors.items() if not isinstance(
                        exc, (KeyError, FileNotFoundError))
                }
            check(not errors, f'{what}: {errors}')
            state = world.state()
            # An operation holds the lock for a batch of partitions, not for
            # all of them: each partition sees one operation after the other
            orders = set()
            for name in {*state, *serial[0], *serial[1]}:
                got = state.get(name)
                allowed = [item.get(name) for item in serial]
                check(got in allowed,
                      f'{what}: the content {got} of partition {name} is not '
                      f'the one of a serial execution, {allowed}')
                if allowed[0] != allowed[1]:
                    orders.add('AB' if got == allowed[0] else 'BA')
            ctx.outcome('+'.join(sorted(orders)) or 'same')
    return None


def run_fail(clients, op, bound, part, ctx):
    """A task fails while others are running: the lock is held until all of
    them have stopped."""
    for target in itertools.count(part + 1, PARTS):
        reached = []
        count = [0]

        def faulty(op_, path):
            count[0] += 1
            if count[0] == target:
                reached.append((op_, path))
                raise faults.InjectedError(5, 'injected error', path)

        results = {}

        def execute(current):
            count[0] = 0
            results['errors'] = clients.execute(current, op, None, faulty)

        hits = 0
        # the first failures are always combined with the schedules
        for new, delays, current in sched.explore(
                execute, max(bound, int(target <= FIRST))):
            what = f'{op} fails at step {target}, delays {delays}, newest {new}'
            ctx.step(current.steps)
            ctx.state((op, target, new, delays))
            check(clients.bad is None, f'{what}: {clients.bad}')
            check(clients.lock.owner is None, f'{what}: the lock is held')
            if reached:
                hits += 1
                check('A' in results['errors'],
                      f'{what}: the error was lost')
                ctx.outcome('failed')
            reached.clear()
        if not hits:
            return
