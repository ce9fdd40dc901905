"""C10: a crash at any point loses nothing that was stored, and can be
repaired."""
from __future__ import annotations

from mc import faults, kit, ops
from mc.kit import check
from mc.ops import OPS, World

PROPERTY = 'C10'
LEVEL = 'fault_enumeration'
VALIDATE = 0
RULE = ('every primitive step of the storage met by an operation is the last '
        'one before the process stops; the write it interrupts reached the '
        'storage not at all, empty, or half (local filesystem)')
ASSUMPTIONS = [
    'the storage keeps every step that completed before the crash, in order; '
    'an object of a remote store is written entirely or not at all',
    'all the workers stop at the same time as the client',
]
CHUNK = 1
PARTS = 4


def scenarios(tier):
    for op in OPS:
        for fs in ('mem', 'local'):
            for delayed in (False, True):
                for eager in (True, False):
                    if tier == 'quick' and (delayed != eager
                                            or fs == 'local' and delayed):
                        continue
                    for torn in ((None, ) if fs == 'mem' else (None, 0, 0.5)):
                        for part in range(PARTS):
                            yield (op, fs, delayed, eager, torn, part)
    if tier != 'quick':
        for op in OPS:
            for fs in ('mem', 'local'):
                for part in range(PARTS):
                    yield (op, fs + '+', False, True, None, part)


def run(scenario, ctx):
    op, fs, delayed, eager, torn, part = scenario
    twice = fs.endswith('+')
    with kit.policy(ctx.real, workers=2, eager=eager, order='fifo'), \
            kit.quiet():
        world = World('date:D', fs.rstrip('+'), delayed)
        inj = faults.Injector(world.env)
        world.restore()
        with inj.run('count'):
            world.do(op)
        after, schema = world.state(), world.schema()
        steps = list(inj.log)
        world.restore()
        schemas = (world.schema(), schema)
        for k in range(1, len(steps) + 1):
            if k % PARTS != part:
                continue
            if torn is not None and steps[k - 1][0] != 'write':
                continue
            world.restore()
            what = describe(world, op, k, steps[k - 1], torn)
            stop(world, op, inj, k, torn)
            ctx.step()
            ctx.state((op, fs, delayed, eager, torn, k))
            if not twice:
                verify(world, op, what, after, schemas, ctx)
                recover(world, op, what, after, schemas, ctx)
                continue
            # the repetition of the operation is interrupted as well
            crashed = world.env.snapshot()
            first = world.state()
            missing = {
                p
                for p, old in world.before.items() if op.startswith('insert')
                and p in OPS[op] and first.get(p) not in (old, after.get(p))
            }
            # reported invalid, and removed by the repair which is interrupted
            damaged = {
                p
                for p, got in first.items() if p in OPS[op] and
                (got is None or any(value is None for _, value in got))
            }
            with inj.run('count'):
                try:
                    repair(world, op)
                except Exception:  # pylint: disable=broad-except
                    continue
            for j in range(1, inj.count + 1):
                world.env.restore(crashed)
                reopen(world)
                second = inj.log[j - 1]
                with inj.run('crash', j):
                    try:
                        repair(world, op)
                    except faults.Crash:
                        pass
                reopen(world)
                text = f'{what}, then {describe(world, op, j, second, None)}'
                verify(world, op, text, after, schemas, ctx, again=True,
                       missing=missing, damaged=damaged)
                recover(world, op, text, after, schemas, ctx)
                ctx.step()
                ctx.state((op, fs, k, j))


def describe(world, op, k, step, torn):
    where = step[1].replace(world.env.root, '')
    return f'{op}: crash at step {k} ({step[0]} {where}' + (
        ')' if torn is None else f', {torn} of the data written)')


def reopen(world):
    """A new process."""
    world.coll = kit.open_coll(world.env, fs=world.env.other('restarted'))


def stop(world, op, inj, k, torn):
    with inj.run('crash', k, torn):
        try:
            world.do(op)
        except faults.Crash:
            pass
    check(inj.hit is not None, 'the step was not reached')
    try:
        reopen(world)
    except Exception as exc:
        check(False, f'{op}: crash at step {k}, torn {torn}: the collection '
              f'cannot be opened: {exc!r}')


def repair(world, op):
    """What a user does after a crash: remove what is invalid, cancel an
    addition, do the operation again."""
    world.coll.validate_partitions(fix=True)
    if op == 'add_variable' and 'w' in world.coll.metadata.variables:
        world.coll.drop_variable('w')
    if op == 'drop_variable' and 'v2' not in world.coll.metadata.variables:
        return
    world.do(op)


def verify(world, op, what, after, schemas, ctx, again=False, missing=(),
           damaged=()):
    state = world.state()
    world.lost = set()
    world.replaced = False
    check(set(state) <= set(world.before) | set(after),
          f'{what}: unknown partitions {sorted(map(str, state))}')
    check(world.schema() in schemas, f'{what}: schema {world.schema()}')
    try:
        paths = world.coll.validate_partitions()
    except Exception as exc:
        check(False, f'{what}: validate_partitions raises {exc!r}')
    invalid = {world.number(path[len(world.base) + 1:]) for path in paths}
    for p in set(world.before) | set(after):
        old, new, got = world.before.get(p), after.get(p), state.get(p)
        if p not in OPS[op]:
            check(got == old and p not in invalid,
                  f'{what}: partition {p} was modified')
            continue
        if p in missing:
            # the first crash left it neither the previous nor the new one
            world.replaced = True
            ctx.finding('replace-local' if world.env.kind == 'local' else
                        'replace-remote', f'{what}: partition {p}')
            continue
        if p in damaged:
            world.replaced = True
            continue
        broken = p in state and (got is None or any(
            value is None for _, value in got))
        check((p in invalid) == broken,
              f'{what}: partition {p} is '
              f'{"damaged" if broken else "intact"} and validate_partitions '
              f'reports {sorted(invalid)}')
        if p in state and got in (old, new):
            continue
        if p not in state and (old is None or new is None):
            continue
        if broken and old is None:
            continue  # a new partition, incomplete, and reported
        if op.startswith('insert') and (old is not None or again) and \
                new in world.temporaries():
            world.replaced = True
            key = 'replace-local' if world.env.kind == 'local' else \
                'replace-remote'
            if key == 'replace-local':
                # after a second crash: what replaces the missing partition is
                # incomplete, and reported
                # (the content to keep is then the new one)
                check(again and broken if p in state else again or
                      (old or new) in world.temporaries(),
                      f'{what}: partition {p} holds {got}')
            ctx.finding(key, f'{what}: partition {p} is neither the previous '
                        'one nor the new one')
            continue
        if again and op.startswith('insert') and world.env.kind != 'local':
            # the replacement was interrupted, and then its repetition
            world.replaced = True
            ctx.finding('replace-remote', f'{what}: partition {p}')
            continue
        if op in ('update', 'update_depth'):
            mixed(got, old, new, f'{what}: partition {p}')
            world.replaced |= broken
            continue
        if op == 'add_variable':
            check(got is not None and
                  tuple(i for i in got if i[0] != 'w') == old,
                  f'{what}: partition {p} holds {got}')
            continue
        if op == 'drop_variable':
            check(got is not None and
                  tuple(i for i in got if i[0] != 'v2') == new,
                  f'{what}: partition {p} holds {got}')
            continue
        if op == 'drop_partitions':
            continue  # half removed
        check(False, f'{what}: partition {p} holds {got} instead of {old} or '
              f'{new}')
    ctx.outcome('crash')


def mixed(got, old, new, what):
    """An update replaces the chunks in place, one after the other: every
    record is the previous or the new one."""
    check(got is not None, f'{what} cannot be read')
    check(len(got) == len(old), f'{what} lost a variable')
    for name, value in got:
        was, now = dict(old)[name], dict(new)[name]
        if name != 'v1':
            check(value == was, f'{what}: {name} was modified')
        elif value is not None:
            rows = zip(kit.rows_of_canon(value), kit.rows_of_canon(was),
                       kit.rows_of_canon(now))
            check(all(r in (a, b) for r, a, b in rows),
                  f'{what}: {name} holds {value}')


def recover(world, op, what, after, schemas, ctx):
    world.before_recovery = world.state()
    try:
        repair(world, op)
    except Exception as exc:
        check(False, f'{what}: cannot be repeated: {exc!r}')
    state = world.state()
    check(world.schema() == schemas[1], f'{what}: repeated, wrong schema')
    if world.replaced:
        # a damaged partition was removed (see above): the others are right
        for p in after:
            if p not in OPS[op]:
                check(state.get(p) == after[p], f'{what}: repeated, {p}')
        return
    check(state == after,
          f'{what}: repeated, gives {state} instead of {after}')
    zds = world.coll.load(delayed=False)
    check(zds is not None, f'{what}: repeated, nothing to load')
    check(not world.coll.validate_partitions(), f'{what}: repeated, invalid')
    ctx.outcome('repeated')
