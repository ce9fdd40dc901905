"""C09: an operation that fails leaves a collection that can be used, and can
be repeated."""
from __future__ import annotations

from mc import faults, kit, ops
from mc.kit import check
from mc.ops import OPS, World

PROPERTY = 'C09'
LEVEL = 'fault_enumeration'
VALIDATE = 0
RULE = ('every primitive step of the storage met by an operation fails once, '
        'in turn (error reported by the storage), or every write from that '
        'step on fails (no space left); a user function that raises on each '
        'partition in turn')
ASSUMPTIONS = [
    'one fault per execution; the storage keeps what a failed step did not '
    'modify',
    'the steps of the model filesystem, and the os calls on a local one',
]
FAULTS = ('fault', 'full', 'reads')
CHUNK = 1


def scenarios(tier):
    for op in OPS:
        for mode in FAULTS:
            for fs in ('mem', 'local'):
                if fs == 'local' and mode == 'reads':
                    continue
                for delayed in (False, True):
                    for eager in (True, False):
                        if tier == 'quick' and (delayed != eager
                                                or mode == 'reads' and delayed
                                                ):
                            continue
                        if tier == 'quick' and fs == 'local' and delayed:
                            continue
                        for part in range(4):
                            yield (op, mode, fs, delayed, eager, part)
    for op in ('insert_merge', 'insert_mixed', 'update', 'update_depth'):
        for p in range(2):
            for eager in (True, False):
                yield (op, 'callable', 'mem', False, eager, p)


def run(scenario, ctx):
    op, mode, fs, delayed, eager, part = scenario
    with kit.policy(ctx.real, workers=2, eager=eager, order='fifo'), \
            kit.quiet():
        world = World('date:D', fs, delayed)
        if mode == 'callable':
            return run_callable(world, scenario, ctx)
        kinds = faults.READS if mode == 'reads' else faults.WRITES
        inj = faults.Injector(world.env, kinds)
        # the execution without a fault
        world.restore()
        with inj.run('count'):
            world.do(op)
        after, tree, schema = world.state(), world.env.tree(), world.schema()
        steps = list(inj.log)
        old_schema = None
        for k in range(1, len(steps) + 1):
            if k % 4 != part:
                continue
            world.restore()
            old_schema = old_schema or world.schema()
            one(world, op, mode, inj, k, steps[k - 1], after, tree,
                (old_schema, schema), ctx)
            ctx.step()
            ctx.state((op, fs, delayed, eager, steps[k - 1][:2], k, mode))
    return None


def one(world, op, mode, inj, k, step, after, tree, schemas, ctx):
    where = step[1].replace(world.env.root, '')
    what = f'{op}: {mode} at step {k} ({step[0]} {where})'
    error = None
    with inj.run('full' if mode == 'full' else 'fault', k):
        try:
            world.do(op)
        except Exception as exc:  # pylint: disable=broad-except
            error = exc
    check(inj.hit is not None, f'{what}: step not reached')
    if error is None:
        # The failure had no consequence.
        check(world.state() == after,
              f'{what}: the error was ignored but the operation is not done')
        check(world.schema() == schemas[1], f'{what}: schema')
        ctx.outcome('absorbed')
        return
    verify(world, op, what, after, schemas, ctx)
    retry(world, op, what, after, tree, schemas, ctx)


def verify(world, op, what, after, schemas, ctx):
    """After a failure: old or new content, nothing else."""
    state = world.state()
    world.window = world.torn = False
    check(set(state) <= set(world.before) | set(after),
          f'{what}: unknown partitions {sorted(map(str, state))}')
    schema = world.schema()
    check(schema in schemas, f'{what}: the schema is {schema}')
    check(world.coll.metadata.get_config() == kit.open_coll(
        world.env, mode='r').metadata.get_config(),
        f'{what}: the schema in memory is not the one stored')
    for p in set(world.before) | set(after):
        old, new = world.before.get(p), after.get(p)
        got = state.get(p)
        if p not in OPS[op]:
            check(got == old, f'{what}: partition {p} was modified')
            continue
        if got in (old, new) and (p in state or old is None or new is None):
            continue
        if op.startswith('insert') and p in world.before and \
                world.env.kind != 'local' and new in world.temporaries():
            # The partition was being replaced by its new content, which is
            # still there, complete, beside it.
            world.window = True
            ctx.finding(
                'replace-remote', f'{what}: partition {p} is neither the previous '
                'one nor the new one')
            continue
        if op in ('update', 'update_depth'):
            world.torn |= check_mixed(got, old, new, what)
            continue
        if op == 'drop_variable':
            # dropped in some of the partitions: the operation is repeated
            kept = [i for i in got or () if i[0] != 'v2']
            check(got is not None and set(kept) <= set(old),
                  f'{what}: partition {p} holds {got}')
            check(set(dict(old)) - set(dict(got)) <= {'v2'},
                  f'{what}: partition {p} lost a variable')
            continue
        if op == 'drop_partitions':
            continue  # half removed: the operation is repeated
        check(False, f'{what}: partition {p} holds {got} instead of {old} or '
              f'{new}')
    ctx.outcome('failed')


def check_mixed(got, old, new, what):
    """An update replaces chunks in place: the other variables are intact."""
    check(got is not None, f'{what}: a partition cannot be read')
    for name, value in got:
        if name != 'v1':
            check(dict(old)[name] == value, f'{what}: {name} was modified')
    return dict(got)['v1'] is None


def retry(world, op, what, after, tree, schemas, ctx):
    """The same operation is repeated, by the same process."""
    if op == 'add_variable' and 'full at' in what and \
            world.schema() == schemas[1]:
        # The addition cannot be cancelled without space: the variable is
        # dropped when there is some again.
        world.coll.drop_variable('w')
    if op == 'add_variable':
        check(world.schema() == schemas[0],
              f'{what}: the variable stays in the schema')
        check(world.state() == world.before,
              f'{what}: the variable stays in the partitions')
        check('w' not in world.coll.metadata.variables,
              f'{what}: the variable stays in the schema in memory')
    if world.schema() == schemas[1] and op == 'drop_variable':
        check(world.state() == after, f'{what}: schema')
        return
    if world.torn:
        return  # the error truncated the file of the chunk being replaced
    try:
        world.do(op)
    except Exception as exc:
        check(False, f'{what}: cannot be repeated: {exc!r}')
    state = world.state()
    if world.window and op in ('insert_merge', 'insert_mixed'):
        return  # the previous content is lost, see above
    check(state == after, f'{what}: repeated, gives {state} instead of '
          f'{after}')
    check(world.schema() == schemas[1], f'{what}: repeated, wrong schema')
    left = set(world.env.tree()) - set(tree)
    check(not {name for name in left if '/.' not in '/' + name},
          f'{what}: leaves the files {sorted(left)}')
    ctx.outcome('repeated')


# -- functions of the user that raise ----------------------------------------------
class Boom(Exception):
    pass


def run_callable(world, scenario, ctx):
    op, _, _, _, _, p = scenario
    world.restore()
    world.do(op)
    after, schema = world.state(), world.schema()
    world.restore()
    tree = world.env.tree()
    calls = []

    def merge(existing, inserted, axis, dim, **kwargs):
        time = existing['time'].values
        if numpy_min(time) == world.layout.time(*ops.ROWS[p][0][:2]):
            calls.append(p)
            raise Boom('merge')
        return ops.merge_time_series(existing, inserted, axis, dim, **kwargs)

    def update(zds):
        if zds.dimensions[kit.DIM] and any(
                zds['time'].values == world.layout.time(*ops.ROWS[p][0][:2])):
            calls.append(p)
            raise Boom('update')
        return ops.constant(zds)

    error = None
    try:
        if op.startswith('insert'):
            world.coll.insert(world.dataset(ops.NEW[op]),
                              merge_callable=merge)
        else:
            world.coll.update(update, variables=('v1', ),
                              depth=int(op.endswith('depth')))
    except Boom as exc:
        error = exc
    what = f'{op}: the function raises on partition {p}'
    ctx.step()
    ctx.state(scenario)
    if not calls:
        check(error is None, f'{what}: {error!r}')
        return
    check(error is not None, f'{what}: the exception was lost')
    state = world.state()
    check(state.get(p) == world.before.get(p),
          f'{what}: the partition was modified')
    for q in after:
        check(state.get(q) in (world.before.get(q), after[q]),
              f'{what}: partition {q} is neither the previous one nor the '
              'new one')
    part = f'coll/{world.layout.dirname(p)}/'
    check({n: d for n, d in world.env.tree().items() if n.startswith(part)}
          == {n: d for n, d in tree.items() if n.startswith(part)},
          f'{what}: files of the partition were modified')
    check(not world.temporaries(), f'{what}: temporary files left')
    world.do(op)
    check(world.state() == after, f'{what}: repeated, gives another result')
    check(world.schema() == schema, f'{what}: schema')
    ctx.outcome('callable')


def numpy_min(values):
    return min(values)
