"""C23: the lock of a collection excludes the other processes."""
from __future__ import annotations

import itertools
import multiprocessing
import os
import pickle
import signal
import tempfile
import time

from mc import env
from mc.kit import check
from zcollection import sync

PROPERTY = 'C23'
LEVEL = 'model_checking'
CHUNK = 4
RULE = ('every sequence of enter, exit, exit with an exception, death and '
        'retry of the processes up to the depth, each executed by real '
        'processes on a real file, against the model of a mutex')
ASSUMPTIONS = ['a process has one lock object at a time; a blocked process '
               'tries again when the exploration says so (the order of the '
               'attempts is enumerated); between two attempts of a process '
               'ten days go by, so that no finite delay is long enough']

#: how the processes get their lock: all of them open the path, the others
#: receive a copy (of a copy), or the file is already there
SETUP = ('path', 'pickle', 'twice', 'stale', 'nodir', 'again')


# -- the helper processes ---------------------------------------------------
def helper(conn, others, base, lock, blob):
    for item in others:
        item.close()
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(0)
    # a lock that is not where it should be stays in the scratch directory
    os.chdir(base)
    obj = pickle.loads(blob) if blob else sync.ProcessSync(lock)

    def sleep(seconds):
        # An attempt lasts for ever: no delay is long enough to enter.
        waited[0] += 10. * 86400
        conn.send('blocked')
        if conn.recv() == 'die':
            os._exit(1)

    waited = [0.]
    for name in ('monotonic', 'time', 'perf_counter'):
        setattr(time, name,
                lambda now=getattr(time, name): now() + waited[0])
    time.sleep = sleep
    if hasattr(getattr(obj, 'lock', None), 'sleep_func'):
        obj.lock.sleep_func = sleep
    try:
        while True:
            cmd = conn.recv()
            if cmd == 'enter':
                conn.send(('entered', bool(obj.__enter__())))
            elif cmd in ('exit', 'raise'):
                args = (None, None, None)
                if cmd == 'raise':
                    error = ValueError('inside')
                    args = (type(error), error, error.__traceback__)
                # a true value would hide the exception
                conn.send(('left', bool(obj.__exit__(*args))))
            elif cmd == 'locked':
                conn.send(('locked', obj.is_locked()))
            elif cmd == 'again':
                # another object, made from the previous one
                obj = pickle.loads(pickle.dumps(obj))
                if hasattr(getattr(obj, 'lock', None), 'sleep_func'):
                    obj.lock.sleep_func = sleep
                conn.send(('again', True))
            else:
                os._exit(0)
    except BaseException as exc:  # pylint: disable=broad-except
        try:
            conn.send(('error', repr(exc)))
        finally:
            os._exit(1)


class Processes:

    def __init__(self, count, base, lock, setup):
        blob = None
        if setup in ('pickle', 'twice'):
            blob = pickle.dumps(sync.ProcessSync(lock))
        if setup == 'twice':
            blob = pickle.dumps(pickle.loads(blob))
        self.conns, self.procs = [], []
        for ix in range(count):
            ours, theirs = multiprocessing.Pipe()
            pid = os.fork()
            if not pid:
                try:
                    helper(theirs, self.conns + [ours], base, lock,
                           blob if ix else None)
                finally:
                    os._exit(1)
            theirs.close()
            self.conns.append(ours)
            self.procs.append(pid)

    def ask(self, ix, cmd, wait=60.0):
        self.conns[ix].send(cmd)
        return self.answer(ix, wait)

    def answer(self, ix, wait):
        if not self.conns[ix].poll(wait):
            return None
        return self.conns[ix].recv()

    def kill(self, ix):
        os.kill(self.procs[ix], signal.SIGKILL)
        os.waitpid(self.procs[ix], 0)
        self.procs[ix] = 0

    def stop(self):
        for ix, pid in enumerate(self.procs):
            if pid:
                self.kill(ix)
        for conn in self.conns:
            conn.close()


# -- the model --------------------------------------------------------------
IDLE, HELD, BLOCKED, DEAD = 'idle', 'held', 'blocked', 'dead'


def moves(state, ops):
    """The operations that each process can do."""
    for ix, one in enumerate(state):
        if one == IDLE:
            yield (ix, 'enter')
            if 'again' in ops:
                yield (ix, 'again')
        elif one == HELD:
            yield (ix, 'exit')
            yield (ix, 'raise')
        elif one == BLOCKED:
            yield (ix, 'retry')
        if one in (HELD, BLOCKED) and 'kill' in ops:
            yield (ix, 'kill')


def step(state, move):
    ix, op = move
    new = list(state)
    if op in ('enter', 'retry'):
        new[ix] = BLOCKED if HELD in state else HELD
    elif op in ('exit', 'raise'):
        new[ix] = IDLE
    elif op == 'kill':
        new[ix] = DEAD
    return tuple(new)


def sequences(count, depth, ops):
    """Every sequence of operations up to the depth, the maximal ones (the
    others are their prefixes).  Processes that never did anything are
    interchangeable: the first of them comes first."""
    todo = [((IDLE, ) * count, (), 0)]
    while todo:
        state, seq, used = todo.pop()
        follow = []
        if len(seq) < depth:
            for move in moves(state, ops):
                if move[0] > used:
                    continue
                if move[1] == 'again' and seq and seq[-1] == move:
                    continue
                if move[1] == 'retry' and seq and seq[-1] == move \
                        and HELD in state:
                    continue
                follow.append((step(state, move), seq + (move, ),
                               max(used, move[0] + 1)))
        if not follow:
            yield seq
        todo.extend(reversed(follow))


def scenarios(tier):
    quick = tier == 'quick'
    for setup in SETUP:
        for count in (1, 2, 3):
            depth = {1: 5, 2: 7 if quick else 9, 3: 6 if quick else 8}[count]
            if setup != 'path':
                depth -= 1
            ops = ('kill', ) + (('again', ) if setup == 'again' else ())
            group = []
            for seq in sequences(count, depth, ops):
                group.append(seq)
                if len(group) == 16:
                    yield (setup, count, tuple(group))
                    group = []
            if group:
                yield (setup, count, tuple(group))


def run(scenario, ctx):
    setup, count, group = scenario
    for seq in group:
        explore(setup, count, seq, ctx)
    ctx.state(scenario)


def explore(setup, count, seq, ctx):
    with tempfile.TemporaryDirectory(dir=env.SCRATCH[0]) as base:
        lock = os.path.join(base, 'deep', 'er', 'lock') if setup == 'nodir' \
            else os.path.join(base, 'lock')
        fresh = True
        if setup == 'stale':
            with open(lock, 'w', encoding='utf8') as stream:
                stream.write('123')
            fresh = False
        procs = Processes(count, base, lock, setup)
        try:
            state = (IDLE, ) * count
            done = []
            check_locked(procs, state, fresh, done, ctx)
            for ix, op in seq:
                done.append(f'{op} {ix}')
                what = f'{setup}, {count} processes: {", ".join(done)}'
                wanted = step(state, (ix, op))
                if op in ('enter', 'retry'):
                    fresh = False
                    # A process that must wait says so; an implementation
                    # that waits in another way says nothing
                    limit = 60.0 if wanted[ix] == HELD else 1.0
                    got = procs.ask(ix, op, limit)
                    if wanted[ix] == HELD:
                        check(got == ('entered', True),
                              f'{what}: {got} instead of entering')
                    else:
                        check(got in ('blocked', None),
                              f'{what}: {got} while another process holds '
                              'the lock')
                elif op == 'kill':
                    procs.kill(ix)
                elif op == 'again':
                    got = procs.ask(ix, op)
                    check(got == ('again', True), f'{what}: {got}')
                else:
                    got = procs.ask(ix, op)
                    check(got == ('left', False), f'{what}: {got}')
                state = wanted
                check_locked(procs, state, fresh, done, ctx)
                ctx.step()
                ctx.outcome(op)
            finish(procs, state, f'{setup}, {count} processes: '
                   f'{", ".join(done)}')
            ctx.state((setup, count, state, len(seq)))
        finally:
            procs.stop()


def check_locked(procs, state, fresh, done, ctx):
    """What is_locked says."""
    for ix, one in enumerate(state):
        if one not in (IDLE, HELD):
            continue
        got = procs.ask(ix, 'locked')
        what = f'{", ".join(done)}: is_locked of {ix}: {got}'
        check(isinstance(got, tuple) and got[0] == 'locked', what)
        if HELD in state:
            check(got[1] is True, what)
        elif got[1] is not False:
            if fresh:
                check(False, what)
            else:
                ctx.finding('is-locked-after-release', what)


def finish(procs, state, what):
    """Whatever happened, everyone gets the lock in turn."""
    for ix, one in enumerate(state):
        if one == HELD:
            got = procs.ask(ix, 'exit')
            check(got == ('left', False), f'{what}, exit {ix}: {got}')
    for ix, one in enumerate(state):
        if one == DEAD:
            continue
        got = procs.ask(ix, 'enter' if one != BLOCKED else 'retry')
        check(got == ('entered', True), f'{what}, at last {ix}: {got}')
        got = procs.ask(ix, 'exit')
        check(got == ('left', False), f'{what}, exit {ix}: {got}')
