"""A controlled scheduler for the threads of the clients and of the workers.

Every client and every task of the simulated pool runs in a thread of its own;
one thread runs at a time.  A thread gives control back before each primitive
step on the storage, when it takes or releases the lock of the collection, when
it waits for a task and when it ends.  At each of these points the scheduler
chooses who goes on.

The schedules are enumerated by *delay bounding*: the default schedule is
deterministic (a thread runs until it waits for something, the next one in the
queue follows), and a schedule is the default one with at most ``bound``
delays, each of which sends the thread that would have run to the end of the
queue.  All the delay sequences are explored, so that all the schedules with at
most ``bound`` delays are covered.
"""
from __future__ import annotations

import threading


class Stop(BaseException):
    """Unwinds a thread when the execution is abandoned."""


class Deadlock(Exception):
    pass


class _Thread:

    def __init__(self, sched, name, func, root) -> None:
        self.sched = sched
        self.name = name
        self.func = func
        self.root = root or name
        self.done = False
        self.pred = None
        self.sem = threading.Semaphore(0)
        self.exc = None
        self.value = None
        self.started = False

    def enabled(self) -> bool:
        return not self.done and (self.pred is None or self.pred())

    def start(self) -> None:
        self.started = True
        threading.Thread(target=self._main, daemon=True).start()

    def _main(self) -> None:
        self.sched._set_current(self)
        try:
            if not self.sched.aborted:
                self.value = self.func()
        except Stop:
            pass
        except BaseException as exc:  # pylint: disable=broad-except
            self.exc = exc
        self.done = True
        self.sched._leave(self)

    def resume(self) -> None:
        if not self.started:
            self.start()
        else:
            self.sem.release()


class Scheduler:
    """One controlled execution."""

    def __init__(self, delays=(), newest=False, limit=20000) -> None:
        self.delays = tuple(delays)
        self.newest = newest
        self.limit = limit
        self.decisions = 0
        self.steps = 0
        self.queue: list[_Thread] = []
        self.aborted = None
        self.trace: list = []
        self._tls = threading.local()
        self._main = threading.Semaphore(0)
        self._count = 0

    # -- set up
    def client(self, name, func) -> _Thread:
        thread = _Thread(self, name, func, None)
        self.queue.append(thread)
        return thread

    def run(self) -> None:
        """Run the clients to their end."""
        first = self._choose()
        if first is not None:
            first.resume()
            self._main.acquire()
        if isinstance(self.aborted, BaseException):
            raise self.aborted

    # -- current thread
    def _set_current(self, thread) -> None:
        self._tls.thread = thread

    @property
    def current(self):
        return getattr(self._tls, 'thread', None)

    def in_client(self) -> bool:
        """The running thread is the one of a client, not of a task."""
        thread = self.current
        return thread is not None and thread.name == thread.root

    # -- choice
    def _choose(self):
        ready = [t for t in self.queue if t.enabled()]
        if not ready:
            return None
        pick = 0
        if len(ready) > 1:
            count = self.delays.count(self.decisions)
            self.decisions += 1
            for ix in range(min(count, len(ready) - 1)):
                self.queue.remove(ready[ix])
                self.queue.append(ready[ix])
            pick = min(count, len(ready) - 1)
        chosen = ready[pick]
        self.queue.remove(chosen)
        self.queue.insert(0, chosen)
        return chosen

    def _switch(self, thread) -> None:
        """Called by the running thread: let the scheduler choose."""
        if self.aborted:
            raise Stop
        self.steps += 1
        if self.steps > self.limit:
            self._abort(Deadlock('too many steps: the execution does not '
                                 'end'))
            raise Stop
        chosen = self._choose()
        if chosen is None:
            self._abort(Deadlock(
                'nobody can go on: ' + ', '.join(
                    t.name for t in self.queue if not t.done)))
            raise Stop
        if chosen is thread:
            thread.pred = None
            return
        chosen.resume()
        thread.sem.acquire()
        if self.aborted:
            raise Stop
        thread.pred = None

    def _leave(self, thread) -> None:
        """The thread is finished."""
        if thread in self.queue:
            self.queue.remove(thread)
        if self.aborted:
            self._unwind()
            return
        if not self.queue:
            self._main.release()
            return
        chosen = self._choose()
        if chosen is None:
            self._abort(Deadlock('nobody can go on: ' + ', '.join(
                t.name for t in self.queue)))
            self._unwind()
            return
        chosen.resume()

    def _abort(self, exc) -> None:
        self.aborted = exc

    def _unwind(self) -> None:
        """Let the remaining threads end, one after the other."""
        for item in list(self.queue):
            if not item.started:
                self.queue.remove(item)
        if self.queue:
            self.queue[0].resume()
        else:
            self._main.release()

    # -- used by the environment
    def point(self, what=None) -> None:
        thread = self.current
        if thread is not None:
            self._switch(thread)

    def block(self, pred) -> None:
        thread = self.current
        if thread is None:
            raise RuntimeError('not a controlled thread')
        if not pred():
            # it comes after those that can go on
            self.queue.remove(thread)
            self.queue.append(thread)
        thread.pred = pred
        self._switch(thread)

    # -- used by the simulated pool
    def spawn_task(self, future) -> None:
        parent = self.current
        self._count += 1
        thread = _Thread(self, f'{parent.root}/task{self._count}', future._run,
                         parent.root)
        if self.newest:
            self.queue.insert(0, thread)
            self._switch(parent)
        else:
            self.queue.append(thread)

    def wait_future(self, future) -> None:
        self.block(lambda: future.status not in ('pending', ))

    def wait_any(self, futures) -> None:
        self.block(lambda: any(f.status != 'pending' for f in futures))


class Lock:
    """The lock shared by the clients."""
    registry: dict[str, 'Lock'] = {}

    def __init__(self, name) -> None:
        self.name = name
        self.owner = None
        self.depth = 0
        self.history: list = []
        Lock.registry[name] = self

    def acquire(self, sched) -> None:
        root = sched.current.root
        sched.block(lambda: self.owner is None)
        self.owner = root
        self.history.append(root)

    def release(self, sched) -> None:
        self.owner = None
        sched.point()


def explore(execute, bound, newest=(False, True), part=0, parts=1):
    """Run every schedule with at most ``bound`` delays.

    ``execute(scheduler)`` runs one execution.  Yields the delays of each
    schedule.  ``part``/``parts`` splits the space by the first delay.
    """
    for new in newest:
        stack: list[tuple[int, ...]] = [()]
        while stack:
            delays = stack.pop()
            sched = Scheduler(delays, new)
            if delays or part == 0 or bound:
                execute(sched)
                if delays or part == 0:
                    yield new, delays, sched
            if len(delays) < bound:
                start = delays[-1] if delays else 0
                for ix in range(sched.decisions - 1, start - 1, -1):
                    if not delays and ix % parts != part:
                        continue
                    stack.append(delays + (ix, ))
