"""A simulated Dask client: the worker pool of zcollection under the control
of the model checker.

The library reaches its workers through the public API of dask/distributed.
``install()`` replaces the entry points of that API (before zcollection is
imported) by a client which runs the very same task functions in-process, in
an order that the checker chooses:

* ``policy.eager``  : a task starts as soon as it is submitted, or only when
  somebody waits for it (the two extreme schedules of a real pool);
* ``policy.order``  : order in which the pending tasks are run ('fifo',
  'lifo', or a callable picking an index: the explorer);
* ``policy.workers``: the number of workers advertised to the library;
* ``policy.pickle`` : serialise functions, arguments and results as a cluster
  of processes does;
* ``policy.sched``  : a controlled scheduler (see sched.py): every task then
  runs in its own controlled thread.

Anything of the dask API that is not simulated raises ``SimUnsupported`` and
sets ``UNSUPPORTED``: the runner then repeats the check on a real
``distributed.LocalCluster(processes=False)``.
"""
from __future__ import annotations

import contextlib
import itertools
import os
import threading
import weakref

import cloudpickle
import dask
import dask.base
import dask.config
import dask.core
import dask.distributed
import dask.utils
import distributed
import distributed.client
import distributed.worker
import distributed.worker_client

from . import mcfs

UNSUPPORTED: list[str] = []


class SimUnsupported(BaseException):
    """An API of dask that the simulation does not provide."""


def unsupported(what: str):
    UNSUPPORTED.append(what)
    raise SimUnsupported(what)


class Policy:
    """Choices left to the environment by the library."""

    def __init__(self, workers=1, eager=True, order='fifo', pickle=False,
                 sched=None, threads=1) -> None:
        self.workers = workers
        self.threads = threads
        self.eager = eager
        self.order = order
        self.pickle = pickle
        self.sched = sched


POLICY = Policy()
_counter = itertools.count()


class SimFuture:
    """Mimics distributed.Future."""

    def __init__(self, client, thunk=None, key=None) -> None:
        self.client = client
        self.key = key or f'sim-{next(_counter)}'
        self._thunk = thunk
        self._value = None
        self._exc = None
        self.status = 'pending'
        self._running = False

    # -- execution
    def _run(self) -> None:
        if self.status != 'pending' or self._running:
            return
        self._running = True
        try:
            self._value = self._thunk()
            self.status = 'finished'
        except SimUnsupported:
            raise
        except Exception as exc:  # the worker sends the exception back
            self._exc = exc
            self.status = 'error'
        finally:
            self._running = False
            self._thunk = None
        if self.status == 'pending':  # BaseException: crash of the process
            self.status = 'lost'

    def _wait(self) -> None:
        if self.status == 'pending':
            self.client._drive(self)

    # -- public API
    def result(self, timeout=None):
        self._wait()
        if self.status == 'error':
            raise self._exc
        if self.status == 'cancelled':
            raise distributed.client.FutureCancelledError(self.key, 'cancelled')
        return self._value

    def exception(self, timeout=None):
        self._wait()
        return self._exc

    def traceback(self, timeout=None):
        self._wait()
        return self._exc.__traceback__ if self._exc else None

    def done(self):
        return self.status != 'pending'

    def cancelled(self):
        return self.status == 'cancelled'

    def cancel(self, **kwargs):
        if self.status == 'pending' and not self._running:
            self.status = 'cancelled'
            self.client._forget(self)

    def release(self, **kwargs):
        pass

    def add_done_callback(self, func):
        self._wait()
        func(self)

    @property
    def type(self):
        return type(self._value)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, other):
        return self is other

    def __await__(self):
        unsupported('await Future')

    def __reduce__(self):
        # Futures embedded in serialised arguments are resolved beforehand.
        unsupported('pickled Future')

    def __dask_tokenize__(self):
        return self.key


def _resolve(value):
    """Replace futures nested in builtin containers by their results."""
    if isinstance(value, SimFuture):
        return value.result()
    kind = type(value)
    if kind in (list, tuple, set, frozenset):
        if _has_future(value):
            return kind(_resolve(item) for item in value)
        return value
    if kind is dict:
        if _has_future(value):
            return {k: _resolve(v) for k, v in value.items()}
        return value
    return value


def _has_future(value) -> bool:
    if isinstance(value, SimFuture):
        return True
    kind = type(value)
    if kind in (list, tuple, set, frozenset):
        return any(map(_has_future, value))
    if kind is dict:
        return any(map(_has_future, value.values()))
    return False


def _execute(arg, cache):
    """dask.core._execute_task with futures."""
    if isinstance(arg, SimFuture):
        return arg.result()
    if isinstance(arg, list):
        return [_execute(a, cache) for a in arg]
    if dask.core.istask(arg):
        func, args = arg[0], arg[1:]
        return func(*(_execute(a, cache) for a in args))
    if isinstance(arg, dict):
        # a dict literal in a graph is an opaque value, except that the
        # scheduler resolves the futures it contains
        return _resolve(arg)
    try:
        if arg in cache:
            return cache[arg]
    except TypeError:
        return arg
    return _resolve(arg)


def _ship(obj):
    """What a worker receives: the copy of an object in another process."""
    data = cloudpickle.dumps(obj)
    saved, mcfs.SIDE = mcfs.SIDE, 'worker'
    try:
        return cloudpickle.loads(data)
    finally:
        mcfs.SIDE = saved


def _return(obj):
    """What comes back from a worker."""
    data = cloudpickle.dumps(obj)
    saved = mcfs.SIDE
    mcfs.SIDE = 'client' if getattr(_local, 'depth', 0) <= 1 else 'worker'
    try:
        return cloudpickle.loads(data)
    finally:
        mcfs.SIDE = saved


_local = threading.local()


class SimClient:
    """Mimics distributed.Client."""
    asynchronous = False
    status = 'running'
    id = 'sim-client'
    scheduler = None

    def __init__(self, *args, **kwargs) -> None:
        self._pending: list[SimFuture] = []
        self._memo = weakref.WeakValueDictionary()

    # -- context
    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None

    def close(self, *args, **kwargs):
        pass

    shutdown = close

    def as_current(self):
        return contextlib.nullcontext(self)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        unsupported(f'Client.{name}')

    # -- information
    def _addresses(self):
        return [f'sim://worker-{i}' for i in range(POLICY.workers)]

    def ncores(self, workers=None, **kwargs):
        return {a: POLICY.threads for a in self._addresses()}

    nthreads = ncores

    def scheduler_info(self, **kwargs):
        return {
            'type': 'Scheduler',
            'id': 'sim',
            'address': 'sim://scheduler',
            'services': {},
            'workers': {
                a: {
                    'type': 'Worker',
                    'nthreads': POLICY.threads,
                    'name': a,
                    'host': 'sim',
                    'memory_limit': 2**30,
                }
                for a in self._addresses()
            }
        }

    def has_what(self, *args, **kwargs):
        return {a: () for a in self._addresses()}

    def who_has(self, *args, **kwargs):
        return {}

    def wait_for_workers(self, *args, **kwargs):
        return None

    def restart(self, *args, **kwargs):
        return self

    def rebalance(self, *args, **kwargs):
        return None

    def replicate(self, *args, **kwargs):
        return None

    def run(self, function, *args, workers=None, **kwargs):
        kwargs.pop('wait', None)
        kwargs.pop('nanny', None)
        return {a: function(*args, **kwargs) for a in self._addresses()}

    # -- scheduling core
    def _forget(self, future) -> None:
        if future in self._pending:
            self._pending.remove(future)

    def _spawn(self, thunk, key=None) -> SimFuture:
        future = SimFuture(self, thunk, key)
        sched = POLICY.sched
        if sched is not None:
            sched.spawn_task(future)
            return future
        self._pending.append(future)
        if POLICY.eager:
            self._drive(future)
        return future

    def _drive(self, future) -> None:
        """Run pending tasks until the given one is finished."""
        sched = POLICY.sched
        if sched is not None:
            sched.wait_future(future)
            return
        if getattr(_local, 'depth', 0) or POLICY.eager:
            # Inside a task (nested client), or eager: run that one only.
            self._run_one(future)
            return
        # A waiting client lets the pool work: every pending task is run, in
        # the order chosen by the policy.
        while self._pending and future.status == 'pending':
            order = POLICY.order
            if order == 'fifo':
                ix = 0
            elif order == 'lifo':
                ix = len(self._pending) - 1
            else:
                ix = order(len(self._pending))
            self._run_one(self._pending[ix])
        if future.status == 'pending':
            self._run_one(future)

    def _drain(self) -> None:
        """Let the pool finish everything that was submitted."""
        while self._pending:
            self._drive(self._pending[-1 if POLICY.order == 'lifo' else 0])

    def _run_one(self, future) -> None:
        if future in self._pending:
            self._pending.remove(future)
        _local.depth = getattr(_local, 'depth', 0) + 1
        try:
            future._run()
        finally:
            _local.depth -= 1

    # -- submission
    _OPTIONS = ('workers', 'resources', 'retries', 'priority', 'fifo_timeout',
                'allow_other_workers', 'actor', 'actors', 'pure', 'key',
                'batch_size')

    def submit(self, func, *args, **kwargs):
        if not callable(func):
            raise TypeError('First input to submit must be a callable function')
        options = {k: kwargs.pop(k) for k in self._OPTIONS if k in kwargs}
        if options.get('actor') or options.get('actors'):
            unsupported('actors')
        return self._memoized(func, args, kwargs, options)

    def _memoized(self, func, args, kwargs, options) -> SimFuture:
        """A task submitted as a pure function (the default of distributed) is
        not run again while a future of the same key is alive."""
        key = options.get('key')
        if options.get('pure', True):
            token = dask.base.tokenize(func, kwargs, *args)
            key = f'{key or dask.utils.funcname(func)}-{token}'
            future = self._memo.get(key)
            if future is not None and future.status != 'cancelled':
                return future
        else:
            key = None
        future = self._submit(func, args, kwargs)
        if key is not None:
            self._memo[key] = future
        return future

    def _submit(self, func, args, kwargs) -> SimFuture:

        def thunk():
            args_, kwargs_ = _resolve(list(args)), _resolve(kwargs)
            if POLICY.pickle:
                func_, args_, kwargs_ = _ship((func, args_, kwargs_))
                return _return(func_(*args_, **kwargs_))
            return func(*args_, **kwargs_)

        return self._spawn(thunk)

    def map(self, func, *iterables, **kwargs):
        if not callable(func):
            raise TypeError('First input to map must be a callable function')
        options = {k: kwargs.pop(k) for k in self._OPTIONS if k in kwargs}
        if isinstance(options.get('key'), list):
            options['key'] = options['key'][0] if options['key'] else None
        return [
            self._memoized(func, args, kwargs, options)
            for args in zip(*iterables)
        ]

    def scatter(self, data, **kwargs):

        def make(item):
            future = SimFuture(self)
            future._value = _ship(item) if POLICY.pickle else item
            future.status = 'finished'
            return future

        if isinstance(data, dict):
            return {k: make(v) for k, v in data.items()}
        if isinstance(data, (list, tuple, set, frozenset)):
            return type(data)(make(v) for v in data)
        if isinstance(data, range):
            return [make(v) for v in data]
        return make(data)

    # -- collections
    def _graph_of(self, collection):
        return dict(collection.__dask_graph__()), list(
            dask.core.flatten(collection.__dask_keys__()))

    def get(self, dsk, keys, **kwargs):
        """Synchronous evaluation of a graph."""
        dsk = dict(dsk)
        cache: dict = {}
        wanted = dask.core.flatten([keys]) if isinstance(keys, list) else [keys]
        order = dask.core.toposort(dsk)
        need = _needed(dsk, list(wanted))
        if POLICY.order == 'lifo':
            order = _reverse_toposort(dsk, need)
        sched = POLICY.sched
        if sched is not None and sched.in_client():
            # each task of the graph runs in a thread of its own
            futures = {}
            for key in order:
                if key in need:
                    futures[key] = self._spawn(
                        lambda key=key, deps=tuple(
                            futures[d] for d in _deps(dsk, dsk[key])
                            if d != key): self._task(key, dsk, deps, cache))
            for future in futures.values():
                future.result()
        else:
            for key in order:
                if key in need:
                    cache[key] = _execute(dsk[key], cache)

        def nested(item):
            if isinstance(item, list):
                return [nested(i) for i in item]
            return cache[item]

        if isinstance(keys, list):
            return [nested(k) for k in keys]
        return cache[keys]

    @staticmethod
    def _task(key, dsk, deps, cache):
        for future in deps:
            future.result()
        cache[key] = _execute(dsk[key], cache)

    def compute(self, collections, sync=False, optimize_graph=True, **kwargs):
        if isinstance(collections, (list, tuple, set, frozenset)):
            single = False
        else:
            collections, single = [collections], True
        out = []
        for item in collections:
            if isinstance(item, SimFuture):
                out.append(item)
            elif dask.base.is_dask_collection(item):
                out.append(self._spawn(self._thunk_of(item, optimize_graph)))
            else:
                out.append(item)
        if sync:
            out = self.gather(out)
        return out[0] if single else out

    def _thunk_of(self, item, optimize_graph=True):

        def thunk():
            dsk, _ = self._graph_of(item)
            if optimize_graph:
                opt = getattr(item, '__dask_optimize__', None)
                if opt is not None:
                    dsk = dict(opt(item.__dask_graph__(),
                                   item.__dask_keys__()))
            if POLICY.pickle:
                dsk = _ship(_resolve_graph(dsk))
            res = self.get(dsk, item.__dask_keys__())
            func, args = item.__dask_postcompute__()
            if isinstance(item.__dask_keys__(), list) and not isinstance(
                    res, list):
                res = [res]
            value = func(res, *args)
            return _return(value) if POLICY.pickle else value

        return thunk

    def persist(self, collections, optimize_graph=True, **kwargs):
        if isinstance(collections, (list, tuple, set, frozenset)):
            single = False
        else:
            collections, single = [collections], True
        out = []
        for item in collections:
            if not dask.base.is_dask_collection(item):
                out.append(item)
                continue
            if optimize_graph and hasattr(item, '__dask_optimize__'):
                dsk = dict(item.__dask_optimize__(item.__dask_graph__(),
                                                  item.__dask_keys__()))
            else:
                dsk = dict(item.__dask_graph__())
            keys = list(dask.core.flatten(item.__dask_keys__()))

            def thunk(key, dsk=dsk):
                graph = _ship(_resolve_graph(dsk)) if POLICY.pickle \
                    else dsk
                return self.get(graph, key)

            futures = {
                key: self._spawn(lambda key=key: thunk(key))
                for key in keys
            }
            func, args = item.__dask_postpersist__()
            out.append(func(futures, *args))
        return out[0] if single else out

    # -- waiting
    def gather(self, futures, errors='raise', direct=None, asynchronous=None):
        if POLICY.sched is None and not getattr(_local, 'depth', 0):
            self._drain()

        def visit(item):
            if isinstance(item, SimFuture):
                if errors == 'skip':
                    item._wait()
                    if item.status != 'finished':
                        return _SKIP
                return item.result()
            if isinstance(item, (list, tuple, set, frozenset)):
                values = [v for v in map(visit, item) if v is not _SKIP]
                return values if isinstance(item, (list, tuple)) and type(
                    item) is list else type(item)(values)
            if isinstance(item, dict):
                return {k: visit(v) for k, v in item.items()}
            if hasattr(item, '__next__'):
                return [visit(v) for v in item]
            return item

        return visit(futures)

    def cancel(self, futures, **kwargs):
        for item in futures_of(futures):
            item.cancel()

    def retry(self, futures, **kwargs):
        unsupported('Client.retry')

    def sync(self, func, *args, **kwargs):
        unsupported('Client.sync')


_SKIP = object()


def _resolve_graph(dsk):

    def visit(value):
        if isinstance(value, SimFuture):
            return value.result()
        if type(value) in (list, tuple):
            return type(value)(visit(v) for v in value)
        if type(value) is dict:
            return {k: visit(v) for k, v in value.items()}
        return value

    return {k: visit(v) for k, v in dsk.items()}


def _deps(dsk, task):
    return dask.core.get_dependencies(dsk, task=task)


def _needed(dsk, keys):
    seen, stack = set(), [k for k in keys]
    while stack:
        key = stack.pop()
        if key in seen or key not in dsk:
            continue
        seen.add(key)
        stack.extend(_deps(dsk, dsk[key]))
    return seen


def _reverse_toposort(dsk, need):
    """A topological order which takes ready tasks last-submitted first."""
    deps = {k: {d for d in _deps(dsk, dsk[k]) if d != k} for k in need}
    out, done = [], set()
    todo = list(need and [k for k in dsk if k in need])
    while todo:
        for key in reversed(todo):
            if deps[key] <= done:
                out.append(key)
                done.add(key)
                todo.remove(key)
                break
        else:
            raise ValueError('cycle')
    return out


class SimWorker:
    address = 'sim://worker-0'
    name = 'worker-0'
    nthreads = 1

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        unsupported(f'Worker.{name}')


CLIENT = SimClient()
_WORKER = SimWorker()


def get_client(*args, **kwargs):
    return CLIENT


def make_client(*args, **kwargs):
    return CLIENT


@contextlib.contextmanager
def worker_client(*args, **kwargs):
    yield CLIENT


def get_worker():
    return _WORKER


def futures_of(obj, client=None):
    out: list = []
    stack = [obj]
    while stack:
        item = stack.pop()
        if isinstance(item, SimFuture):
            out.append(item)
        elif type(item) in (list, tuple, set, frozenset):
            stack.extend(item)
        elif type(item) is dict:
            stack.extend(item.values())
        elif dask.base.is_dask_collection(item):
            stack.extend(v for v in dict(item.__dask_graph__()).values())
    return out[::-1]


def wait(fs, timeout=None, return_when='ALL_COMPLETED'):
    futures = futures_of(fs)
    for item in futures:
        item._wait()
    done = {f for f in futures if f.status != 'pending'}
    return distributed.client.DoneAndNotDoneFutures(done, set())


class as_completed:
    """Completion order: the order in which the pool ran the tasks."""

    def __init__(self, futures=None, loop=None, with_results=False,
                 raise_errors=True, timeout=None) -> None:
        self._futures = list(futures or [])
        self._results = with_results

    def add(self, future):
        self._futures.append(future)

    def update(self, futures):
        self._futures.extend(futures)

    def count(self):
        return len(self._futures)

    def is_empty(self):
        return not self._futures

    def has_ready(self):
        return bool(self._futures)

    def __iter__(self):
        return self

    def __next__(self):
        if not self._futures:
            raise StopIteration
        order = POLICY.order
        if order == 'lifo':
            item = self._futures.pop()
        elif POLICY.sched is not None:
            POLICY.sched.wait_any(self._futures)
            item = next(f for f in self._futures if f.status != 'pending')
            self._futures.remove(item)
        elif order == 'fifo':
            item = self._futures.pop(0)
        else:
            item = self._futures.pop(order(len(self._futures)))
        item._wait()
        return (item, item.result()) if self._results else item

    next = __next__


class NotSimulated:

    def __init__(self, name) -> None:
        self._name = name

    def __call__(self, *args, **kwargs):
        unsupported(self._name)


def _get(dsk, keys, **kwargs):
    """The scheduler of ``dask.compute``."""
    if POLICY.pickle and not getattr(_local, 'depth', 0):
        _local.depth = 1
        try:
            res = CLIENT.get(_ship(_resolve_graph(dict(dsk))), keys, **kwargs)
            return _return(res)
        finally:
            _local.depth = 0
    return CLIENT.get(dsk, keys, **kwargs)


_installed = False


def install() -> None:
    """Replace the entry points of dask.distributed."""
    global _installed
    if _installed:
        return
    _installed = True
    table = {
        'get_client': get_client,
        'default_client': get_client,
        'worker_client': worker_client,
        'get_worker': get_worker,
        'futures_of': futures_of,
        'wait': wait,
        'as_completed': as_completed,
        'Client': make_client,
        'LocalCluster': NotSimulated('LocalCluster'),
        'secede': lambda: None,
        'rejoin': lambda: None,
        'progress': lambda *a, **k: None,
        'fire_and_forget': lambda *a, **k: None,
        'Lock': NotSimulated('Lock'),
        'Semaphore': NotSimulated('Semaphore'),
        'Queue': NotSimulated('Queue'),
        'Variable': NotSimulated('Variable'),
        'Event': NotSimulated('Event'),
    }
    for module in (distributed, dask.distributed, distributed.client,
                   distributed.worker, distributed.worker_client):
        for name, value in table.items():
            if hasattr(module, name):
                setattr(module, name, value)
    # Client must stay usable in annotations and isinstance checks.
    for module in (distributed, dask.distributed):
        module.Client = SimClient
        module.Future = SimFuture
    SimClient.current = staticmethod(get_client)
    dask.config.set(scheduler=_get)
    os.environ.setdefault('DASK_DISTRIBUTED__ADMIN__TICK__LIMIT', '1h')


@contextlib.contextmanager
def policy(**kwargs):
    global POLICY
    saved = POLICY
    POLICY = Policy(**kwargs)
    CLIENT._pending.clear()
    CLIENT._memo.clear()
    try:
        yield POLICY
    finally:
        POLICY = saved
        CLIENT._pending.clear()
        CLIENT._memo.clear()
