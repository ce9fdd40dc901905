"""Fault and crash injection at the primitive steps of the storage.

The steps are those of the model filesystem (``mem``) or, for the local
filesystem, the calls of the ``os`` module and the files opened for writing by
fsspec.  An ``Injector`` numbers the steps of an operation; running the
operation again with the same choices meets the same steps, so that a fault or
a crash can be placed at each of them in turn.
"""
from __future__ import annotations

import contextlib
import errno
import io
import os

import fsspec.implementations.local as fslocal

#: steps that modify the storage
WRITES = ('write', 'mkdir', 'unlink', 'rmdir', 'open-w', 'rename')
#: steps that only observe it (fsspec walks over the directories that cannot be
#: listed: these errors never reach the library)
READS = ('read', 'stat')


class Crash(BaseException):
    """The process stops here."""


class InjectedError(OSError):
    """The storage reports an error."""


class Injector:
    """Counts the steps and fails one of them.

    ``mode``: 'count', 'fault' (the step fails once), 'full' (every write from
    that step on fails: no space left), 'crash' (nothing happens from that
    step on; ``torn`` is the fraction of the data of a write that reached the
    disk: None, 0 or 0.5).
    """

    def __init__(self, env, kinds=WRITES) -> None:
        self.env = env
        self.kinds = kinds
        self.mode = 'off'
        self.count = 0
        self.at = 0
        self.torn = None
        self.hit = None
        self.log: list = []

    def _step(self, op, path, data, put):
        """Returns when the step may proceed."""
        if self.mode == 'off':
            return
        if self.mode == 'crash' and self.hit is not None:
            raise Crash
        if op not in self.kinds:
            return
        if op == 'read' and '/.z' not in path:
            # zarr takes a chunk that cannot be read for a missing one
            return
        self.count += 1
        if self.mode == 'count':
            self.log.append((op, path, len(data) if data is not None else 0))
            return
        if self.mode == 'full' and self.hit is not None:
            if op in ('write', 'mkdir', 'open-w'):
                raise InjectedError(errno.ENOSPC, 'injected: no space left',
                                    path)
            return
        if self.count != self.at:
            return
        self.hit = (op, path)
        if self.mode == 'fault':
            raise InjectedError(errno.EIO, 'injected error', path)
        if self.mode == 'full':
            raise InjectedError(errno.ENOSPC, 'injected: no space left', path)
        if self.mode == 'crash':
            if self.torn is not None and op == 'write':
                put(bytes(data)[:int(len(data) * self.torn)])
            raise Crash

    @contextlib.contextmanager
    def run(self, mode, at=0, torn=None):
        self.mode, self.at, self.torn = mode, at, torn
        self.count, self.hit = 0, None
        if mode == 'count':
            self.log = []
        try:
            with self._attached():
                yield self
        finally:
            self.mode = 'off'

    @contextlib.contextmanager
    def _attached(self):
        if self.env.kind == 'local':
            with _patched_os(self):
                yield
            return
        space = self.env.space

        def hook(fs, op, path, data=None):
            self._step(op, path, data, lambda d: space.put(path, d))

        space.hook = hook
        try:
            yield
        finally:
            space.hook = None


# -- local filesystem ------------------------------------------------------------
class _LocalWriter(io.BytesIO):

    def __init__(self, injector, path, real) -> None:
        super().__init__()
        self._injector, self._path, self._real = injector, path, real
        self.name = path

    def fileno(self):
        return self._real.fileno()

    def flush(self):
        pass

    def close(self) -> None:
        if self.closed:
            return
        data = self.getvalue()
        super().close()
        try:

            def put(part):
                self._real.write(part)

            self._injector._step('write', self._path, data, put)
            self._real.write(data)
        finally:
            self._real.close()


@contextlib.contextmanager
def _patched_os(injector):
    base = injector.env.base
    saved = {
        name: getattr(os, name)
        for name in ('mkdir', 'unlink', 'remove', 'rmdir', 'rename', 'replace')
    }

    def full(path, dir_fd):
        path = os.fspath(path)
        if dir_fd is not None:
            path = os.path.join(os.readlink(f'/proc/self/fd/{dir_fd}'), path)
        return path

    def wrap(name, op):
        real = saved[name]

        def func(path, *args, **kwargs):
            where = full(path, kwargs.get('dir_fd')
                         if name not in ('rename', 'replace') else None)
            if str(where).startswith(base):
                injector._step(op, where, None, None)
            return real(path, *args, **kwargs)

        return func

    table = {
        'mkdir': 'mkdir',
        'unlink': 'unlink',
        'remove': 'unlink',
        'rmdir': 'rmdir',
        'rename': 'rename',
        'replace': 'rename'
    }

    def opened(path, mode='r', *args, **kwargs):
        if 'w' in mode and str(path).startswith(base):
            injector._step('open-w', str(path), None, None)
            real = open(path, mode, buffering=0)
            return _LocalWriter(injector, str(path), real)
        return open(path, mode, *args, **kwargs)

    supports = set(os.supports_dir_fd)
    try:
        for name, op in table.items():
            func = wrap(name, op)
            setattr(os, name, func)
            if saved[name] in supports:
                os.supports_dir_fd.add(func)
        fslocal.open = opened
        yield
    finally:
        for name, func in saved.items():
            setattr(os, name, func)
        os.supports_dir_fd.clear()
        os.supports_dir_fd.update(supports)
        del fslocal.open
