"""Storage environments the checks run in.

``Env('mem')``   the in-memory model filesystem (every step observable),
``Env('memc')``  the same with an object-store like listing cache,
``Env('memr')``  the same, the workers having caches of their own,
``Env('local')`` fsspec's LocalFileSystem on a private scratch directory.
"""
from __future__ import annotations

import os
import shutil
import tempfile

import fsspec

from . import mcfs

SCRATCH: list[str] = []


def make_scratch() -> None:
    """Create the scratch directory shared by the (forked) workers."""
    base = os.environ.get('ZCMC_BASE')
    if not base and os.access('/dev/shm', os.W_OK):
        base = '/dev/shm'
    SCRATCH.append(tempfile.mkdtemp(prefix='zcmc-', dir=base))


def scratch_root() -> str:
    """The private scratch directory of this process."""
    path = os.path.join(SCRATCH[0], str(os.getpid()))
    os.makedirs(path, exist_ok=True)
    return path


def cleanup() -> None:
    while SCRATCH:
        path = SCRATCH.pop()
        if os.path.basename(path).startswith('zcmc-'):
            shutil.rmtree(path, ignore_errors=True)


class Env:
    """A filesystem with a private root directory."""
    _local_root: dict[int, str] = {}

    def __init__(self, kind: str = 'mem', root: str = '/root/zc') -> None:
        self.kind = kind
        if kind == 'local':
            pid = os.getpid()
            if pid not in Env._local_root:
                Env._local_root[pid] = scratch_root()
            self.base = Env._local_root[pid]
            self.fs = fsspec.filesystem('file')
            self.root = self.base + '/zc' if root == '/root/zc' else \
                self.base + root
        else:
            self.base = ''
            name = kind
            self.fs = mcfs.MCFS(name=name, caching=kind in ('memc', 'memr'))
            self.root = root
        self.reset()

    @property
    def space(self):
        return self.fs.space

    def other(self, tag: str):
        """Another filesystem instance on the same storage (the one of
        another process that just started: nothing is cached)."""
        if self.kind == 'local':
            return self.fs
        other = mcfs.MCFS(name=self.kind, caching=self.kind in ('memc', 'memr'),
                          tag=tag)
        other.invalidate_cache()
        return other

    def path(self, *parts: str) -> str:
        return '/'.join((self.root, ) + parts)

    # -- state
    def reset(self) -> None:
        if self.kind == 'local':
            assert '/zcmc-' in self.base
            for name in os.listdir(self.base):
                shutil.rmtree(os.path.join(self.base, name))
            os.makedirs(self.root)
        else:
            self.space.reset()
            self.space.add_dir(self.root)

    def tree(self, path: str | None = None) -> dict[str, bytes]:
        """Relative path -> content, for every file below ``path``."""
        path = self.root if path is None else path
        out: dict[str, bytes] = {}
        if self.kind == 'local':
            for dirpath, _, names in os.walk(path):
                for name in names:
                    full = os.path.join(dirpath, name)
                    with open(full, 'rb') as stream:
                        out[os.path.relpath(full, path)] = stream.read()
            return out
        size = len(path) + 1
        return {k[size:]: v for k, v in self.space.tree(path).items()}

    def dirs(self, path: str | None = None) -> set[str]:
        path = self.root if path is None else path
        if self.kind == 'local':
            return {
                os.path.relpath(os.path.join(d, s), path)
                for d, subs, _ in os.walk(path)
                for s in subs
            }
        return {
            d[len(path) + 1:]
            for d in self.space.dirs if d.startswith(path + '/')
        }

    def snapshot(self):
        if self.kind == 'local':
            return self.tree(self.base), self.dirs(self.base)
        return self.space.snapshot()

    def restore(self, snap) -> None:
        if self.kind != 'local':
            hook, self.space.hook = self.space.hook, None
            self.space.restore(snap)
            self.space.hook = hook
            return
        files, dirs = snap
        for name in os.listdir(self.base):
            shutil.rmtree(os.path.join(self.base, name))
        for item in sorted(dirs):
            os.makedirs(os.path.join(self.base, item), exist_ok=True)
        for name, data in files.items():
            with open(os.path.join(self.base, name), 'wb') as stream:
                stream.write(data)
