"""In-memory fsspec filesystem whose every primitive step is visible to the
model checker.

* The whole state is two dictionaries (files, directories); a snapshot is a
  shallow copy, a restore is an assignment: exploring from a state is cheap.
* Every primitive operation calls ``space.hook`` first: the fault injector,
  the crash injector and the controlled scheduler plug in there.
* ``caching=True`` gives each *instance* its own directory-listing cache over
  the shared state (the behaviour of object-store filesystems): a listing seen
  once is served again until that instance is told to invalidate it.
"""
from __future__ import annotations

import datetime
import io

from fsspec.spec import AbstractFileSystem


class Space:
    """The shared state behind the instances of a filesystem."""

    def __init__(self) -> None:
        self.files: dict[str, bytes] = {}
        self.dirs: set[str] = {''}
        self.ctime: dict[str, datetime.datetime] = {}
        self.children: dict[str, set[str]] = {}
        self.hook = None
        self.now = datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)
        self.naive = False
        self.instances: list = []

    # -- state -----------------------------------------------------------
    def snapshot(self):
        return (dict(self.files), set(self.dirs), dict(self.ctime),
                {k: set(v) for k, v in self.children.items()})

    def restore(self, snap) -> None:
        self.files = dict(snap[0])
        self.dirs = set(snap[1])
        self.ctime = dict(snap[2])
        self.children = {k: set(v) for k, v in snap[3].items()}
        for fs in self.instances:
            fs._listing.clear()

    def reset(self) -> None:
        self.files.clear()
        self.dirs = {''}
        self.ctime.clear()
        self.children = {}
        self.hook = None
        for fs in self.instances:
            fs._listing.clear()

    def tree(self, prefix: str = '') -> dict[str, bytes]:
        """Files below a prefix (the observable content)."""
        prefix = prefix.rstrip('/')
        return {
            k: v
            for k, v in self.files.items() if k.startswith(prefix + '/')
        }

    # -- primitive mutations ----------------------------------------------
    def _link(self, path: str) -> None:
        parent, _, name = path.rpartition('/')
        self.children.setdefault(parent, set()).add(name)

    def _unlink(self, path: str) -> None:
        parent, _, name = path.rpartition('/')
        kids = self.children.get(parent)
        if kids is not None:
            kids.discard(name)

    def add_dir(self, path: str) -> None:
        missing = []
        while path and path not in self.dirs:
            if path in self.files:
                raise NotADirectoryError(path)
            missing.append(path)
            path = path.rpartition('/')[0]
        for item in reversed(missing):
            self.dirs.add(item)
            self.ctime[item] = self.now
            self._link(item)

    def put(self, path: str, data: bytes) -> None:
        if path in self.dirs:
            raise IsADirectoryError(path)
        self.add_dir(path.rpartition('/')[0])
        if path not in self.files:
            self.ctime[path] = self.now
            self._link(path)
        self.files[path] = data

    def unlink(self, path: str) -> None:
        if path not in self.files:
            raise FileNotFoundError(path)
        del self.files[path]
        self.ctime.pop(path, None)
        self._unlink(path)

    def rmdir(self, path: str) -> None:
        if path not in self.dirs:
            raise FileNotFoundError(path)
        if self.children.get(path):
            raise OSError(39, 'Directory not empty', path)
        self.dirs.discard(path)
        self.children.pop(path, None)
        self.ctime.pop(path, None)
        self._unlink(path)


_SPACES: dict[str, Space] = {}

#: The side on which a filesystem is unpickled: each process has its own
#: instance, with its own cache.
SIDE = 'client'


def _unpickle(name, caching, tag):
    return MCFS(name=name, caching=caching,
                tag=tag + '@worker' if SIDE == 'worker' else tag)


def space(name: str) -> Space:
    if name not in _SPACES:
        _SPACES[name] = Space()
    return _SPACES[name]


class _Reader(io.BytesIO):
    pass


class _Writer(io.BytesIO):
    """Buffered file committed on close (what object stores do)."""

    def __init__(self, fs, path, append=False) -> None:
        super().__init__()
        self._fs, self._path = fs, path
        self._done = False
        if append and path in fs.space.files:
            self.write(fs.space.files[path])

    def close(self) -> None:
        if not self._done:
            self._done = True
            self._fs._commit(self._path, self.getvalue())
        super().close()

    def discard(self) -> None:
        self._done = True


class MCFS(AbstractFileSystem):
    """See the module documentation."""
    protocol = 'mcfs'
    root_marker = '/'

    def __init__(self, name: str = 'default', caching: bool = False,
                 tag: str = '', **kwargs) -> None:
        super().__init__(name=name, caching=caching, tag=tag, **kwargs)
        self.name = name
        self.caching = caching
        self.tag = tag
        self._listing: dict[str, list] = {}
        space(name).instances.append(self)

    def __reduce__(self):
        return _unpickle, (self.name, self.caching, self.tag.partition('@')[0])

    @property
    def space(self) -> Space:
        return space(self.name)

    @classmethod
    def _strip_protocol(cls, path):
        if isinstance(path, list):
            return [cls._strip_protocol(p) for p in path]
        path = str(path)
        if path.startswith('mcfs://'):
            path = path[len('mcfs://'):]
        path = '/' + '/'.join(p for p in path.split('/') if p not in ('', '.'))
        return '' if path == '/' else path

    # -- hook --------------------------------------------------------------
    def _hook(self, op: str, path: str, data=None):
        hook = self.space.hook
        if hook is not None:
            return hook(self, op, path, data)
        return None

    # -- cache -------------------------------------------------------------
    def invalidate_cache(self, path=None) -> None:
        if not self.caching:
            return
        if path is None:
            self._listing.clear()
            return
        path = self._strip_protocol(path)
        # the directory, everything below it and its ancestors
        for key in list(self._listing):
            if (key == path or key.startswith(path + '/')
                    or path.startswith(key + '/') or key == ''):
                del self._listing[key]

    def _touch(self, path) -> None:
        """A modification made by this instance drops its own cached
        listings for the path (as s3fs and gcsfs do)."""
        if self.caching:
            self.invalidate_cache(path)

    # -- listing -------------------------------------------------------------
    def _info(self, path):
        sp = self.space
        if path in sp.files:
            return {
                'name': path,
                'size': len(sp.files[path]),
                'type': 'file',
                'created': sp.ctime.get(path)
            }
        if path in sp.dirs:
            return {
                'name': path,
                'size': 0,
                'type': 'directory',
                'created': sp.ctime.get(path)
            }
        raise FileNotFoundError(path)

    def info(self, path, **kwargs):
        path = self._strip_protocol(path)
        self._hook('stat', path)
        if self.caching:
            parent = path.rpartition('/')[0]
            if parent in self._listing:
                for item in self._listing[parent]:
                    if item['name'] == path:
                        return dict(item)
                if path not in self._listing:
                    raise FileNotFoundError(path)
        return self._info(path)

    def exists(self, path, **kwargs):
        try:
            self.info(path)
            return True
        except FileNotFoundError:
            return False

    def isdir(self, path):
        try:
            return self.info(path)['type'] == 'directory'
        except FileNotFoundError:
            return False

    def isfile(self, path):
        try:
            return self.info(path)['type'] == 'file'
        except FileNotFoundError:
            return False

    def ls(self, path, detail=True, **kwargs):
        path = self._strip_protocol(path)
        self._hook('ls', path)
        if self.caching and path in self._listing:
            items = self._listing[path]
        else:
            sp = self.space
            if path in sp.files:
                items = [self._info(path)]
            elif path in sp.dirs:
                items = [
                    self._info(path + '/' + name)
                    for name in sorted(sp.children.get(path, ()))
                ]
                if self.caching:
                    self._listing[path] = items
            else:
                raise FileNotFoundError(path)
        # Object stores and POSIX readdir give no ordering guarantee: serve
        # the entries in reverse lexicographic order.
        items = list(reversed(items))
        if detail:
            return [dict(item) for item in items]
        return [item['name'] for item in items]

    def created(self, path):
        value = self.info(path)['created']
        return value.replace(tzinfo=None) if self.space.naive else value

    modified = created

    # -- reading -------------------------------------------------------------
    def cat_file(self, path, start=None, end=None, **kwargs):
        path = self._strip_protocol(path)
        self._hook('read', path)
        sp = self.space
        if path in sp.dirs:
            raise IsADirectoryError(path)
        if path not in sp.files:
            raise FileNotFoundError(path)
        return sp.files[path][start:end]

    def _open(self, path, mode='rb', block_size=None, autocommit=True,
              cache_options=None, **kwargs):
        path = self._strip_protocol(path)
        if mode == 'rb':
            return _Reader(self.cat_file(path))
        if mode in ('wb', 'ab', 'xb'):
            self._hook('open-w', path)
            parent = path.rpartition('/')[0]
            if parent not in self.space.dirs:
                raise FileNotFoundError(path)
            if mode == 'xb' and path in self.space.files:
                raise FileExistsError(path)
            return _Writer(self, path, append=mode == 'ab')
        raise NotImplementedError(mode)

    def open(self, path, mode='rb', **kwargs):
        if 'b' not in mode:
            kwargs.pop('block_size', None)
            stream = self.open(path, mode.replace('t', '') + 'b')
            return _Text(stream, encoding=kwargs.get('encoding') or 'utf-8')
        return self._open(self._strip_protocol(path), mode=mode)

    # -- writing -------------------------------------------------------------
    def _commit(self, path, data: bytes) -> None:
        data = bytes(data)
        result = self._hook('write', path, data)
        if isinstance(result, bytes):
            data = result
        self.space.put(path, data)
        self._touch(path)

    def pipe_file(self, path, value, **kwargs):
        self._commit(self._strip_protocol(path), value)

    def mkdir(self, path, create_parents=True, **kwargs):
        path = self._strip_protocol(path)
        self._hook('mkdir', path)
        if path in self.space.dirs or path in self.space.files:
            raise FileExistsError(path)
        self.space.add_dir(path)
        self._touch(path)

    def makedirs(self, path, exist_ok=False):
        path = self._strip_protocol(path)
        if path in self.space.dirs:
            if not exist_ok:
                raise FileExistsError(path)
            return
        self._hook('mkdir', path)
        self.space.add_dir(path)
        self._touch(path)

    def rmdir(self, path):
        path = self._strip_protocol(path)
        self._hook('rmdir', path)
        self.space.rmdir(path)
        self._touch(path)

    def rm_file(self, path):
        path = self._strip_protocol(path)
        self._hook('unlink', path)
        self.space.unlink(path)
        self._touch(path)

    _rm = rm_file

    def rm(self, path, recursive=False, maxdepth=None):
        paths = path if isinstance(path, list) else [path]
        for item in paths:
            item = self._strip_protocol(item)
            sp = self.space
            if item in sp.files:
                self.rm_file(item)
                continue
            if item not in sp.dirs:
                raise FileNotFoundError(item)
            if not recursive:
                raise OSError(39, 'Directory not empty', item)
            self._rmtree(item)

    def _rmtree(self, path) -> None:
        sp = self.space
        for name in sorted(sp.children.get(path, ())):
            child = path + '/' + name
            if child in sp.files:
                self.rm_file(child)
            elif child in sp.dirs:
                self._rmtree(child)
        self.rmdir(path)

    def cp_file(self, path1, path2, **kwargs):
        path1 = self._strip_protocol(path1)
        path2 = self._strip_protocol(path2)
        if path1 in self.space.dirs:
            self.makedirs(path2, exist_ok=True)
            return
        self._commit(path2, self.cat_file(path1))

    def mv(self, path1, path2, recursive=False, maxdepth=None, **kwargs):
        """Move = copy every entry then remove the source, as the generic
        implementation of fsspec, into an existing directory if there is
        one."""
        path1 = self._strip_protocol(path1)
        path2 = self._strip_protocol(path2)
        sp = self.space
        if path1 == path2:
            return
        if path1 in sp.files:
            if path2 in sp.dirs:
                path2 += '/' + path1.rpartition('/')[2]
            self.cp_file(path1, path2)
            self.rm_file(path1)
            return
        if path1 not in sp.dirs:
            raise FileNotFoundError(path1)
        if not recursive:
            raise OSError(21, 'Is a directory', path1)
        if path2 in sp.dirs:
            path2 += '/' + path1.rpartition('/')[2]
        self._cptree(path1, path2)
        self._rmtree(path1)

    def _cptree(self, path1, path2) -> None:
        sp = self.space
        self.makedirs(path2, exist_ok=True)
        for name in sorted(sp.children.get(path1, ())):
            child = path1 + '/' + name
            if child in sp.files:
                self.cp_file(child, path2 + '/' + name)
            else:
                self._cptree(child, path2 + '/' + name)

    move = rename = mv


class _Text(io.TextIOWrapper):
    """Text layer that does not commit the file when the body raised."""

    def __exit__(self, exc_type, exc, tb):
        if exc_type is not None and isinstance(self.buffer, _Writer):
            # POSIX semantics: what was written stays. Keep the content.
            pass
        return super().__exit__(exc_type, exc, tb)
