"""Datasets, canonical forms and reference helpers shared by the checks."""
from __future__ import annotations

import contextlib
import hashlib
import warnings

import dask.array
import numcodecs
import numpy

import zcollection
from zcollection import collection, dataset, meta, partitioning
from zcollection.merging import merge_time_series

from . import sim
from .env import Env
from .runner import Violation

DIM = 'num_lines'
PIX = 'num_pixels'


# -- canonical forms -----------------------------------------------------------
def canon_array(arr) -> tuple:
    """Exact, hashable content of an array; masked cells are equal whatever
    the value below the mask, NaN equals NaN."""
    if isinstance(arr, dask.array.Array):
        arr = arr.compute()
    mask = None
    if isinstance(arr, numpy.ma.MaskedArray):
        mask = numpy.ma.getmaskarray(arr)
        arr = arr.data
    arr = numpy.asarray(arr)
    data = arr.astype(arr.dtype, copy=True)
    if mask is not None and mask.any():
        data[mask] = numpy.zeros((), dtype=arr.dtype)
    if data.dtype.kind == 'f':
        data[numpy.isnan(data)] = numpy.nan
        data = data + 0.0
    mask_bytes = numpy.packbits(mask).tobytes() if (mask is not None and
                                                    mask.any()) else b''
    return (str(arr.dtype), arr.shape, data.tobytes(), mask_bytes)


def rows_of_canon(value) -> list:
    """The rows of a one-dimensional array given by canon_array."""
    dtype, shape, data, mask = value
    size = numpy.dtype(dtype).itemsize
    bits = numpy.unpackbits(numpy.frombuffer(mask, 'uint8'))[:shape[0]] \
        if mask else numpy.zeros(shape[0], 'uint8')
    return [(data[i * size:(i + 1) * size], int(bits[i]))
            for i in range(shape[0])]


def show(arr) -> str:
    if isinstance(arr, dask.array.Array):
        arr = arr.compute()
    if isinstance(arr, numpy.ma.MaskedArray):
        return str(arr.tolist())
    return str(numpy.asarray(arr).tolist())


def canon_ds(zds) -> dict:
    """{variable: (dimensions, canonical content)}"""
    if zds is None:
        return {}
    return {
        name: (tuple(var.dimensions), canon_array(var.values))
        for name, var in zds.variables.items()
    }


def same(expected, got, what: str, key: str | None = None) -> None:
    """Compare two {variable: array} dictionaries."""
    if set(expected) != set(got):
        raise Violation(
            f'{what}: variables {sorted(got)} instead of {sorted(expected)}',
            key)
    for name in expected:
        one, two = canon_array(expected[name]), canon_array(got[name])
        if one != two:
            raise Violation(
                f'{what}: variable {name!r} is {two[0]}{two[1]} '
                f'{show(got[name])} instead of {one[0]}{one[1]} '
                f'{show(expected[name])}', key)


def values_of(zds) -> dict:
    return {name: var.values for name, var in zds.variables.items()}


def check(cond, message: str, key: str | None = None) -> None:
    if not cond:
        raise Violation(message, key)


def digest(*items) -> str:
    h = hashlib.blake2b(digest_size=12)
    for item in items:
        if isinstance(item, dict):
            for k in sorted(item):
                h.update(str(k).encode())
                v = item[k]
                h.update(v if isinstance(v, bytes) else repr(v).encode())
                h.update(b'\0')
        else:
            h.update(item if isinstance(item, bytes) else repr(item).encode())
        h.update(b'\1')
    return h.hexdigest()


# -- schemas ---------------------------------------------------------------------
class Layout:
    """A partitioning with a bijection between small integer slots and rows.

    A row is identified by (p, s): p the partition number (0..), s the
    position of the record inside the partition (0..).  ``self.keys[p]`` is
    the expected key of the partition.
    """

    def __init__(self, name: str) -> None:
        self.name = name
        kind, _, arg = name.partition(':')
        self.kind = kind
        if kind == 'date':
            self.handler = partitioning.Date(('time', ), arg)
            self.resolution = arg
            # Start just before a rollover of every calendar unit.
            first = {
                'Y': '1999',
                'M': '1999-11',
                'D': '1999-12-30',
                'h': '1999-12-31T22',
                'm': '1999-12-31T23:58',
                's': '1999-12-31T23:59:58',
            }[arg]
            self.start = numpy.datetime64(first, arg)
        else:
            self.fields = tuple(arg.split(','))
            self.handler = partitioning.Sequence(self.fields)
            self.seq_keys = {
                1: [(1, ), (9, ), (10, ), (2**33 + 1, )],
                2: [(1, 1), (1, 10), (2, 1), (10, 0)],
                3: [(1, 1, 1), (1, 1, 10), (1, 2, 0), (2**33 + 1, 0, 0)],
            }[len(self.fields)]

    def key(self, p: int) -> tuple:
        if self.kind == 'date':
            date = (self.start + p).astype('datetime64[s]').item()
            names = ('year', 'month', 'day', 'hour', 'minute', 'second')
            count = 'YMDhms'.index(self.resolution) + 1
            return tuple((n, getattr(date, n)) for n in names[:count])
        return tuple(zip(self.fields, self.seq_keys[p]))

    def dirname(self, p: int) -> str:
        if self.kind == 'date':
            return '/'.join(f'{k}={v:02d}' for k, v in self.key(p))
        return '/'.join(f'{k}={v}' for k, v in self.key(p))

    def time(self, p: int, s: int) -> numpy.datetime64:
        if self.kind == 'date':
            base = (self.start + p).astype('datetime64[us]')
        else:
            base = numpy.datetime64('2000-01-01', 'us') + numpy.timedelta64(
                1000 * p, 's')
        # consecutive slots are one unit of the axis apart
        return (base + numpy.timedelta64(s, 'us')).astype('datetime64[us]')


def cell(tag: int, p: int, s: int) -> int:
    """A value that identifies the insertion, the partition and the row."""
    return tag * 1000 + p * 100 + s * 10


FILL_F = 9.5e5
FILL_I = -7


def arrays_for(layout: Layout, rows, *, pixels: int = 2) -> dict:
    """{variable: numpy array} for rows [(p, s, tag)]."""
    rows = list(rows)
    time = numpy.array([layout.time(p, s) for p, s, _ in rows],
                       dtype='datetime64[us]')
    v1 = numpy.array([float(cell(t, p, s)) for p, s, t in rows],
                     dtype='float64')
    v2 = numpy.array([[cell(t, p, s) + i for i in range(pixels)]
                      for p, s, t in rows],
                     dtype='int32').reshape(len(rows), pixels)
    # some cells hold the fill value / NaN
    for ix, (p, s, t) in enumerate(rows):
        if (t + p + s) % 4 == 3:
            v1[ix] = FILL_F
        if (t + p + s) % 5 == 4:
            v2[ix, 0] = FILL_I
        if (t + s) % 3 == 2 and p % 2:
            v1[ix] = numpy.nan
    out = {'time': time, 'v1': v1, 'v2': v2}
    if layout.kind != 'date':
        for i, field in enumerate(layout.fields):
            out[field] = numpy.array([layout.seq_keys[p][i] for p, _, _ in rows],
                                     dtype='int64')
    return out


DIMS = {'time': (DIM, ), 'v1': (DIM, ), 'v2': (DIM, PIX), 'w': (DIM, )}


def variable_props(name: str) -> dict:
    if name == 'v1':
        return dict(fill_value=FILL_F, compressor=numcodecs.Zlib(1),
                    attrs=(dataset.Attribute('units', 'm'), ))
    if name == 'v2':
        return dict(fill_value=numpy.int32(FILL_I).item(),
                    filters=(numcodecs.Delta('int32'), ),
                    attrs=(dataset.Attribute('long_name', 'v two'), ))
    if name == 'z':
        return dict(fill_value=0.0)
    return {}


def make_ds(arrays: dict, *, delayed: bool = False, chunk=None,
            attrs=(), chunks=None, extra_dims=None, block_size_limit=None):
    """Build a zcollection dataset from numpy arrays."""
    cls = dataset.DelayedArray if delayed else dataset.Array
    dims = dict(DIMS)
    dims.update(extra_dims or {})
    variables = []
    for name, arr in arrays.items():
        data = arr
        if delayed:
            size = tuple((chunk or max(1, n)) if i == 0 else max(1, n)
                         for i, n in enumerate(arr.shape))
            data = dask.array.from_array(arr, chunks=size)
        variables.append(
            cls(name, data, dims.get(name, (DIM, )), **variable_props(name)))
    return dataset.Dataset(variables, attrs=attrs, chunks=chunks,
                           delayed=delayed, block_size_limit=block_size_limit)


def expected_values(arrays: dict) -> dict:
    """What the library must give back for these arrays: cells equal to the
    fill value are masked."""
    out = {}
    for name, arr in arrays.items():
        fill = variable_props(name).get('fill_value')
        out[name] = arr if fill is None else numpy.ma.masked_equal(arr, fill)
    return out


def create(env: Env, layout: Layout, ds, path: str | None = None, axis='time',
           **kwargs):
    return zcollection.create_collection(axis, ds, layout.handler,
                                         path or env.path('coll'),
                                         filesystem=env.fs, **kwargs)


def open_coll(env: Env, path: str | None = None, mode='w', **kwargs):
    return zcollection.open_collection(path or env.path('coll'), mode=mode,
                                       filesystem=kwargs.pop('fs', env.fs),
                                       **kwargs)


# -- reference model of a collection -----------------------------------------------
def ref_split(rows) -> dict:
    """Rows [(p, s, tag)] by partition, in order."""
    out: dict = {}
    for row in rows:
        out.setdefault(row[0], []).append(row)
    return out


def ref_merge(old, new):
    """Time-series merge: the inserted rows replace the existing rows of the
    period they cover."""
    lo, hi = min(r[1] for r in new), max(r[1] for r in new)
    keep = [r for r in old if not lo <= r[1] <= hi]
    return sorted(keep + list(new), key=lambda r: r[1])


def ref_insert(state: dict, rows, merge: bool) -> dict:
    state = dict(state)
    for p, new in ref_split(rows).items():
        if merge and p in state:
            state[p] = tuple(ref_merge(state[p], new))
        else:
            state[p] = tuple(new)
    return state


def ref_rows(state: dict) -> list:
    return [row for p in sorted(state) for row in state[p]]


MERGES = {None: None, 'ts': merge_time_series}


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


def policy(real: bool, **kwargs):
    """Pool policy of a scenario (no-op on the real pool)."""
    fs = kwargs.pop('fs', None)
    if real:
        return contextlib.nullcontext()
    if fs == 'memr':
        kwargs['pickle'] = True
    return sim.policy(**kwargs)


def relative(paths, base: str) -> list:
    base = base.rstrip('/') + '/'
    return [p[len(base):] if p.startswith(base) else p for p in paths]
