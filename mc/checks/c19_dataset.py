"""C19: the operations on datasets compute what they compute on plain arrays,
whether the data are in memory or delayed, and however they are chunked."""
from __future__ import annotations

import collections
import itertools
import pickle

import dask
import dask.array
import numcodecs
import numpy

from mc import kit
from mc.kit import check
from zcollection import dataset, meta
from zcollection.compressed_array import CompressedArray

PROPERTY = 'C19'
LEVEL = 'model_checking'
VALIDATE = 0
CHUNK = 40
RULE = ('every sequence of operations of a dataset up to the depth, for data '
        'in memory and delayed with several chunkings; after each sequence '
        'all the ways to read the dataset, and the datasets it comes from '
        'must be as before')
ASSUMPTIONS = ['four lines and two columns, five variables (with and without '
               'fill value, 0 to 2 dimensions)',
               'delayed deletions and concatenations with an empty result are '
               'not supported by dask',
               'after persist(compress=True) the dataset is only read']

X, Y = 'x', 'y'
FILL = {'a': 9.0, 'b': -7, 'cc': 0}
DIMS = {'a': (X, ), 'b': (X, Y), 'cc': (Y, ), 's': (), 't': (Y, X)}


def base():
    return collections.OrderedDict(
        a=numpy.array([1.5, 9.0, numpy.nan, 4.0]),
        b=numpy.array([[1, -7], [3, 4], [-7, 6], [7, 8]], dtype='int32'),
        cc=numpy.array([0, 20], dtype='uint8'),
        s=numpy.array(2.5, dtype='float32'),
        t=numpy.arange(8, dtype='int64').reshape(2, 4) * 100,
    )


CHUNKINGS = {
    'numpy': None,
    'whole': ((4, ), (2, )),
    'halves': ((2, 2), (2, )),
    'uneven': ((1, 3), (1, 1)),
    'ones': ((1, 1, 1, 1), (1, 1)),
}
ATTRS = (dataset.Attribute('title', 'reference'), dataset.Attribute('n', 3))
LIMIT = 1 << 20
SIZES = (dataset.Dimension(X, 2), )


# -- reference -------------------------------------------------------------------
class Ref:
    """What a dataset holds."""

    def __init__(self, variables, attrs=ATTRS):
        #: name -> (dimensions, array, fill value)
        self.variables = collections.OrderedDict(variables)
        self.attrs = attrs

    @staticmethod
    def start():
        return Ref((k, (DIMS[k], v, FILL.get(k))) for k, v in base().items())

    def copy(self):
        return Ref(self.variables, self.attrs)

    @property
    def dimensions(self):
        out = {}
        for dims, arr, _ in self.variables.values():
            out.update(zip(dims, arr.shape))
        return out

    def apply(self, func):
        return Ref(((k, (d, func(k, d, v), f))
                    for k, (d, v, f) in self.variables.items()), self.attrs)


def build(ref, chunking, chunks=None):
    """The dataset that holds the reference."""
    cls = dataset.Array if chunking == 'numpy' else dataset.DelayedArray
    variables = []
    for name, (dims, arr, fill) in ref.variables.items():
        data = arr.copy()
        if chunking != 'numpy':
            sizes = dict(zip((X, Y), CHUNKINGS[chunking]))
            data = dask.array.from_array(
                data,
                chunks=tuple(
                    clip(sizes.get(d, (n, )), n)
                    for d, n in zip(dims, arr.shape)))
        variables.append(
            cls(name, data, dims, fill_value=fill,
                attrs=(dataset.Attribute('of', name), ),
                compressor=numcodecs.Zlib(1) if name == 'a' else None,
                filters=(numcodecs.Delta('int32'), ) if name == 'b' else None))
    return dataset.Dataset(variables, attrs=ref.attrs,
                           delayed=chunking != 'numpy',
                           block_size_limit=LIMIT, chunks=SIZES)


def clip(sizes, length):
    """The chunks of a dimension of this length."""
    out, total = [], 0
    for size in sizes:
        if total < length:
            out.append(min(size, length - total))
            total += out[-1]
    if total < length:
        out.append(length - total)
    return tuple(out) or (0, )


class Invalid(Exception):
    """The operation has to be refused with ValueError."""


class Skip(Exception):
    """The operation has no meaning for this dataset."""


# -- operations --------------------------------------------------------------------
# Each gives (reference of the result, function computing the result, True if
# the dataset is modified in place).
def isel(slices):

    def op(ref, chunking):
        del chunking
        for dim, key in slices.items():
            if dim not in ref.dimensions:
                raise Invalid
            if not isinstance(key, slice):
                size = ref.dimensions[dim]
                if getattr(key, 'dtype', None) == bool:
                    if len(key) != size:
                        raise Skip
                elif max(key) >= size:
                    raise Skip

        def cut(_, dims, arr):
            for axis, dim in enumerate(dims):
                if dim in slices:
                    arr = arr[(slice(None), ) * axis + (slices[dim], )]
            return arr

        return ref.apply(cut), lambda z: z.isel(dict(slices)), False

    return op


def delete(indexer, axis):

    def op(ref, chunking):
        size = ref.dimensions.get(axis, 0)
        left = numpy.delete(
            numpy.arange(size), [i for i in indexer if i < size]
            if isinstance(indexer, list) else indexer)
        if chunking != 'numpy' and (not left.size
                                    or not all(ref.dimensions.values())):
            raise Skip  # this is broken in dask
        if axis not in ref.dimensions:
            raise Skip
        if not isinstance(indexer, slice) and max(
                indexer) >= ref.dimensions[axis]:
            raise Skip
        return ref.apply(lambda _, dims, arr: numpy.delete(
            arr, indexer, dims.index(axis)) if axis in dims else
                         arr), lambda z: z.delete(indexer, axis), False

    return op


def concat(kinds, dim):
    """kinds: parts of the dataset to add."""

    def op(ref, chunking):
        if dim not in ref.dimensions:
            raise Skip
        refs = []
        for kind in kinds:
            refs.append(isel({dim: kind})(ref, chunking)[0])
        if chunking != 'numpy' and not all(ref.dimensions.values()):
            raise Skip  # so is dask.array.concatenate

        def join(name, dims, arr):
            if dim not in dims:
                return arr
            return numpy.concatenate(
                [arr] + [r.variables[name][1] for r in refs],
                axis=dims.index(dim))

        others = [build(r, chunking) for r in refs]
        return ref.apply(join), lambda z: z.concat(
            others[0] if len(others) == 1 else others, dim), False

    return op


def concat_wide(ref, chunking):
    """The other dataset has another number of columns."""
    if X not in ref.dimensions or Y not in ref.dimensions or not any(
            {X, Y} <= set(d) for d, _, _ in ref.variables.values()):
        raise Skip
    other = ref.apply(lambda _, dims, arr: numpy.concatenate(
        [arr, arr], axis=dims.index(Y)) if Y in dims else arr)
    if other.dimensions[Y] == ref.dimensions[Y]:
        raise Skip
    zds = build(other, chunking)
    return Invalid, lambda z: z.concat(zds, X), False


def concat_mixed(ref, chunking):
    """One dataset is lazy, the other is not."""
    if X not in ref.dimensions or not all(ref.dimensions.values()):
        raise Skip
    zds = build(ref, 'uneven' if chunking == 'numpy' else 'numpy')
    same = build(ref, chunking)
    return Invalid, lambda z: z.concat([same, zds], X), False


def merge(kind):

    def op(ref, chunking):
        size = ref.dimensions.get(X, 3)
        other = Ref([('n1', ((X, ), numpy.arange(size) * 2, None)),
                     ('n2', (('w', ), numpy.array([1.0, 5.0]), 5.0))],
                    (dataset.Attribute('n', 4), dataset.Attribute('m', 5)))
        wanted = ref.copy()
        if 'n1' in ref.variables or kind == 'name':
            other.variables['a'] = ((X, ), numpy.zeros(size), None)
            if 'a' not in ref.variables and 'n1' not in ref.variables:
                raise Skip
            wanted = Invalid
        elif kind == 'size':
            if X not in ref.dimensions:
                raise Skip
            other.variables['n1'] = ((X, ), numpy.arange(size + 1), None)
            wanted = Invalid
        else:
            wanted.variables.update(other.variables)
            attrs = {i.name: i for i in ref.attrs}
            attrs.update({i.name: i for i in other.attrs})
            wanted.attrs = tuple(attrs.values())
        zds = build(other, chunking)
        return wanted, lambda z: z.merge(zds), True

    return op


def select_vars(names):

    def op(ref, chunking):
        del chunking
        if not set([names] if isinstance(names, str) else names) <= set(
                ref.variables):
            raise Skip
        order = [names] if isinstance(names, str) else names
        return Ref(((n, ref.variables[n]) for n in order),
                   ref.attrs), lambda z: z.select_vars(names), False

    return op


def by_dims(dims, predicate):

    def op(ref, chunking):
        del chunking
        return Ref(
            ((k, v) for k, v in ref.variables.items()
             if (bool(set(v[0]) & set(dims)) if dims else not v[0]
                 ) == predicate),
            ref.attrs), lambda z: z.select_variables_by_dims(
                dims, predicate), False

    return op


def drop(names):

    def op(ref, chunking):
        del chunking
        gone = [names] if isinstance(names, str) else names
        if not set(gone) <= set(ref.variables):
            raise Skip
        wanted = ref.copy()
        for name in gone:
            wanted.variables.pop(name)
        wanted.kept = ref.dimensions
        return wanted, lambda z: z.drops_vars(names), True

    return op


def rename(names):

    def op(ref, chunking):
        del chunking
        if not set(names) <= set(ref.variables):
            raise Skip
        wanted = ref.copy()
        for old, new in names.items():
            if new in wanted.variables:
                return Invalid, lambda z: z.rename(names), True
            wanted.variables[new] = wanted.variables.pop(old)
        return wanted, lambda z: z.rename(names), True

    return op


def add(kind):

    def op(ref, chunking):
        if 'new' in ref.variables:
            raise Skip
        dims = {'bad': ('unknown', ), 'scalar': ()}.get(kind, (X, Y))
        if not set(dims) - {'unknown'} <= set(ref.dimensions):
            raise Skip
        var = meta.Variable('new', 'int16', dimensions=dims, fill_value=3)
        shape = tuple(ref.dimensions.get(d, 3) for d in dims)
        data, arr = None, numpy.full(shape, 3, 'int16')
        if kind in ('data', 'long', 'wide'):
            if kind == 'long':
                shape = (shape[0] + 1, shape[1])
            if kind == 'wide':
                shape = (shape[0], shape[1] + 1)
            arr = numpy.arange(numpy.prod(shape),
                               dtype='int16').reshape(shape)
            data = arr.copy()
            if chunking != 'numpy':
                data = dask.array.from_array(data, chunks=1 if data.size else
                                             -1)
        wanted = Invalid
        if kind not in ('bad', 'long', 'wide'):
            wanted = ref.copy()
            wanted.variables['new'] = (dims, arr, 3)
        return wanted, lambda z: z.add_variable(var, data), True

    return op


def same_data(func):

    def op(ref, chunking):
        del chunking
        return ref.copy(), func, False

    return op


def persisted(ref, chunking):
    del chunking
    return ref.copy(), lambda z: z.persist(), False


def set_values(ref, chunking):
    """Definition of the values of a variable."""
    del chunking
    if 'cc' not in ref.variables:
        raise Skip
    wanted = ref.copy()
    dims, arr, fill = wanted.variables['cc']
    new = (arr * 2 + 1).astype(arr.dtype)
    wanted.variables['cc'] = (dims, new, fill)

    def func(zds):
        zds.variables['cc'].values = new.copy()

    return wanted, func, True


def fill_a(ref, chunking):
    del chunking
    if 'a' not in ref.variables:
        raise Skip
    wanted = ref.copy()
    dims, arr, fill = wanted.variables['a']
    wanted.variables['a'] = (dims, numpy.full_like(arr, fill), fill)
    return wanted, lambda z: z['a'].fill() and None, True


OPS = {
    'isel x 1:3': isel({X: slice(1, 3)}),
    'isel x 0:0': isel({X: slice(0, 0)}),
    'isel x ::2': isel({X: slice(None, None, 2)}),
    'isel x ::-1': isel({X: slice(None, None, -1)}),
    'isel x -2: y 1:': isel({X: slice(-2, None), Y: slice(1, None)}),
    'isel x [0,2]': isel({X: numpy.array([0, 2])}),
    'isel x mask': isel({X: numpy.array([True, False, False, True])}),
    'isel z': isel({'z': slice(0, 1)}),
    'delete x 1:3': delete(slice(1, 3), X),
    'delete x [0]': delete([0], X),
    'delete x [3,1]': delete([3, 1], X),
    'delete x all': delete(slice(None), X),
    'delete y [1]': delete([1], Y),
    'concat mixed': concat_mixed,
    'concat x self': concat([slice(None)], X),
    'concat x many': concat([slice(1, 2), slice(0, 0), slice(None)], X),
    'concat y': concat([slice(0, 1)], Y),
    'concat x wide': concat_wide,
    'merge': merge('new'),
    'merge name': merge('name'),
    'merge size': merge('size'),
    'select b,a': select_vars(['b', 'a']),
    'select c': select_vars('cc'),
    'select none': select_vars([]),
    'by x': by_dims([X], True),
    'not by x': by_dims([X], False),
    'by y': by_dims((Y, ), True),
    'by y,x': by_dims([Y, X], True),
    'not by y,x': by_dims([Y, X], False),
    'by none': by_dims([], True),
    'not by none': by_dims([], False),
    'drop b,c': drop(['b', 'cc']),
    'drop a': drop('a'),
    'rename': rename({'a': 'k', 'b': 'a'}),
    'rename exists': rename({'t': 'k', 'a': 'cc'}),
    'add': add('fill'),
    'add data': add('data'),
    'add scalar': add('scalar'),
    'add bad': add('bad'),
    'add long': add('long'),
    'add wide': add('wide'),
    'compute': same_data(lambda z: z.compute()),
    'rechunk': same_data(lambda z: z.rechunk(chunks=2)),
    'rechunk whole': same_data(lambda z: z.rechunk()),
    'persist': persisted,
    'pickle': same_data(lambda z: pickle.loads(pickle.dumps(z))),
    'values': set_values,
    'fill': fill_a,
}
DELAYED_ONLY = ('rechunk', 'rechunk whole', 'persist')


#: type, fill value of the masked array, another fill value
MASKED = [('float64', 3.0, 4.0), ('float64', 'nan', 4.0),
          ('float32', None, 'nan'), ('int16', 7, 8), ('int64', None, 5),
          ('uint8', 2, 1), ('datetime64[s]', 'NaT', '2000-01-01')]


def run_masked(scenario, ctx):
    """A variable made of a masked array hides the masked values, and those
    equal to its fill value."""
    _, dtype, (fill, other) = scenario
    kind = numpy.dtype(dtype).type
    if dtype.startswith('datetime64'):
        kind = lambda v: numpy.datetime64(v, 's')
    for mask in itertools.product((False, True), repeat=3):
        given = numpy.ma.array(numpy.array([1, 2, 3]).astype(dtype),
                               mask=mask,
                               fill_value=None if fill is None else
                               kind(fill))
        value = given.fill_value
        data = numpy.array([value if m else v
                            for m, v in zip(mask, given.data)], dtype)
        hidden = [m or bool(v == value) for m, v in zip(mask, given.data)]
        nan = value != value
        forms = [(dataset.Array, given), (dataset.DelayedArray, given)] + [
            (dataset.DelayedArray, dask.array.from_array(given, chunks=n))
            for n in (1, 2, 3)
        ]
        for (cls, arr), declared in itertools.product(
                forms, (None, value, kind(other))):
            what = (f'{cls.__name__} of {given!r}, fill value {declared!r}')
            ctx.step()
            ctx.state((scenario, mask, cls.__name__, str(declared)))
            try:
                var = cls('a', arr, ('x', ), fill_value=declared)
            except ValueError:
                check(declared is not None and declared is not value,
                      f'{what}: refused')
                ctx.outcome('fill value refused')
                continue
            check(declared is None or declared is value,
                  f'{what}: accepted')
            check(
                numpy.array_equal([var.fill_value], [value],
                                  equal_nan=dtype[0] != 'd') or
                (nan and var.fill_value != var.fill_value),
                f'{what}: fill value {var.fill_value}')
            check(kit.canon_array(raw(var)) == kit.canon_array(data),
                  f'{what}: stores {raw(var)}')
            got = var.values
            if nan:
                # nothing is equal to such a value
                check(kit.canon_array(numpy.ma.filled(got, value))
                      == kit.canon_array(data), f'{what}: values {got}')
            else:
                check(list(numpy.ma.getmaskarray(got)) == hidden and
                      (numpy.asarray(got)[~numpy.array(hidden)]
                       == given.data[~numpy.array(hidden)]).all(),
                      f'{what}: values {got}')
            ctx.outcome('masked array')


def scenarios(tier):
    quick = tier == 'quick'
    for dtype, fill, other in MASKED:
        yield ('masked', dtype, (fill, other))
    for chunking in CHUNKINGS:
        if chunking != 'numpy':
            for name in [None] + list(OPS):
                yield ('compress', chunking, (name, ) if name else ())
        depth = 2
        if not quick and chunking in ('numpy', 'uneven'):
            depth = 3
        if quick and chunking in ('whole', 'ones'):
            depth = 1
        yield ('ops', chunking, ())
        for size in range(1, depth + 1):
            for seq in itertools.product(OPS, repeat=size):
                yield ('ops', chunking, seq)


def real_ok(scenario):
    del scenario
    return False


def run(scenario, ctx):
    kind, chunking, seq = scenario
    if kind == 'masked':
        with dask.config.set(scheduler='synchronous'), kit.quiet():
            run_masked(scenario, ctx)
        return
    with dask.config.set(scheduler='synchronous'), kit.quiet():
        ref = Ref.start()
        zds = build(ref, chunking)
        state = chunking
        done = []
        for op in seq:
            done.append(op)
            what = ', '.join(done)
            if state == 'numpy' and op in DELAYED_ONLY:
                ctx.outcome('skipped')
                return
            try:
                wanted, func, inplace = OPS[op](ref, state)
            except Skip:
                ctx.outcome('skipped')
                return
            except Invalid:
                wanted, func, inplace = Invalid, OPS_INVALID(op), True
            before = look(zds)
            if wanted is Invalid:
                try:
                    func(zds)
                except ValueError:
                    ctx.outcome('refused')
                    check(look(zds) == before,
                          f'{what}: refused but the dataset has changed')
                    continue
                check(False, f'{what}: accepted')
            result = func(zds)
            if inplace:
                result = zds
            elif op not in ('persist', ):
                check(look(zds) == before,
                      f'{what}: the dataset it comes from has changed')
            if op == 'compute':
                state = 'numpy'
            ref, zds = wanted, result
            ctx.step()
            ctx.outcome(op)
        what = f'{chunking}: {", ".join(done) or "start"}'
        if kind == 'compress':
            if state == 'numpy':
                return
            result = zds.persist(compress=True)
            check(result is zds, f'{what}: persist gives another dataset')
            verify(ref, zds, state, f'{what}, compressed', light=True)
        else:
            verify(ref, zds, state, what)
        ctx.state((kind, chunking, seq))


def OPS_INVALID(op):  # pylint: disable=invalid-name
    assert op == 'isel z' or op.startswith('isel'), op
    keys = {'isel z': {'z': slice(0, 1)}}.get(op, {Y: slice(1, None),
                                                  X: slice(-2, None)})
    return lambda z: z.isel(keys)


def look(zds):
    """Everything visible of a dataset."""
    return (tuple((n, v.name, tuple(v.dimensions), kit.canon_array(v.values),
                   tuple(i.get_config() for i in v.attrs))
                  for n, v in zds.variables.items()),
            tuple(sorted(zds.dimensions.items())), zds.delayed,
            tuple(i.get_config() for i in zds.attrs), tuple(
                sorted(zds.chunks.items())), zds.block_size_limit)


def masked(arr, fill):
    return arr if fill is None else numpy.ma.masked_equal(arr, fill)


def verify(ref, zds, state, what, light=False):
    delayed = state != 'numpy'
    check(isinstance(zds, dataset.Dataset), f'{what}: gives {type(zds)}')
    check(list(zds.variables) == list(ref.variables),
          f'{what}: variables {list(zds.variables)} instead of '
          f'{list(ref.variables)}')
    check(zds.delayed == delayed, f'{what}: delayed is {zds.delayed}')
    dimensions = ref.dimensions
    got = dict(zds.dimensions)
    check({k: got.get(k) for k in dimensions} == dimensions,
          f'{what}: dimensions {got} instead of {dimensions}')
    check(tuple(i.get_config() for i in zds.attrs) == tuple(
        i.get_config() for i in ref.attrs), f'{what}: attributes {zds.attrs}')
    check(zds.block_size_limit == LIMIT and zds.chunks == {X: 2},
          f'{what}: chunks {zds.chunks}, limit {zds.block_size_limit}')
    check(len(zds) == len(ref.variables) and bool(zds) == bool(ref.variables),
          f'{what}: length {len(zds)}')
    wanted = {
        k: masked(arr, fill)
        for k, (_, arr, fill) in ref.variables.items()
    }
    kit.same(wanted, kit.values_of(zds), what)
    got = {
        # (a compressed array has to be decompressed by the caller)
        k: v[...] if isinstance(v, CompressedArray) else v
        for k, v in zds.to_dict().items()
    }
    kit.same(wanted, got, f'{what}: to_dict')
    cls = dataset.DelayedArray if delayed else dataset.Array
    for name, (dims, arr, fill) in ref.variables.items():
        var = zds[name]
        check(var is zds.variables[name] and getattr(zds, name) is var,
              f'{what}: access to {name}')
        check(isinstance(var, cls), f'{what}: {name} is {type(var)}')
        check(var.name == name and tuple(var.dimensions) == dims
              and var.shape == arr.shape and var.dtype == arr.dtype,
              f'{what}: {name} is {var.name} {var.dimensions} {var.shape} '
              f'{var.dtype}')
        check(var.fill_value == fill, f'{what}: fill value of {name}')
        check(var.ndim == arr.ndim and var.size == arr.size
              and var.nbytes == arr.nbytes, f'{what}: size of {name}')
        if light:
            continue
        kit.same({name: wanted[name]}, {name: var.data.compute()},
                 f'{what}: data')
        kit.same({name: wanted[name]}, {name: numpy.ma.asanyarray(
            var.compute())}, f'{what}: compute')
        kit.same({name: arr}, {name: numpy.asarray(raw(var))},
                 f'{what}: array')
        if arr.ndim and arr.shape[0]:
            for key in (slice(0, 1), -1, numpy.array([0])):
                item = numpy.ma.asanyarray(plain(var[key]))
                if wanted[name][key] is numpy.ma.masked:
                    # (the constant of numpy has its own type)
                    check(item.shape == () and item.mask.all(),
                          f'{what}: item {key} of {name} is {item}')
                    continue
                kit.same({name: numpy.ma.asanyarray(masked(arr[key], fill))},
                         {name: item}, f'{what}: item {key}')
    if light:
        return
    check(zds.nbytes == sum(a.nbytes for _, a, _ in ref.variables.values()),
          f'{what}: nbytes is {zds.nbytes}')
    mds = zds.metadata()
    check({
        k: (tuple(v.dimensions), v.dtype, v.fill_value)
        for k, v in mds.variables.items()
    } == {
        k: (d, a.dtype, f)
        for k, (d, a, f) in ref.variables.items()
    }, f'{what}: metadata')
    check(meta.Dataset.from_config(mds.get_config()) == mds,
          f'{what}: configuration of the metadata')
    for name, var in zds.variables.items():
        # The origin of the variable is its attribute.
        own = [i.get_config() for i in var.attrs]
        check([i.get_config() for i in mds.variables[name].attrs] == own
              and (own == [] if name == 'new' else len(own) == 1),
              f'{what}: attributes of {name}: {var.attrs}')
        source = own[0][1] if own else None
        for item in (var, mds.variables[name]):
            check(item.compressor == (numcodecs.Zlib(1) if source == 'a' else
                                      None)
                  and tuple(item.filters) == ((numcodecs.Delta('int32'), )
                                              if source == 'b' else ()),
                  f'{what}: codecs of {name}: {item.compressor}, '
                  f'{item.filters}')
        check(name in ('new', 'k') or source == name
              or (name, source) in (('a', 'b'), ('cc', 'a')),
              f'{what}: {name} has the attributes of {source}')
    xds = zds.to_xarray()
    for name, (dims, arr, fill) in ref.variables.items():
        values = numpy.asarray(xds[name].values)
        check(tuple(xds[name].dims) == dims and values.shape == arr.shape,
              f'{what}: {name} is {xds[name].dims} for xarray')
        hidden = numpy.zeros(arr.shape, bool) if fill is None else arr == fill
        if arr.dtype.kind == 'f':
            hidden = hidden | numpy.isnan(arr)
        check((numpy.isnan(values.astype(float)) == hidden).all() and
              (values[~hidden] == arr[~hidden]).all(),
              f'{what}: {name} is {values} for xarray')
        var = zds.variables[name]
        attrs = {i.name: i.value for i in var.attrs}
        check(dict(xds[name].attrs) == attrs,
              f'{what}: attributes of {name} for xarray: {xds[name].attrs}')
        check(xds[name].encoding.get('compressor') == var.compressor and
              tuple(xds[name].encoding.get('filters', ())) == tuple(
                  var.filters), f'{what}: codecs of {name} for xarray')
    check(dict(xds.attrs) == {i.name: i.value for i in ref.attrs},
          f'{what}: attributes for xarray')
    # and back
    for delayed in (True, False):
        other = dataset.Dataset.from_xarray(xds, delayed=delayed)
        check(other.delayed == delayed and list(other.variables) == list(
            xds.variables) and [i.get_config() for i in other.attrs] == [
                i.get_config() for i in ref.attrs],
              f'{what}: from xarray: {other}')
        for name, (dims, arr, fill) in ref.variables.items():
            var, own = other.variables[name], zds.variables[name]
            check(tuple(var.dimensions) == dims and var.shape == arr.shape
                  and var.fill_value == fill and
                  var.compressor == own.compressor and
                  tuple(var.filters) == tuple(own.filters) and
                  [i.get_config() for i in var.attrs] == [
                      i.get_config() for i in own.attrs],
                  f'{what}: {name} from xarray: {var!r}')
            got = numpy.ma.filled(var.values.astype('float64'), numpy.nan)
            want = numpy.asarray(xds[name].values, dtype='float64')
            if fill is not None:
                want = numpy.where(want == fill, numpy.nan, want)
            check(numpy.array_equal(got, want, equal_nan=True),
                  f'{what}: {name} is {got} from xarray')


def raw(var):
    return var.array.compute() if hasattr(var.array, 'compute') else var.array


def plain(item):
    return item.compute() if hasattr(item, 'compute') else item
