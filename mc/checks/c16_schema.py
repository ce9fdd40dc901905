"""C16: a collection keeps the schema it was created with: it is the one
found when it is opened again, and the one of the data it stores."""
from __future__ import annotations

import itertools
import json

import dask.array
import numcodecs
import numpy
import xarray

import zcollection
from mc import kit
from mc.env import Env
from mc.kit import DIM, PIX, Layout, check
from zcollection import dataset, merging, meta as zmeta, partitioning

PROPERTY = 'C16'
LEVEL = 'model_checking'
VALIDATE = 29
RULE = ('every schema of the bounds (data type x fill value x codecs; '
        'partitioning x axis x chunks x attributes), in memory or delayed: '
        'creation, opening, insertion with and without the variable, '
        'validation, loading')
ASSUMPTIONS = ['one variable of the enumerated type next to the axis',
               'three records in two partitions']

NAN, NAT = float('nan'), numpy.datetime64('NaT')
#: dtype -> (values of three records, fill values)
TYPES = {
    'float64': ([1.5, 1e20, NAN], [None, 0.0, 1.5, NAN, float('inf'),
                                   -float('inf'), 1e20]),
    'float32': ([1.5, 0.1, -0.0], [None, NAN, 1.5]),
    'int8': ([1, -128, 127], [None, 0, -128]),
    'int16': ([1, -2, 32767], [None, 32767]),
    'int32': ([1, -7, 2**31 - 1], [None, 2**31 - 1, -7]),
    'int64': ([1, 2**53 + 1, -2**63], [None, -2**63, 2**53 + 1, 0]),
    'uint8': ([0, 255, 7], [None, 255, 0]),
    'uint64': ([0, 2**64 - 1, 2**53 + 1], [None, 2**64 - 1]),
    'bool': ([True, False, True], [None, False, True]),
    'datetime64[ns]': (['2000-01-01T00:00:00.000000001', '1969-12-31', 'NaT'],
                       [None, NAT, '1969-12-31']),
    'datetime64[s]': (['2000-01-01T00:00:01', '1969-12-31', 'NaT'],
                      [None, '1969-12-31']),
    'datetime64[D]': (['2000-01-01', '1969-12-31', '2000-02-29'],
                      [None, '2000-02-29']),
    'timedelta64[ms]': ([5, -7, 0], [None, 0, -7]),
    'S3': ([b'abc', b'', b'x'], [None, b'', b'abc']),
    'U2': (['é', '', 'ab'], [None, '', 'ab']),
    '>i4': ([1, -2, 3], [None, -2]),
}
COMPRESSORS = {
    'none': None,
    'zlib': numcodecs.Zlib(level=1),
    'blosc': numcodecs.Blosc(cname='zstd', clevel=3, shuffle=2),
    'lzma': numcodecs.LZMA(preset=1),
}
CHUNKS = (None, {DIM: 1}, {DIM: 2, PIX: 1}, {PIX: 1}, {DIM: 100},
          {DIM: 'auto'}, {PIX: 'auto', DIM: 2})
LIMITS = (None, 16)
ATTRS = {
    'none': (),
    'simple': (('units', 'm'), ('n', 3), ('z', 1.5), ('flag', True),
               ('nothing', None)),
    'numpy': (('values', numpy.array([1, 2], 'int16')),
              ('scalar', numpy.float32(0.5)), ('i', numpy.int64(-3))),
    'nested': (('é', 'ü'), ('list', [1, 'two', [3.5]]),
               ('dict', {'k': [1], 'a': None})),
}
PLAIN = {
    'values': [1, 2],
    'scalar': 0.5,
    'i': -3,
}
HANDLERS = {
    **{
        f'date:{r}': partitioning.Date(('time', ), r)
        for r in 'YMDhms'
    },
    'seq:a': partitioning.Sequence(('a', )),
    'seq:a,b': partitioning.Sequence(('a', 'b')),
}


def filters_of(dtype):
    kind = numpy.dtype(dtype).kind
    out = {'none': ()}
    if kind in 'iu' and dtype != '>i4':
        out['delta'] = (numcodecs.Delta(dtype), )
        out['two'] = (numcodecs.Delta(dtype), numcodecs.Shuffle(
            numpy.dtype(dtype).itemsize))
    if dtype == 'int32':
        out['offset'] = (numcodecs.FixedScaleOffset(
            offset=10, scale=1, dtype='<i4', astype='<i8'), )
    return out


def scenarios(tier):
    quick = tier == 'quick'
    for dtype, (_, fills) in TYPES.items():
        for fill, comp, filt, delayed in itertools.product(
                range(len(fills)), COMPRESSORS, filters_of(dtype),
            (False, True)):
            if quick and comp in ('zlib', 'lzma') and filt != 'none':
                continue
            for fs in ('mem', ) if quick and comp != 'blosc' else ('mem',
                                                                   'local'):
                yield ('type', dtype, fill, comp, filt, delayed, fs)
    for handler, axis, chunks, limit, attrs, fs in itertools.product(
            HANDLERS, ('time', 'num_lines'), range(len(CHUNKS)), LIMITS,
            ATTRS, ('mem', 'local')):
        if quick and fs == 'local' and (chunks or limit):
            continue
        if quick and attrs != 'none' and chunks not in (0, 2):
            continue
        yield ('layout', handler, axis, chunks, limit, attrs, fs)
    for kind in ('axis', 'key', 'exists', 'attribute', 'xarray'):
        for fs in ('mem', 'local'):
            yield ('other', kind, fs)


def real_ok(scenario):
    return scenario[-1] == 'local' and scenario[0] != 'other'


def run(scenario, ctx):
    with kit.policy(ctx.real, workers=2, eager=True, order='fifo'), \
            kit.quiet():
        {'type': run_type, 'layout': run_layout,
         'other': run_other}[scenario[0]](scenario, ctx)
        ctx.step()
        ctx.outcome(scenario[0])
        ctx.state(scenario)


def times():
    return numpy.array(['2000-01-01T00:00:00', '2000-01-01T00:00:00',
                        '2001-02-02T01:01:01'], dtype='datetime64[us]')


def build(variables, delayed, **kwargs):
    """variables: name -> (dimensions, array, keywords)"""
    cls = dataset.DelayedArray if delayed else dataset.Array
    return dataset.Dataset([
        cls(name, dask.array.from_array(arr) if delayed else arr, dims, **kw)
        for name, (dims, arr, kw) in variables.items()
    ], delayed=delayed, **kwargs)


def stored_arrays(env, path):
    """Descriptions of the arrays of the partitions."""
    out = {}
    for item, content in env.tree(path).items():
        if item.endswith('/.zarray'):
            part, name, _ = item.rsplit('/', 2)
            out.setdefault(part, {})[name] = json.loads(content)
    check(out, 'no array is stored')
    return out


def is_nan(value):
    try:
        return bool(value != value)  # pylint: disable=comparison-with-itself
    except Exception:  # pylint: disable=broad-except
        return False


def same_fill(one, two, what):
    """The fill values are the same."""
    if one is None or two is None:
        check(one is None and two is None, f'{what}: fill value {two!r} '
              f'instead of {one!r}')
        return
    check((is_nan(one) and is_nan(two)) or one == two,
          f'{what}: fill value {two!r} instead of {one!r}')


def same_metadata(one, two, what):
    """Comparison that does not rely on the equality of the library."""
    check(set(one.variables) == set(two.variables),
          f'{what}: variables {sorted(two.variables)}')
    check(tuple(one.dimensions) == tuple(two.dimensions),
          f'{what}: dimensions {two.dimensions}')
    check(one.block_size_limit == two.block_size_limit,
          f'{what}: block size limit {two.block_size_limit}')
    check([tuple(i.get_config()) for i in one.chunks] == [
        tuple(i.get_config()) for i in two.chunks
    ], f'{what}: chunks {two.chunks}')
    same_attrs(one.attrs, two.attrs, f'{what}: attributes')
    for name, var in one.variables.items():
        same_variable(var, two.variables[name], what)
    check(one == two and not one != two, f'{what}: the metadata differ')


def same_variable(var, other, what):
    name = var.name
    text = f'{what}: variable {name}'
    check(other.name == name and other.dtype == var.dtype
          and other.dtype.str == var.dtype.str,
          f'{text}: type {other.dtype}')
    check(tuple(other.dimensions) == tuple(var.dimensions),
          f'{text}: dimensions {other.dimensions}')
    same_fill(var.fill_value, other.fill_value, text)
    check(config(var.compressor) == config(other.compressor),
          f'{text}: compressor {other.compressor}')
    check([config(i) for i in var.filters] == [
        config(i) for i in other.filters
    ], f'{text}: filters {other.filters}')
    same_attrs(var.attrs, other.attrs, f'{text}: attributes')


def config(codec):
    return None if codec is None else codec.get_config()


def same_attrs(one, two, what):
    one = {i.name: i.value for i in one}
    two = {i.name: i.value for i in two}
    check(one == two, f'{what}: {two} instead of {one}')


def reopen(env, coll, what):
    """The collection is opened again in the two modes."""
    for mode in ('r', 'w'):
        other = kit.open_coll(env, mode=mode)
        same_metadata(coll.metadata, other.metadata, f'{what}, opened')
        check(other.axis == coll.axis, f'{what}: axis {other.axis}')
        check(type(other.partitioning) is type(coll.partitioning)
              and other.partitioning.get_config()
              == coll.partitioning.get_config(),
              f'{what}: partitioning {other.partitioning.get_config()}')
        check(other.partition_properties == coll.partition_properties,
              f'{what}: {other.partition_properties}')
        check(other.immutable == coll.immutable, f'{what}: immutable')
        # The variables, one by one, without their data
        names = list(coll.metadata.variables)
        for chosen in [None] + [[name] for name in names] + [names[1:]]:
            got = other.variables(chosen) if chosen else other.variables()
            check(sorted(v.name for v in got) == sorted(
                n for n in names if not chosen or n in chosen), f'{what}: variables({chosen}): {got}')
            for var in got:
                same_variable(coll.metadata.variables[var.name],
                              var.metadata(), f'{what}: variables()')
    return other


# -- types and codecs ----------------------------------------------------------------
def run_type(scenario, ctx):
    del ctx
    _, dtype, ix, comp, filt, delayed, fs = scenario
    values, fills = TYPES[dtype]
    arr = numpy.array(values, dtype=dtype)
    fill = fills[ix]
    if fill is not None:
        fill = numpy.array(fill, dtype=dtype)[()]
        if arr.dtype.kind not in 'mM':
            fill = fill.item()
    env = Env(fs)
    keywords = dict(fill_value=fill, compressor=COMPRESSORS[comp],
                    filters=filters_of(dtype)[filt])
    variables = {
        'time': ((DIM, ), times(), {}),
        'x': ((DIM, ), arr, keywords),
        'y': ((DIM, ), numpy.arange(3.0), dict(fill_value=1.0)),
    }
    what = f'{dtype}, fill {fill!r}, {comp}, {filt}'
    zds = build(variables, delayed)
    source = zds.metadata()
    coll = zcollection.create_collection('time', zds,
                                         partitioning.Date(('time', ), 'D'),
                                         env.path('coll'), filesystem=env.fs)
    same_metadata(source, coll.metadata, f'{what}, created')
    reopen(env, coll, what)
    for validate in (False, True):
        for who, target in (('created', coll), ('opened', kit.open_coll(env))):
            target.insert(zds, validate=validate)
            verify_type(env, target, variables, fill, keywords, arr,
                        f'{what}, {who}')
            reopen(env, coll, f'{what}, after an insertion')
    check(sorted(zds.variables) == sorted(variables), f'{what}: the dataset '
          'inserted has changed')
    if fill is None:
        return
    # Without the variable: it is filled.
    part = build({k: v for k, v in variables.items() if k != 'x'}, delayed)
    before = {k: v for k, v in variables.items() if k != 'x'}
    coll.insert(part)
    for name, (dims, values, _) in before.items():
        # (insert adds the missing variables to the dataset)
        check(tuple(part[name].dimensions) == dims and kit.canon_array(
            numpy.asarray(part[name].array)) == kit.canon_array(values),
              f'{what}: insert has modified {name} of the caller')
    full = dict(variables)
    full['x'] = ((DIM, ), numpy.full(3, fill, dtype=dtype), keywords)
    verify_type(env, kit.open_coll(env), full, fill, keywords, full['x'][1],
                f'{what}, without the variable')
    # Without two variables
    alone = build({'time': variables['time']}, delayed)
    coll.insert(alone)
    full['y'] = ((DIM, ), numpy.full(3, 1.0), dict(fill_value=1.0))
    got = kit.open_coll(env).load(delayed=False)
    check(set(got.variables) == set(full)
          and got['y'].values.mask.all() and got['y'].values.shape == (3, ),
          f'{what}, without two variables: {got["y"].values}')
    verify_type(env, kit.open_coll(env), full, fill, keywords, full['x'][1],
                f'{what}, without two variables')
    # Other metadata are refused when asked.
    other = dict(variables)
    other['y'] = ((DIM, ), numpy.arange(3.0) + 7, dict(fill_value=2.0))
    codecs = dict(variables)
    codecs['y'] = ((DIM, ), numpy.arange(3.0),
                   dict(fill_value=1.0, filters=(numcodecs.Shuffle(8), )))
    packed = dict(variables)
    packed['y'] = ((DIM, ), numpy.arange(3.0),
                   dict(fill_value=1.0, compressor=numcodecs.BZ2(1)))
    tree = env.tree()
    for bad in (build(other, delayed), build(codecs, delayed),
                build(packed, delayed),
                build(variables, delayed,
                      attrs=(dataset.Attribute('other', 1), ))):
        try:
            coll.insert(bad, validate=True)
        except ValueError:
            check(env.tree() == tree, f'{what}: refused but files changed')
        else:
            check(False, f'{what}: other metadata are accepted')
    # So is an unknown variable, whatever is missing.
    alone = dict(time=variables['time'], z=variables['y'])
    for bad in (alone, {**alone, 'x': variables['x'], 'y': variables['y']}):
        try:
            coll.insert(build(bad, delayed))
        except ValueError:
            check(env.tree() == tree, f'{what}: refused but files changed')
        else:
            check(False, f'{what}: an unknown variable is accepted')


def verify_type(env, coll, variables, fill, keywords, arr, what):
    for delayed in (False, True):
        zds = coll.load(delayed=delayed)
        check(set(zds.variables) == set(variables),
              f'{what}: variables {sorted(zds.variables)}')
        var = zds['x']
        got = var.values
        raw = numpy.ma.getdata(got)
        # (numpy gives the byte order of the machine to concatenated arrays)
        native = arr.astype(arr.dtype.newbyteorder('='))
        check(raw.dtype.newbyteorder('=') == native.dtype,
              f'{what}: type {raw.dtype} instead of {arr.dtype}')
        hidden = numpy.zeros(arr.shape, bool)
        if fill is not None and not is_nan(fill):
            hidden = arr == fill
        check((numpy.ma.getmaskarray(got) == hidden).all(),
              f'{what}: mask {numpy.ma.getmaskarray(got)} instead of {hidden}')
        check(
            kit.canon_array(numpy.asarray(var.array).astype(
                native.dtype)) == kit.canon_array(native),
            f'{what}: values {numpy.asarray(var.array)} instead of {arr}')
        same_fill(fill, var.fill_value, f'{what}, loaded')
        check(config(var.compressor) == config(keywords['compressor'])
              and [config(i) for i in var.filters] == [
                  config(i) for i in keywords['filters']
              ], f'{what}, loaded: {var.compressor}, {var.filters}')
    for part, arrays in stored_arrays(env, env.path('coll')).items():
        meta = arrays['x']
        check(meta['dtype'] == arr.dtype.str and meta['shape'] in ([1], [2]),
              f'{what}: stored in {part} as {meta["dtype"]} {meta["shape"]}')
        check(meta['compressor'] == config(keywords['compressor']),
              f'{what}: compressor {meta["compressor"]} in {part}')
        check((meta['filters'] or []) == [
            config(i) for i in keywords['filters']
        ], f'{what}: filters {meta["filters"]} in {part}')


# -- partitioning, axis, chunks, attributes ----------------------------------------------
def run_layout(scenario, ctx):
    del ctx
    _, handler, axis, ix, limit, attrs, fs = scenario
    env = Env(fs)
    what = f'{handler}, {axis}, chunks {CHUNKS[ix]}, {limit}, {attrs}'
    own = tuple(dataset.Attribute(*i) for i in ATTRS[attrs])
    # three records in the first partition, one in the second
    time = numpy.append(times()[0] + numpy.arange(3), times()[-1:])
    variables = {
        axis: ((DIM, ), time, dict(attrs=own)),
        'v': ((DIM, PIX), numpy.arange(8.0).reshape(4, 2), dict(attrs=own)),
        'a': ((DIM, ), numpy.array([2, 2, 2, 5]), {}),
        'b': ((DIM, ), numpy.array([1, 1, 1, 4], dtype='int16'), {}),
        't': ((PIX, DIM), numpy.arange(8).reshape(2, 4) * 10, {}),
    }
    if axis != 'time':
        variables['time'] = ((DIM, ), time, {})
        # independent of the partitioning
        variables['g'] = ((PIX, ), numpy.arange(2) * 1.5, {})
        variables['h'] = ((PIX, 'grid'), numpy.ones((2, 2)), {})
    chunks = None if CHUNKS[ix] is None else tuple(
        dataset.Dimension(*i) for i in CHUNKS[ix].items())
    zds = build(variables, False, attrs=own, chunks=chunks,
                block_size_limit=limit)
    coll = zcollection.create_collection(axis, zds, HANDLERS[handler],
                                         env.path('coll'), filesystem=env.fs)
    same_metadata(zds.metadata(), coll.metadata, f'{what}, created')
    other = reopen(env, coll, what)
    check(list(coll.partitions()) == [] and coll.load() is None,
          f'{what}: not empty')
    check(other.axis == axis and tuple(other.partitioning.variables) == tuple(
        HANDLERS[handler].variables), f'{what}: variables of the partitioning')
    for row in ((0, 0), (3, 0)):
        # the records have the same place for the two
        one = [i for i, _ in coll.partitioning.split_dataset(
            zds.isel({DIM: slice(row[0], row[0] + 1)}), DIM)]
        two = [i for i, _ in other.partitioning.split_dataset(
            zds.isel({DIM: slice(row[0], row[0] + 1)}), DIM)]
        check(one == two, f'{what}: partitions {two} instead of {one}')
    inserted = list(other.insert(zds))
    check(sorted(inserted) == list(kit.open_coll(env).partitions()),
          f'{what}: partitions {inserted}')
    expected = {name: PLAIN.get(name, value) for name, value in ATTRS[attrs]}
    key = other.partitioning.parse(inserted[0][len(env.path('coll')) + 1:])
    for selected, how in itertools.product((None, (axis, ), ('v', )),
                                           ('all', 'filters', 'indexer')):
        kwargs = {}
        size = 4
        if how == 'filters':
            size = 3
            kwargs['filters'] = lambda keys: keys == dict(key)
        elif how == 'indexer':
            size = 2
            kwargs['indexer'] = [(key, slice(0, 2))]
        got = kit.open_coll(env, mode='r').load(delayed=False,
                                                selected_variables=selected,
                                                **kwargs)
        names = set(variables if selected is None else selected)
        check(set(got.variables) == names, f'{what}: {sorted(got.variables)}')
        check({i.name: i.value for i in got.attrs} == expected,
              f'{what}: attributes of the dataset {got.attrs}')
        for name, var in got.variables.items():
            wanted = expected if name in (axis, 'v') else {}
            check({i.name: i.value for i in var.attrs} == wanted,
                  f'{what}: attributes of {name}: {var.attrs}')
            check(tuple(var.dimensions) == variables[name][0],
                  f'{what}: dimensions of {name}')
            values = variables[name][1]
            if name not in ('g', 'h'):
                values = values[:, :size] if name == 't' else values[:size]
            kit.same({name: values}, {name: var.values},
                     f'{what}, {how}')
    verify_chunks(env, variables, CHUNKS[ix] or {}, limit, what)
    # A merged partition, an updated one, an added variable and a replaced
    # partition are stored in the same way.
    other.insert(zds.isel({DIM: slice(1, 2)}),
                 merge_callable=merging.merge_time_series)
    verify_chunks(env, variables, CHUNKS[ix] or {}, limit, f'{what}, merged')
    other.update(lambda item: {'v': item['v'].values}, variables=('v', ))
    verify_chunks(env, variables, CHUNKS[ix] or {}, limit, f'{what}, updated')
    kit.same({k: v[1] for k, v in variables.items()},
             kit.values_of(kit.open_coll(env).load(delayed=False)), what)
    kit.open_coll(env).insert(zds)
    verify_chunks(env, variables, CHUNKS[ix] or {}, limit, f'{what}, replaced')
    new = zmeta.Variable('w', numpy.dtype('float64'), dimensions=(DIM, PIX),
                         fill_value=-1.0, compressor=numcodecs.Zlib(2),
                         filters=(numcodecs.Shuffle(8), ),
                         attrs=(dataset.Attribute('units', 's'), ))
    source = other.metadata.get_config()
    other.add_variable(new)
    full = {**variables, 'w': ((DIM, PIX), None, {})}
    verify_chunks(env, full, CHUNKS[ix] or {}, limit, f'{what}, added')
    after = reopen(env, other, f'{what}, added')
    check(after.metadata.variables['w'].get_config() == new.get_config(),
          f'{what}: added as {after.metadata.variables["w"].get_config()}')
    for arrays in stored_arrays(env, env.path('coll')).values():
        if 'g' in arrays:
            continue
        check(arrays['w']['compressor'] == new.compressor.get_config()
              and arrays['w']['filters'] == [new.filters[0].get_config()]
              and arrays['w']['fill_value'] == -1.0,
              f'{what}: stored as {arrays["w"]}')
    for kwargs in ({}, dict(indexer=[(key, slice(0, 1))])):
        got = kit.open_coll(env, mode='r').load(delayed=False, **kwargs)
        check([i.get_config() for i in got['w'].attrs] == [('units', 's')],
              f'{what}: attributes of the variable added: {got["w"].attrs}')
        check(got['w'].values.mask.all(), f'{what}: values of the added')
    other.drop_variable('w')
    turned = zmeta.Variable('w', numpy.dtype('int8'), dimensions=(PIX, DIM),
                            fill_value=7)
    other.add_variable(turned)
    full['w'] = ((PIX, DIM), None, {})
    verify_chunks(env, full, CHUNKS[ix] or {}, limit, f'{what}, transposed')
    got = kit.open_coll(env).load(delayed=False)['w']
    check(tuple(got.dimensions) == (PIX, DIM) and got.shape == (2, 4)
          and got.values.mask.all(), f'{what}: the transposed is {got}')
    other.drop_variable('w')
    check(reopen(env, other, f'{what}, removed').metadata.get_config()
          == source, f'{what}: the schema is not what it was')


def verify_chunks(env, variables, sizes, limit, what):
    for part, arrays in stored_arrays(env, env.path('coll')).items():
        for name, meta in arrays.items():
            dims = variables[name][0]
            where = f'{what}: chunks {meta["chunks"]} of {name} in {part}'
            got = meta['chunks']
            for d, n, size in zip(dims, meta['shape'], got):
                if sizes.get(d) != 'auto':
                    wanted = min(n, sizes.get(d, n))
                    # (a single chunk may exceed the array)
                    check(min(size, n) == wanted,
                          f'{where} instead of {wanted}')
            if 'auto' not in (sizes.get(d) for d in dims):
                continue
            if limit is not None:
                item = numpy.dtype(meta['dtype']).itemsize
                total = item * int(numpy.prod(got))
                check(total <= limit, f'{where}: {total} bytes, more than the '
                      f'limit {limit}')
            else:
                check(all(size == n for d, n, size in zip(
                    dims, meta['shape'], got) if sizes.get(d) == 'auto'),
                      f'{where} without need')


# -- the rest ------------------------------------------------------------------------------
def run_other(scenario, ctx):
    del ctx
    _, kind, fs = scenario
    env = Env(fs)
    layout = Layout('date:D')
    rows = [(0, 0, 1), (1, 0, 1)]
    zds = kit.make_ds(kit.arrays_for(layout, rows))
    path = env.path('coll')
    if kind == 'axis':
        refused(env, lambda: zcollection.create_collection(
            'unknown', zds, layout.handler, path, filesystem=env.fs), kind)
    elif kind == 'key':
        refused(env, lambda: zcollection.create_collection(
            'time', zds, partitioning.Sequence(('unknown', )), path,
            filesystem=env.fs), kind)
    elif kind == 'attribute':
        bad = kit.make_ds(kit.arrays_for(layout, rows),
                          attrs=(dataset.Attribute('bad', object()), ))
        refused(env, lambda: zcollection.create_collection(
            'time', bad, layout.handler, path, filesystem=env.fs), kind,
                (TypeError, ValueError))
        # and it can be created
        zcollection.create_collection('time', zds, layout.handler, path,
                                      filesystem=env.fs)
    elif kind == 'exists':
        kit.create(env, layout, zds).insert(zds)
        smaller = kit.make_ds({'time': kit.arrays_for(layout, rows)['time']})
        refused(env, lambda: zcollection.create_collection(
            'time', smaller, partitioning.Date(('time', ), 'Y'), path,
            filesystem=env.fs), kind)
        kit.same(kit.expected_values(kit.arrays_for(layout, rows)),
                 kit.values_of(kit.open_coll(env).load(delayed=False)), kind)
    else:
        arrays = kit.arrays_for(layout, rows)
        xds = xarray.Dataset(
            {
                'time': ((DIM, ), arrays['time'].astype('datetime64[ns]')),
                'v': ((DIM, PIX), arrays['v2'], {'units': 'm'}),
            },
            attrs={'title': 'from xarray'})
        xds['v'].encoding['_FillValue'] = numpy.int32(kit.FILL_I)
        xds['v'].encoding['compressor'] = numcodecs.Zlib(3)
        coll = zcollection.create_collection('time', xds, layout.handler,
                                             path, filesystem=env.fs)
        coll = reopen(env, coll, kind)
        coll.insert(xds)
        got = kit.open_coll(env).load(delayed=False)
        check(kit.canon_array(got['v'].values) == kit.canon_array(
            numpy.ma.masked_equal(arrays['v2'], kit.FILL_I)),
              f'xarray: {got["v"].values}')
        check((got['time'].values == arrays['time']).all(), 'xarray: times')
        check(got['v'].compressor == numcodecs.Zlib(3)
              and got['v'].fill_value == kit.FILL_I, 'xarray: encoding')
        check([i.get_config() for i in got['v'].attrs] == [('units', 'm')]
              and [i.get_config()
                   for i in got.attrs] == [('title', 'from xarray')],
              'xarray: attributes')


def refused(env, func, what, errors=(ValueError, )):
    tree = env.tree()
    dirs = env.dirs()
    try:
        func()
    except errors:
        check(env.tree() == tree and env.dirs() == dirs,
              f'{what}: refused but the files have changed: {env.dirs()}')
        return
    check(False, f'{what}: accepted')
