"""Demonstration of a planted bug: exits 0 when the behaviour is right."""
import contextlib
import datetime
import pathlib
import shutil
import sys
import tempfile
import traceback
import warnings

import dask
import dask.distributed
import fsspec
import numpy

import zcollection
import zcollection.partitioning
from zcollection import dataset, merging, meta, storage, sync

warnings.simplefilter('ignore')
D = numpy.datetime64


def make(times, delayed=False, extra=None, chunk=None, **kwargs):
    """A dataset: time, a = index of the record."""
    times = numpy.array(times, dtype='datetime64[us]')
    cls = dataset.DelayedArray if delayed else dataset.Array
    values = {'time': (times, ('num', ), None),
              'a': (numpy.arange(1, len(times) + 1, dtype='float64'),
                    ('num', ), None)}
    values.update(extra or {})
    return dataset.Dataset([
        cls(name, numpy.asanyarray(item[0]), item[1], fill_value=item[2])
        for name, item in values.items()
    ], delayed=delayed, **kwargs)


def create(root, zds, handler=None, name='coll', **kwargs):
    handler = handler or zcollection.partitioning.Date(('time', ), 'D')
    return zcollection.create_collection('time', zds, handler,
                                         str(pathlib.Path(root) / name),
                                         **kwargs)


def days(*items):
    return [D('2000-01-01') + numpy.timedelta64(i, 'D') for i in items]


def expect(cond, text):
    if not cond:
        raise AssertionError(text)


def run(main):
    root = tempfile.mkdtemp(prefix='demo')
    code = 1
    try:
        with dask.config.set({'distributed.worker.daemon': True}), \
                dask.distributed.LocalCluster(
                    n_workers=1, threads_per_worker=2, processes=False,
                    dashboard_address=None) as cluster, \
                dask.distributed.Client(cluster):
            try:
                main(root)
                code = 0
                print('ok')
            except Exception:
                traceback.print_exc()
    finally:
        shutil.rmtree(root, ignore_errors=True)
    sys.exit(code)
