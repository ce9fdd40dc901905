ID = 'load-completion-order'
PROPERTY = 'C01'
NEEDS = '''several partitions read at the same time, the first one being read
more slowly than another'''
BREAKS = '''the partitions are concatenated in the order in which the tasks
complete, not in the order of the partitions'''
EDITS = [('zcollection/collection/abc.py', '''            bag: dask.bag.core.Bag = dask.bag.core.from_sequence(
                self.partitions(filters=filters),
                npartitions=dask_utils.dask_workers(client, cores_only=True))
            arrays = bag.map(storage.open_zarr_group,
                             delayed=delayed,
                             fs=self.fs,
                             selected_variables=selected_variables).compute()
''', '''            futures = client.map(storage.open_zarr_group,
                                 selected_partitions,
                                 delayed=delayed,
                                 fs=self.fs,
                                 selected_variables=selected_variables,
                                 pure=False)
            arrays = [
                item.result()
                for item in dask.distributed.as_completed(futures)
            ]
''')]
DEMO = '''
import time


def main(root):
    zds = make(days(0, 1, 2, 3))
    coll = create(root, zds)
    coll.insert(zds)
    function = storage.open_zarr_group

    def slow(dirname, *args, **kwargs):
        if dirname.endswith('day=01'):
            time.sleep(1)
        return function(dirname, *args, **kwargs)

    storage.open_zarr_group = slow
    got = coll.load(delayed=False)['a'].values
    expect(got.tolist() == [1, 2, 3, 4], got)
'''
