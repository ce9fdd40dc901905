ID = 'overlap-slice-prefix'
PROPERTY = 'C07'
NEEDS = '''a mapping with an overlap over partitions one name of which is the
beginning of the name of a later neighbour (cycle=1 and cycle=10)'''
BREAKS = '''the slice that designates the records of the partition inside the
overlapping dataset designates those of the neighbour'''
EDITS = [('zcollection/collection/detail.py',
          'if partition == selected_partitions[idx]:',
          'if partition.startswith(selected_partitions[idx]):')]
DEMO = '''
def call(zds, partition_info=None):
    dim, indices = partition_info
    return zds['a'].values[indices].tolist()


def main(root):
    keys = {'cycle': (numpy.array([1, 1, 10, 10, 10]), ('num', ), None)}
    zds = make(days(0, 1, 2, 3, 4), extra=keys)
    handler = zcollection.partitioning.Sequence(('cycle', ))
    coll = create(root, zds, handler)
    coll.insert(zds)
    got = coll.map_overlap(call, depth=1, delayed=False).compute()
    expect([item[1] for item in got] == [[1, 2], [3, 4, 5]], got)
'''
