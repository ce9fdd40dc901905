ID = 'sequence-keys-int32'
PROPERTY = 'C02'
NEEDS = '''a partitioning on a sequence of variables holding values that do not
fit in 32 bits'''
BREAKS = '''the keys are reduced modulo 2**32: records are filed under the key
of another partition, with which they may be mixed'''
EDITS = [('zcollection/partitioning/sequence.py',
          'index, indices = _unique(matrix, is_delayed)  # type: ignore[arg-type]',
          'index, indices = _unique(matrix.astype(numpy.int32), is_delayed)')]
DEMO = '''
def main(root):
    big = 2**33
    keys = {'cycle': (numpy.array([1, 1, big + 1, big + 1, big + 2]),
                      ('num', ), None)}
    zds = make(days(0, 1, 2, 3, 4), extra=keys)
    handler = zcollection.partitioning.Sequence(('cycle', ))
    coll = create(root, zds, handler)
    coll.insert(zds)
    names = list(coll.partitions(relative=True))
    expect(names == ['cycle=1', f'cycle={big + 1}', f'cycle={big + 2}'],
           names)
    loaded = coll.load(delayed=False)
    expect(sorted(loaded['a'].values) == [1, 2, 3, 4, 5], loaded['a'].values)
'''
