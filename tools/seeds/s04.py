ID = 'merge-gap-equals-tolerance'
PROPERTY = 'C04'
NEEDS = '''a merge with a tolerance, and a gap in the inserted records exactly as
long as the tolerance'''
BREAKS = '''a gap that does not exceed the tolerance is taken for a gap: the
existing records inside it are kept'''
EDITS = [('zcollection/merging/time_series.py',
          'numpy.where(delta > tolerance)[0]',
          'numpy.where(delta >= tolerance)[0]')]
DEMO = '''
def main(root):
    first = make(['2000-01-01T%02d' % i for i in range(10)])
    coll = create(root, first)
    coll.insert(first)
    second = make(['2000-01-01T02', '2000-01-01T03', '2000-01-01T05'])
    coll.insert(second, merge_callable=merging.merge_time_series,
                tolerance=numpy.timedelta64(2, 'h'))
    loaded = coll.load(delayed=False)
    expect(loaded['a'].values.tolist() == [1, 2, 1, 2, 3, 7, 8, 9, 10],
           loaded['a'].values)
'''
