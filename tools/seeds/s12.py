ID = 'indexer-immutable'
PROPERTY = 'C22'
NEEDS = '''variables independent of the partitioning, and a load with an
indexer'''
BREAKS = '''the variables independent of the partitioning are not given when
the load uses an indexer'''
EDITS = [('zcollection/collection/abc.py', '''        if self._immutable:
            array.merge(''', '''        if self._immutable and indexer is None:
            array.merge(''')]
DEMO = '''
def main(root):
    zds = make(days(0, 1, 2),
               extra={'grid': (numpy.array([1.5, 2.5]), ('pix', ), None)})
    coll = create(root, zds)
    coll.insert(zds)
    indexer = [((('year', 2000), ('month', 1), ('day', 2)), slice(0, 1))]
    for kwargs in ({}, {'indexer': indexer}):
        got = coll.load(delayed=False, **kwargs)
        expect('grid' in got.variables, kwargs)
        expect(got['grid'].values.tolist() == [1.5, 2.5], got['grid'])
'''
