ID = 'list-names'
PROPERTY = 'C03'
NEEDS = '''partitions whose keys do not have the same number of digits'''
BREAKS = '''the partitions are listed in the order of their names, not of their
keys'''
EDITS = [('zcollection/partitioning/abc.py', '''        yield from sorted(list_partitions(fs, path, depth=len(self) - 1),
                          key=self.parse)''', '''        yield from sorted(
            filter(self.parse, list_partitions(fs, path,
                                               depth=len(self) - 1)))''')]
DEMO = '''
def main(root):
    zds = make(days(0, 1, 2, 3),
               extra={'n': (numpy.array([2, 9, 10, 100]), ('num', ), None)})
    coll = create(root, zds, zcollection.partitioning.Sequence(('n', )))
    coll.insert(zds)
    got = [item.split('=')[-1] for item in coll.partitions()]
    expect(got == ['2', '9', '10', '100'], got)
'''
