ID = 'validate-sample'
PROPERTY = 'C20'
NEEDS = '''a partition of several chunks where a chunk other than the first one
is damaged'''
BREAKS = '''only the first records of the arrays are read, so that damaged
partitions are reported as valid'''
EDITS = [('zcollection/storage.py', '''            data: NDArray = array[...]  # type: ignore
''', '''            data: NDArray = array[:1]  # type: ignore
''')]
DEMO = '''
def main(root):
    hours = [D('2000-01-01T00') + numpy.timedelta64(i, 'h')
             for i in range(6)]
    zds = make(hours + days(1, 2), chunks=(dataset.Dimension('num', 2), ))
    coll = create(root, zds)
    coll.insert(zds)
    first = list(coll.partitions())[0]
    for name in ('a', 'time'):
        for chunk in ('0', '1', '2'):
            broken = pathlib.Path(first) / name / chunk
            content = broken.read_bytes()
            broken.write_bytes(b'x')
            got = coll.validate_partitions()
            broken.write_bytes(content)
            expect(got == [first], (name, chunk, got))
'''
