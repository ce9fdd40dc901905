ID = 'add-variable-filters'
PROPERTY = 'C08'
NEEDS = '''a variable with filters added to a collection that already holds
partitions'''
BREAKS = '''the existing partitions store the new variable without the filters
declared by the schema'''
EDITS = [('zcollection/storage.py', '''        store=store,
        filters=variable.filters)''', '''        store=store)''')]
DEMO = '''
import numcodecs
import zarr


def main(root):
    zds = make(days(0, 1))
    coll = create(root, zds)
    coll.insert(zds)
    coll.add_variable(meta.Variable(
        'b', numpy.dtype('int64'), dimensions=('num', ), fill_value=0,
        filters=(numcodecs.Delta('<i8'), )))
    for path in coll.partitions():
        array = zarr.open(path, mode='r')['b']
        expect(array.filters and array.filters[0].codec_id == 'delta',
               array.info)
'''
