ID = 'update-fill-zero'
PROPERTY = 'C06'
NEEDS = '''a variable whose fill value is 0 and an update that returns a masked
array for it'''
BREAKS = '''the masked values are not replaced by the fill value: what lies
under the mask is stored as valid data'''
EDITS = [('zcollection/storage.py',
          'numpy.ma.MaskedArray) and store.fill_value is not None:',
          'numpy.ma.MaskedArray) and store.fill_value:')]
DEMO = '''
def call(zds):
    return {'b': numpy.ma.masked_array([7.0, 8.0, 9.0], [0, 1, 0])}


def main(root):
    extra = {'b': (numpy.ones(3), ('num', ), 0.0)}
    zds = make(['2000-01-01T00', '2000-01-01T01', '2000-01-01T02'],
               extra=extra)
    coll = create(root, zds)
    coll.insert(zds)
    coll.update(call, variables=('b', ), delayed=False)
    values = coll.load(delayed=False)['b'].values
    expect(numpy.ma.getmaskarray(values).tolist() == [False, True, False],
           values)
'''
