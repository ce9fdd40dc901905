ID = 'view-update-readonly'
PROPERTY = 'C13'
NEEDS = '''a function that returns a variable of the view first and a variable of
the reference next'''
BREAKS = '''only the first variable returned by the function is checked: the
update of a variable of the reference is accepted'''
EDITS = [('zcollection/view/__init__.py', '''                    self.view_ref.metadata, self.metadata, varname),
                func_result))''', '''                    self.view_ref.metadata, self.metadata, varname),
                tuple(func_result)[:1]))''')]
DEMO = '''
def main(root):
    zds = make(days(0, 1, 2))
    coll = create(root, zds)
    coll.insert(zds)
    view = zcollection.create_view(
        str(pathlib.Path(root) / 'view'),
        zcollection.view.ViewReference(coll.partition_properties.dir))
    view.add_variable(meta.Variable('w', numpy.dtype('float64'),
                                    dimensions=('num', ), fill_value=-1.0))
    try:
        view.update(lambda item: {'w': item['a'].values,
                                  'a': item['a'].values * 2})
    except ValueError:
        return
    raise AssertionError('accepted')
'''
