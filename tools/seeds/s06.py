ID = 'add-variable-rollback'
PROPERTY = 'C09'
NEEDS = '''the storage reports an error while a variable is being added to the
partitions'''
BREAKS = '''the addition is not cancelled: the variable stays in the schema and
in some of the partitions'''
EDITS = [('zcollection/collection/__init__.py', '''                                       chunks=chunks))
        except Exception:
            self.drop_variable(variable.name)
            raise''', '''                                       chunks=chunks))
        except (ValueError, TypeError):
            self.drop_variable(variable.name)
            raise''')]
DEMO = '''
def main(root):
    zds = make(days(0, 1, 2))
    coll = create(root, zds)
    coll.insert(zds)
    # a file where the array of the second partition should be created
    second = list(coll.partitions())[1]
    blocked = pathlib.Path(second) / 'b'
    blocked.write_text('')
    try:
        coll.add_variable(meta.Variable(
            'b', numpy.dtype('int64'), dimensions=('num', ), fill_value=0))
    except Exception:
        pass
    else:
        raise AssertionError('no error')
    expect('b' not in coll.metadata.variables, 'schema in memory')
    other = zcollection.open_collection(coll.partition_properties.dir)
    expect('b' not in other.metadata.variables, 'stored schema')
'''
