ID = 'insert-unlocked'
PROPERTY = 'C11'
NEEDS = '''two clients that insert at the same time in the same collection with
a shared synchronizer'''
BREAKS = '''the partitions are written without holding the lock'''
EDITS = [('zcollection/collection/__init__.py', '''            storage.execute_transaction(client, self.synchronizer, futures)

        inserted''', '''            storage.execute_transaction(client, sync.NoSync(), futures)

        inserted''')]
DEMO = '''
class Lock(sync.Sync):
    """A file exists while it is held."""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        pathlib.Path(self.path).touch()
        return True

    def __exit__(self, *args):
        pathlib.Path(self.path).unlink(missing_ok=True)

    def is_locked(self):
        return pathlib.Path(self.path).exists()


def main(root):
    zds = make(days(0, 1, 2))
    lock = str(pathlib.Path(root) / 'lock')
    log = str(pathlib.Path(root) / 'log')
    coll = create(root, zds, synchronizer=Lock(lock))
    function = storage.write_zarr_variable

    def write(args, *rest, **kwargs):
        with open(log, 'a', encoding='utf8') as stream:
            stream.write(f'{pathlib.Path(lock).exists()} ')
        return function(args, *rest, **kwargs)

    storage.write_zarr_variable = write
    coll.insert(zds)
    seen = pathlib.Path(log).read_text().split()
    expect(seen == ['True'] * 6, seen)
'''
