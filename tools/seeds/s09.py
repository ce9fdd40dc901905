ID = 'lock-timeout'
PROPERTY = 'C23'
NEEDS = '''a process that stays inside the lock for more than five seconds while
another one waits for it'''
BREAKS = '''the process that waits gives up and enters although the lock is held
by another process'''
EDITS = [('zcollection/sync.py', '''        return self.lock.acquire()
''', '''        return self.lock.acquire(timeout=5)
''')]
DEMO = '''
import subprocess
import time

CHILD = """
import sys, time
from zcollection import sync
with sync.ProcessSync(sys.argv[1]):
    print('inside', flush=True)
    time.sleep(12)
print('left', flush=True)
"""


def main(root):
    path = str(pathlib.Path(root) / 'lock')
    with subprocess.Popen([sys.executable, '-c', CHILD, path], text=True,
                          stdout=subprocess.PIPE) as child:
        expect(child.stdout.readline() == 'inside\\n', 'child')
        begin = time.time()
        with sync.ProcessSync(path):
            waited = time.time() - begin
            child.poll()
        child.wait()
    expect(waited > 9, f'entered after {waited} seconds')
'''
