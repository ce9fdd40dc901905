"""Run checks against small changes of the code (development tool).

  mutants.py FILE [NAME...]   FILE: python, MUTANTS = [(name, props, file, old,
                              new)...]; a file/old/new of lists edits several.
"""
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import time

ROOT = pathlib.Path(__file__).resolve().parent.parent
COPY = pathlib.Path(f'/tmp/s/mut{os.getpid()}')


def main():
    data = runpy.run_path(sys.argv[1])['MUTANTS']
    names = sys.argv[2:]
    shutil.rmtree(COPY, ignore_errors=True)
    shutil.copytree('/repo', COPY, symlinks=True)
    for name, props, file, old, new in data:
        if names and name not in names:
            continue
        target = COPY / 'zcollection' / file
        text = target.read_text()
        if text.count(old) < 1:
            print(f'{name:30s} NOT FOUND', flush=True)
            continue
        target.write_text(text.replace(old, new, 1))
        try:
            for prop in props.split():
                begin = time.time()
                res = subprocess.run(
                    [str(ROOT / 'run.sh'), prop], text=True,
                    capture_output=True, cwd=ROOT,
                    env=dict(os.environ, ZC_REPO=str(COPY)))
                line = next((l for l in res.stdout.splitlines()
                             if 'VIOLATION' in l or 'ERROR' in l), '')
                print(f'{name:30s} {prop} '
                      f'{ {0: "MISSED", 1: "caught"}.get(res.returncode, res.returncode)}'
                      f' {time.time()-begin:.0f}s {line[:100]}'
                      f'{res.stderr[-300:] if res.returncode not in (0, 1) else ""}',
                      flush=True)
        finally:
            target.write_text(text)
    shutil.rmtree(COPY)


main()
