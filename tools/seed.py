"""Make or test a planted bug (development tool; no check uses it).

  seed.py make SPEC.py      spec: ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO
  seed.py test ID [--check PROP...] [--notests]
"""
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
SEEDED = ROOT / 'seeded'
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore TZ=UTC
exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(*cmd, **kw):
    return subprocess.run(cmd, text=True, capture_output=True, **kw)


def scratch(name):
    path = pathlib.Path('/tmp/s') / name
    shutil.rmtree(path, ignore_errors=True)
    path.parent.mkdir(exist_ok=True)
    shutil.copytree('/repo', path, symlinks=True)
    return path


def make(spec):
    data = runpy.run_path(spec)
    path = scratch(data['ID'])
    for name, old, new in data['EDITS']:
        target = path / name
        text = target.read_text()
        assert text.count(old) == 1, (name, text.count(old), old)
        target.write_text(text.replace(old, new))
    out = SEEDED / data['ID']
    out.mkdir(parents=True, exist_ok=True)
    diff = sh('git', 'diff', cwd=path).stdout
    (out / 'patch.diff').write_text(diff)
    (out / 'demo.py').write_text(
        (ROOT / 'tools' / 'demolib.py').read_text() + '\n\n' +
        data['DEMO'].strip() + '\n\n\nrun(main)\n')
    (out / 'demo.sh').write_text(DEMO_SH)
    (out / 'meta.json').write_text(
        json.dumps(
            {
                'property': data['PROPERTY'],
                'needs': ' '.join(data['NEEDS'].split()),
                'what_it_breaks': ' '.join(data['BREAKS'].split())
            }, indent=1) + '\n')
    shutil.rmtree(path)
    return data['ID']


def demo(name, path):
    env = dict(os.environ, PYTHONPATH=str(path))
    return sh('bash', str(SEEDED / name / 'demo.sh'), cwd=path, env=env)


def test(name, checks=None, tests=True):
    out = SEEDED / name
    res = demo(name, '/repo')
    print(name, 'demo on the unchanged tree:', res.returncode)
    if res.returncode:
        print(res.stdout[-3000:], res.stderr[-3000:])
    path = scratch(name)
    try:
        ap = sh('git', 'apply', str(out / 'patch.diff'), cwd=path)
        assert ap.returncode == 0, ap.stderr
        res = demo(name, path)
        print(name, 'demo with the change:', res.returncode,
              (res.stdout + res.stderr).strip()[-300:])
        env = dict(os.environ, PYTHONPATH=str(path), ZC_REPO=str(path),
                   PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   AWS_EC2_METADATA_DISABLED='true', OMP_NUM_THREADS='1')
        if tests:
            res = sh(PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n',
                     '4', '--timeout=120', '--processes', '--n_workers', '1',
                     '--threads_per_worker', '1',
                     f'--basetemp=/tmp/s/{name}.tmp', cwd=path, env=env)
            print(name, 'tests:', res.stdout.strip().splitlines()[-1])
            for line in res.stdout.splitlines():
                if line.startswith('FAILED'):
                    print('   ', line)
        prop = json.loads((out / 'meta.json').read_text())['property']
        for check in checks or [prop]:
            res = sh('bash', str(ROOT / 'run.sh'), check, cwd=ROOT, env=env)
            lines = [
                i for i in res.stdout.splitlines()
                if not i.startswith('KNOWN')
            ]
            hit = [i for i in lines if i.startswith('VIOLATION')]
            print(name, check, 'exit', res.returncode, hit[:1],
                  (lines or [''])[0][:300])
    finally:
        shutil.rmtree(path, ignore_errors=True)
        shutil.rmtree(f'/tmp/s/{name}.tmp', ignore_errors=True)


if __name__ == '__main__':
    args = sys.argv[1:]
    if args[0] == 'make':
        for item in args[1:]:
            print(make(item))
    else:
        checks = None
        if '--check' in args:
            at = args.index('--check')
            checks = args[at + 1:]
            args = args[:at]
        notests = '--notests' in args
        for item in args[1:]:
            if not item.startswith('--'):
                test(item, checks, not notests)
