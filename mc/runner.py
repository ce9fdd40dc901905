"""Driver of the checks: sharding, counting, violations, evidence.

A check is a module of ``mc.checks`` which defines

``PROPERTY``            the identifier,
``LEVEL``/``ASSUMPTIONS``/``RULE``  texts copied to the evidence,
``scenarios(tier)``     the complete, deterministic list of scenarios of the
                        bounded space (JSON-able tuples),
``run(scenario, ctx)``  executes one scenario on the real code and raises
                        ``Violation`` when the property does not hold,
``VALIDATE``            (optional) stride: every VALIDATE-th scenario is also
                        run with the real dask.distributed pool.

Any exception escaping ``run`` is a violation too: every operation of a
scenario is one that the property says must succeed, unless the scenario says
otherwise.
"""
from __future__ import annotations

import argparse
import collections
import faulthandler
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import pathlib
import signal
import subprocess
import sys
import time
import traceback
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('ZC_REPO', '/repo'))


class Violation(Exception):
    """The property does not hold on a scenario.

    ``key`` identifies the failing input/history (known findings match it).
    """

    def __init__(self, message: str, key: str | None = None) -> None:
        super().__init__(message)
        self.key = key


class Hang(Exception):
    pass


class Context:
    """Counters filled while exploring."""

    def __init__(self) -> None:
        self.states = 0
        self.transitions = 0
        self.evaluations = 0
        self.outcomes: collections.Counter = collections.Counter()
        self.distinct: set = set()
        self.real = False
        self.tier = 'quick'
        self.known: dict[str, str] = {}
        self.known_seen: dict[str, str] = {}

    def state(self, digest) -> bool:
        """Register a state; True when it is new."""
        self.states += 1
        if digest in self.distinct:
            return False
        self.distinct.add(digest)
        return True

    def step(self, count: int = 1) -> None:
        self.transitions += count

    def outcome(self, label: str) -> None:
        self.outcomes[label] += 1
        self.evaluations += 1

    def finding(self, key: str, message: str) -> None:
        """A failure: reported unless it is a listed finding."""
        if key in self.known:
            self.known_seen[key] = message
            self.outcomes['known-finding'] += 1
            return
        raise Violation(message, key)


def load_known(prop: str) -> dict[str, str]:
    path = VERIF / 'known_findings.json'
    if not path.exists():
        return {}
    data = json.loads(path.read_text())
    return {
        item['key']: item['what']
        for item in data.get('findings', []) if item['property'] == prop
    }


def import_subject(real: bool) -> None:
    """Import zcollection from the repository under test."""
    sys.path.insert(0, str(REPO))
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    if not (REPO / 'zcollection' / 'version.py').exists():
        import types
        stub = types.ModuleType('zcollection.version')
        stub.__dict__.update(__version__='0', version='0',
                             __version_tuple__=(0, ), version_tuple=(0, ))
        stub.__getattr__ = lambda name: '0'  # type: ignore
        sys.modules['zcollection.version'] = stub
    import dask
    dask.config.set({
        'distributed.worker.daemon': False,
        'distributed.admin.low-level-log-length': 10,
        'distributed.diagnostics.nvml': False,
    })
    if not real:
        from . import sim
        sim.install()
    import zcollection
    got = pathlib.Path(zcollection.__file__).resolve()
    if REPO.resolve() not in got.parents:
        raise RuntimeError(f'zcollection imported from {got}')


_REAL_CLIENT = None


def start_real_cluster() -> None:
    global _REAL_CLIENT
    import dask.distributed
    cluster = dask.distributed.LocalCluster(n_workers=1,
                                            threads_per_worker=2,
                                            processes=False,
                                            dashboard_address=None,
                                            protocol='inproc://')
    _REAL_CLIENT = dask.distributed.Client(cluster)


def _alarm(signum, frame):
    raise Hang('scenario exceeded its time limit')


_MODULE = None
_SCENARIOS: list = []
_TIER = 'quick'
_REAL = False
_KNOWN: dict[str, str] = {}
_LIMIT = 240


def _worker_init() -> None:
    time.sleep = _no_sleep
    signal.signal(signal.SIGALRM, _alarm)
    faulthandler.enable()


_real_sleep = time.sleep


def _no_sleep(seconds=0):
    """Time does not pass in the model."""
    _real_sleep(0)


def _chunk(indices):
    ctx = Context()
    ctx.tier, ctx.real, ctx.known = _TIER, _REAL, _KNOWN
    failures = []
    from . import sim
    for ix in indices:
        scenario = _SCENARIOS[ix]
        signal.alarm(_LIMIT)
        try:
            _MODULE.run(scenario, ctx)
        except Violation as exc:
            if exc.key in _KNOWN:
                ctx.known_seen[exc.key] = str(exc)
                continue
            failures.append((ix, str(exc), traceback.format_exc(), exc.key))
        except sim.SimUnsupported:
            break
        except KeyboardInterrupt:
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            failures.append(
                (ix, f'unexpected {type(exc).__name__}: {exc}'[:2000],
                 traceback.format_exc(), None))
        finally:
            signal.alarm(0)
        if failures:
            break
        if sim.UNSUPPORTED:
            break
    return {
        'failures': failures,
        'states': ctx.states,
        'transitions': ctx.transitions,
        'evaluations': ctx.evaluations,
        'outcomes': ctx.outcomes,
        'distinct': ctx.distinct,
        'known': ctx.known_seen,
        'unsupported': list(sim.UNSUPPORTED),
        'done': len(indices),
    }


class _Workers:
    """Forked workers, each with a pipe of its own (nothing is shared between
    them, so that they can be killed at any time)."""

    def __init__(self, jobs: int) -> None:
        self.mp = multiprocessing.get_context('fork')
        self.conns: dict = {}
        for _ in range(jobs):
            self._start()

    def _start(self):
        ours, theirs = self.mp.Pipe()
        # the forked process must not keep the ends of the others
        others = list(self.conns) + [ours]
        proc = self.mp.Process(target=self._serve, args=(theirs, others),
                               daemon=True)
        proc.start()
        theirs.close()
        self.conns[ours] = proc
        return ours

    @staticmethod
    def _serve(conn, others) -> None:
        for item in others:
            item.close()
        _worker_init()
        try:
            while True:
                item = conn.recv()
                if item is None:
                    break
                conn.send(_chunk(item))
        except (EOFError, BrokenPipeError, KeyboardInterrupt):
            pass
        os._exit(0)

    def run(self, chunks):
        """The results of the chunks, as they come."""
        todo = [(item, 0) for item in reversed(chunks)]
        busy: dict = {}
        for conn in list(self.conns):
            if todo:
                busy[conn] = todo.pop()
                conn.send(busy[conn][0])
        while busy:
            for conn in multiprocessing.connection.wait(list(busy)):
                item, tries = busy.pop(conn)
                try:
                    res = conn.recv()
                except (EOFError, OSError):
                    # the process died: once more in another one
                    self.conns.pop(conn).join(5)
                    conn.close()
                    conn = self._start()
                    if tries:
                        yield {
                            'failures': [(item[0], 'the process died', '',
                                          None)],
                            'states': 0, 'transitions': 0, 'evaluations': 0,
                            'outcomes': {}, 'distinct': set(), 'known': {},
                            'unsupported': [], 'done': 0}
                    else:
                        todo.append((item, 1))
                else:
                    yield res
                if todo:
                    busy[conn] = todo.pop()
                    conn.send(busy[conn][0])

    def stop(self) -> None:
        for conn, proc in self.conns.items():
            proc.kill()
            conn.close()
        for proc in self.conns.values():
            proc.join(10)
        self.conns = {}


def explore(indices, jobs: int, chunk: int):
    """Run the scenarios over forked workers; stop at the first failure."""
    total = Context()
    failures: list = []
    unsupported: list = []
    done = 0
    chunks = [indices[i:i + chunk] for i in range(0, len(indices), chunk)]
    if _REAL or jobs == 1:
        _worker_init() if not _REAL else signal.signal(
            signal.SIGALRM, _alarm)
        results = map(_chunk, chunks)
        pool = None
    else:
        pool = _Workers(min(jobs, len(chunks)))
        results = pool.run(chunks)
    try:
        for res in results:
            total.states += res['states']
            total.transitions += res['transitions']
            total.evaluations += res['evaluations']
            total.outcomes.update(res['outcomes'])
            total.distinct |= res['distinct']
            total.known_seen.update(res['known'])
            done += res['done']
            failures.extend(res['failures'])
            unsupported.extend(res['unsupported'])
            if failures or unsupported:
                break
    finally:
        if pool is not None:
            pool.stop()
    failures.sort(key=lambda item: item[0])
    return total, failures, unsupported, done


def main(argv=None) -> int:
    global _MODULE, _SCENARIOS, _TIER, _REAL, _KNOWN, _LIMIT
    from . import env
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=None)
    parser.add_argument('--thorough', action='store_true')
    parser.add_argument('--real', action='store_true',
                        help='use a real dask.distributed pool')
    parser.add_argument('--stride', type=int, default=1)
    parser.add_argument('--replay')
    parser.add_argument('--only', type=int, default=None)
    parser.add_argument('--jobs', type=int, default=0)
    parser.add_argument('--json', action='store_true')
    opts = parser.parse_args(argv)
    started = time.time()
    _TIER = 'thorough' if opts.thorough else (
        opts.tier or os.environ.get('VERIF_TIER') or 'quick')
    if _TIER not in ('quick', 'thorough'):
        _TIER = 'quick'
    _REAL = opts.real
    prop = opts.property
    _LIMIT = 240 if _TIER == 'quick' else 1800
    jobs = opts.jobs or max(1, min(8, os.cpu_count() or 1))

    name = next(p.stem for p in (VERIF / 'mc' / 'checks').glob('*.py')
                if p.stem.lower().startswith(prop.lower() + '_'))
    module_name = 'mc.checks.' + name

    validation = None
    if not _REAL and not opts.replay and opts.only is None:
        # The subprocess which replays part of the space on the real pool
        # runs beside the exploration.
        stride = _validate_stride(name, _TIER)
        if stride:
            env.make_scratch()
            validation = subprocess.Popen(
                [sys.executable, '-m', 'mc.runner', prop, '--tier', _TIER,
                 '--real', '--stride', str(stride), '--json'],
                cwd=str(VERIF), stdout=subprocess.PIPE,
                env={**os.environ, 'ZCMC_BASE': env.SCRATCH[0]},
                stderr=subprocess.PIPE)
    replay_path = ''
    try:
        try:
            import_subject(_REAL)
            _MODULE = importlib.import_module(module_name)
        except Exception:  # the subject cannot even be imported
            traceback.print_exc()
            return 3
        _KNOWN = load_known(prop)
        scenarios = list(_MODULE.scenarios(_TIER))
        if opts.replay:
            data = json.loads(pathlib.Path(opts.replay).read_text())
            scenarios = [_tuplify(data['scenario'])]
        _SCENARIOS = scenarios
        indices = list(range(len(scenarios)))
        if _REAL:
            start_real_cluster()
            only = getattr(_MODULE, 'real_ok', None)
            if only is not None:
                indices = [i for i in indices if only(scenarios[i])]
        indices = indices[::opts.stride]
        if opts.only is not None:
            indices = [opts.only]
        if hasattr(_MODULE, 'setup'):
            _MODULE.setup(_TIER)
        chunk = getattr(_MODULE, 'CHUNK', None) or max(
            1, min(64, len(indices) // (jobs * 8) or 1))
        if not env.SCRATCH:
            env.make_scratch()
        total, failures, unsupported, done = explore(indices, jobs, chunk)
    except Exception:
        if validation is not None:
            validation.kill()
        env.cleanup()
        raise

    if opts.json:  # the real-pool side: report to the parent
        env.cleanup()
        print(json.dumps({
            'failures': failures[:3],
            'done': done,
            'transitions': total.transitions,
        }))
        sys.stdout.flush()
        os._exit(0)

    validated = 0
    real_failures: list = []
    if validation is not None and failures:
        validation.kill()
        validation.wait()
    elif validation is not None:
        try:
            out, err = validation.communicate(
                timeout=120 if _TIER == 'quick' else 3600)
            data = json.loads(out.decode().strip().splitlines()[-1])
            validated = data['done']
            real_failures = data['failures']
        except Exception as exc:  # no answer from the real pool: said so
            validation.kill()
            print(f'no answer from the real pool ({type(exc).__name__})')
    env.cleanup()
    if unsupported and not failures:
        print('simulation lacks', sorted(set(unsupported)),
              '- repeating on the real pool')
        stride = max(1, len(scenarios) // (400 if _TIER == 'quick' else 4000))
        os.execv(sys.executable, [
            sys.executable, '-m', 'mc.runner', prop, '--tier', _TIER,
            '--real', '--stride', str(stride)
        ])

    failures.extend(tuple(item) for item in real_failures)
    for key, message in sorted(total.known_seen.items()):
        print(f'KNOWN-FINDING: property={prop} {_KNOWN[key]}')
    for ix, message, tb, key in failures[:3]:
        folder = VERIF / 'replays'
        folder.mkdir(exist_ok=True)
        replay_path = str(folder / f'{prop}-{ix}.json')
        pathlib.Path(replay_path).write_text(
            json.dumps({
                'property': prop,
                'scenario': scenarios[ix],
                'message': message,
                'key': key,
                'traceback': tb,
                'how': f'/verif/run.sh {prop} --replay {replay_path}',
            }, indent=1, default=str))
        print(message[:3000])
        print(tb[-2500:])
        print(f'VIOLATION property={prop} replay={replay_path}')
    wall = time.time() - started
    samples = [_short(scenarios[i]) for i in _spread(len(scenarios), 5)]
    if _MODULE.LEVEL == 'model_checking':
        counts = {
            'states': len(total.distinct),
            'transitions': total.transitions,
            'traces_validated_against_impl': done + validated,
            'oracle_evaluations': total.evaluations,
        }
    else:
        counts = {
            'evaluations': total.evaluations,
            'distinct_nontrivial': len(total.distinct),
            'transitions': total.transitions,
        }
    evidence = {
        'property': prop,
        'tier': _TIER,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': _MODULE.LEVEL,
        'coverage': {
            **counts,
            'scenarios_in_bounds': len(scenarios),
            'real_pool_scenarios': validated,
            'rule': getattr(_MODULE, 'RULE', ''),
            'outcomes': dict(total.outcomes.most_common(40)),
            'samples': samples,
            'exhaustive': not failures and not unsupported,
            'pool': 'real' if _REAL else 'simulated',
        },
        'assumptions': list(getattr(_MODULE, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(failures),
    }
    if opts.only is None and not opts.replay:
        (VERIF / 'evidence').mkdir(exist_ok=True)
        (VERIF / 'evidence' / f'{prop}.json').write_text(
            json.dumps(evidence, indent=1, default=str))
    print(f'{prop} tier={_TIER} scenarios={done} states={total.states} '
          f'distinct={len(total.distinct)} transitions={total.transitions} '
          f'real-pool={validated} wall={wall:.1f}s '
          f'violations={len(failures)}')
    print('outcomes', dict(total.outcomes.most_common(12)))
    sys.stdout.flush()
    code = 1 if failures else 0
    if _REAL:
        os._exit(code)
    return code


def _validate_stride(name: str, tier: str) -> int:
    """Read VALIDATE without importing the check (it imports the subject)."""
    import re
    text = (VERIF / 'mc' / 'checks' / f'{name}.py').read_text()
    match = re.search(r'^VALIDATE\s*=\s*(\d+)', text, re.M)
    return int(match.group(1)) if match else 0


def _tuplify(value):
    if isinstance(value, list):
        return tuple(_tuplify(v) for v in value)
    return value


def _short(value):
    text = repr(value)
    return text if len(text) < 300 else text[:297] + '...'


def _spread(size: int, count: int):
    if size <= count:
        return range(size)
    return [i * (size - 1) // (count - 1) for i in range(count)]


if __name__ == '__main__':
    # Run as the module mc.runner even when started with -m.
    from mc import runner as _self
    sys.exit(_self.main())
