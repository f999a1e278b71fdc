"""Explorer core: loads the code under test from source, enumerates the cases of a property completely, runs each one
in a pool of forked workers, and writes the evidence file.

A check module (mc/checks/cNN.py) provides
    LEVEL_NOTE, BOUNDS  - text for the evidence file
    cases(tier)         - the complete, ordered (simplest first) list of JSON descriptors of the bounded space
    run(case)           - executes the real code for one case and compares with the reference model, returns a Result
Every exception escaping from run() is reported as a violation: all the cases are valid uses of the package.
"""

from __future__ import annotations

import hashlib
import importlib
import importlib.abc
import importlib.machinery
import json
import logging
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 120


class _NoCacheLoader(importlib.machinery.SourceFileLoader):
    """Compiles the code under test from its current source, byte code caches are neither read nor written."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, 'exec', dont_inherit=True)


class _RepoFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] != 'gerabaldi':
            return None
        finder = None
        for entry in path or [REPO]:
            finder = importlib.machinery.FileFinder(entry, (_NoCacheLoader, ['.py']))
            spec = finder.find_spec(name)
            if spec is not None:
                return spec
        return None


def load(full: bool = False):
    """Import gerabaldi from REPO. Only checks of the inference export need the (slow to import) optional packages."""
    if 'gerabaldi' in sys.modules:
        return sys.modules['gerabaldi']
    warnings.simplefilter('ignore')
    sys.meta_path.insert(0, _RepoFinder())
    optional = ('pymc', 'pyro', 'torch')
    if not full:
        for mod in optional:
            sys.modules[mod] = None
    try:
        g = importlib.import_module('gerabaldi')
    except ImportError:
        if full:
            raise
        for mod in optional:
            del sys.modules[mod]
        for mod in [m for m in sys.modules if m.split('.')[0] == 'gerabaldi']:
            del sys.modules[mod]
        g = importlib.import_module('gerabaldi')
    assert os.path.realpath(g.__file__).startswith(os.path.realpath(REPO) + os.sep), g.__file__
    importlib.import_module('gerabaldi.exceptions')
    importlib.import_module('gerabaldi.helpers')
    quiet()
    return g


def quiet():
    warnings.simplefilter('ignore')
    import numpy as np

    np.seterr(all='ignore')
    logging.getLogger('gerabaldi').setLevel(100)


class Violation(Exception):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Result:
    """Outcome of one case: the distinct states seen (any hashables), the number of transitions taken, the number of
    complete executions of the implementation compared with the model, and the known findings that were met."""

    __slots__ = ('states', 'transitions', 'traces', 'findings', 'outcomes')

    def __init__(self):
        self.states, self.transitions, self.traces, self.findings, self.outcomes = set(), 0, 0, set(), set()

    def state(self, *key):
        self.states.add(_digest(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *key):
        self.outcomes.add(_digest(key))

    def finding(self, key):
        self.findings.add(key)


def _digest(key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), 'big')


class _Timeout(BaseException):
    pass


def _alarm(*_):
    raise _Timeout()


_MOD = None
_CASES = None


def _run_one(case):
    """Returns (Result or None, violation text or None)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        return _MOD.run(case), None
    except Violation as e:
        return None, str(e)
    except _Timeout:
        return None, f'no answer within {CASE_TIMEOUT} s\n' + ''.join(traceback.format_exc()[-1500:])
    except BaseException as e:
        return None, f'unexpected {type(e).__name__}: {e}\n' + traceback.format_exc()[-3000:]
    finally:
        signal.alarm(0)


def _worker(span):
    states, outcomes, findings = set(), set(), set()
    trans = traces = done = 0
    bad = []
    for i in range(*span):
        res, err = _run_one(_CASES[i])
        if err is not None:
            bad.append((i, err))
            break
        done += 1
        states |= res.states
        outcomes |= res.outcomes
        findings |= res.findings
        trans += res.transitions
        traces += res.traces
    return done, states, outcomes, findings, trans, traces, bad


def _init_worker():
    try:
        soft = resource.getrlimit(resource.RLIMIT_AS)
        with open('/proc/self/statm') as f:
            now = int(f.read().split()[0]) * resource.getpagesize()
        resource.setrlimit(resource.RLIMIT_AS, (now + 3 * 2**30, soft[1]))
    except (OSError, ValueError):
        pass
    sys.stdout = open(os.devnull, 'w')


def main(prop, tier, replay=None):
    global _MOD, _CASES
    start = time.time()
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        known = {k['key']: k for k in json.load(f)['findings'] if k['property'] == prop}
    _MOD = None
    violations = []
    done = trans = traces = 0
    states, outcomes, findings = set(), set(), set()
    total = 0
    samples = []
    try:
        _MOD = importlib.import_module(f'mc.checks.{prop.lower()}')
        load(getattr(_MOD, 'NEEDS_CBI', False))
        if hasattr(_MOD, 'setup'):
            _MOD.setup()
        if replay:
            with open(replay) as f:
                _CASES = [json.load(f)['case']]
        else:
            _CASES = list(_MOD.cases(tier))
            json.dumps(_CASES[:3])
    except Exception as e:
        # The package cannot even be imported or its objects cannot be built
        violations.append((None, f'setup failed, {type(e).__name__}: {e}\n' + traceback.format_exc()[-3000:]))
        _CASES = []
    total = len(_CASES)
    if total and not violations:
        workers = min(int(os.environ.get('VERIF_JOBS', '8')), os.cpu_count() or 1, total)
        chunk = max(1, min(getattr(_MOD, 'CHUNK', 32), total // (workers * 4) or 1))
        spans = [(i, min(i + chunk, total)) for i in range(0, total, chunk)]
        ctx = mp.get_context('fork')
        with ctx.Pool(workers, _init_worker) as pool:
            for d, s, o, k, t, tr, bad in pool.imap(_worker, spans):
                done += d
                states |= s
                outcomes |= o
                findings |= k
                trans += t
                traces += tr
                violations.extend((_CASES[i], err) for i, err in bad)
                # Spans are delivered in order, the first violation is thus the simplest one
                if violations:
                    pool.terminate()
                    break
        for i in sorted({0, total // 3, total // 2, total - 1}):
            samples.append(_CASES[i])
    for key in sorted(findings):
        if key in known:
            print(f"KNOWN-FINDING: property={prop} {known[key]['what']}")
        else:
            violations.append(({'finding': key}, f'unlisted finding {key}'))
    wall = round(time.time() - start, 2)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not replay:
        evidence = {
            'property': prop,
            'tier': tier,
            'seed': seed,
            'level': getattr(_MOD, 'LEVEL', 'model_checking'),
            'coverage': {
                'states': len(states),
                'transitions': trans,
                'traces_validated_against_impl': traces,
                'cases_enumerated': total,
                'cases_completed': done,
                'distinct_outcomes': len(outcomes),
                'samples': samples,
                'exhaustive': bool(total) and done == total and not violations,
                'bounds': getattr(_MOD, 'BOUNDS', {}).get(tier, '') if _MOD else '',
                'known_findings_met': sorted(findings),
            },
            'assumptions': list(getattr(_MOD, 'ASSUMPTIONS', [])) if _MOD else [],
            'wall_s': wall,
            'violations': len(violations),
        }
        with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    if violations:
        case, err = violations[0]
        folder = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, f'{prop}.json')
        if not replay:
            with open(path, 'w') as f:
                json.dump({'property': prop, 'case': case, 'error': err}, f, indent=1)
        print(err)
        print(f'case: {json.dumps(case)}')
        print(f'VIOLATION property={prop} replay={replay or path}')
        return 1
    print(
        f'OK property={prop} tier={tier} cases={done}/{total} states={len(states)} transitions={trans} '
        f'traces={traces} outcomes={len(outcomes)} wall={wall}s'
    )
    return 0
