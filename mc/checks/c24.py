"""C24 - optional packages are needed only by the features that use them.

For every subset of the optional packages that is missing, and every way a package can be missing (not installed, its import
fails with ImportError, or with SystemError), a fresh process imports the package and performs all features in several orders.
Features that do not need a missing package give the result they give with everything installed, the others fail with an
ImportError that names a package to install."""

import itertools
import json
import os
import resource
import subprocess
import sys

from mc import core
from mc.core import Result, require

BOUNDS = {
    'quick': 'all 8 subsets of {pymc, pyro, torch} missing, 3 ways of missing, 11 features in 2 orders, each followed by the first again',
    'thorough': 'all 8 subsets of {pymc, pyro, torch} missing, 3 ways of missing, 11 features in all 11 rotations and their reversals',
}
ASSUMPTIONS = ['PyMC does not need Torch or Pyro, Pyro needs Torch']
CHUNK = 1
PACKAGES = ('pymc', 'pyro', 'torch')
PYPI = {'pymc': 'pymc', 'pyro': 'pyro-ppl', 'torch': 'torch'}
OPS = ['simulate', 'pymc-dist', 'pyro-var', 'sample', 'pymc-layers', 'pyro-model', 'cook', 'pymc-var', 'pyro-dist', 'pymc-model', 'pyro-layers']
NEEDS = {'pymc': {'pymc'}, 'pyro': {'pyro', 'torch'}}
_FULL = {}


def cases(tier):
    for n in range(4):
        for missing in itertools.combinations(PACKAGES, n):
            for how in ('absent', 'import', 'system') if missing else ('absent',):
                for rot in (0, 6) if tier == 'quick' else range(len(OPS)):
                    for rev in (rot == 6,) if tier == 'quick' else (False, True):
                        yield {'missing': list(missing), 'how': how, 'rot': rot, 'rev': rev}


def setup():
    # What the features that need nothing give, in a process where nothing is missing is enumerated as the first case as well
    _FULL.update((op, detail) for op, state, detail in execute([], 'absent', ['simulate', 'sample', 'cook']) if state == 'ok')


def _no_limit():
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def execute(missing, how, ops):
    job = json.dumps({'missing': missing, 'how': how, 'ops': ops})
    env = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'PYTENSOR_FLAGS': 'cxx=,compiledir_format=mc_%(python_version)s'}
    out = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mc.optional', job], cwd=core.VERIF, env=env, capture_output=True, text=True, timeout=110, preexec_fn=_no_limit)
    require('\nRESULT' in out.stdout, 'without {} ({}) the package cannot be used: {}', missing, how, out.stderr[-1500:].replace('{', '(').replace('}', ')'))
    return json.loads(out.stdout.split('\nRESULT')[-1])


def run(case):
    res = Result()
    ops = OPS[case['rot'] :] + OPS[: case['rot']]
    if case['rev']:
        ops = ops[::-1]
    ops = ops + ops[:1]
    missing = set(case['missing'])
    for op, state, detail in execute(case['missing'], case['how'], ops):
        lacking = NEEDS.get(op.split('-')[0], set()) & missing
        if lacking:
            require(state in ('ImportError', 'ModuleNotFoundError'), '{} without {} ({}) ends with {} {}', op, sorted(missing), case['how'], state, detail[:300])
            # Pyro cannot be loaded without Torch, thus either of them may be the one that is named
            named = [p for p in NEEDS[op.split('-')[0]] if PYPI[p] in detail]
            require(named and 'None' not in detail, '{} without {}: the error does not say which package to install: {}', op, sorted(missing), detail[:300])
        else:
            require(state == 'ok', '{} without {} ({}) fails with {}: {}', op, sorted(missing), case['how'], state, detail[:500])
            if op in _FULL:
                require(detail == _FULL[op], '{} without {} gives {} instead of {}', op, sorted(missing), detail[:300], _FULL[op][:300])
        res.step()
        res.outcome(op, state, detail)
    res.trace()
    res.state(str(case))
    return res
