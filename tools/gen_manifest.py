"""Writes /verif/MANIFEST.json from the check modules (technique and assurance notes are kept here)."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
SEQ = 'explicit-state model checking: exhaustive bounded exploration of operation histories of the real code against a reference model'
GRID = 'model checking: exhaustive enumeration of bounded configurations and inputs, executed on the real code against a reference model'
THREADS = 'stateless model checking: exhaustive thread interleavings of the real code under a controlled scheduler, preemption bounded'
FAULT = 'explicit-state model checking: exhaustive operation histories with fault injection at every call of user code'
TECH = {
    'C01': SEQ, 'C02': GRID, 'C03': SEQ, 'C04': SEQ, 'C05': SEQ, 'C06': SEQ, 'C07': GRID, 'C08': SEQ, 'C09': SEQ, 'C10': GRID,
    'C11': GRID, 'C12': FAULT, 'C13': THREADS, 'C14': SEQ, 'C15': GRID, 'C16': SEQ, 'C17': SEQ, 'C18': SEQ, 'C19': SEQ,
    'C20': SEQ, 'C21': GRID, 'C22': GRID, 'C23': GRID, 'C24': GRID,
    'C25': GRID, 'C26': GRID,
}
NOTE = (
    'Every case of the bounded space stated in the evidence file is executed on the code imported from /repo and compared with an '
    'independent reference model; nothing is sampled. Values outside of the alphabets are not covered. Trusts Python, numpy, pandas '
    'and the reference model in the check.'
)
EXTRA = {
    'C13': ' Scheduling points are every call of user-supplied equations and distributions and every line of the package executed '
    '(tracing); switches between bytecodes of one line are not explored.',
    'C18': ' Equality in any process is decided over a fixed set of hash seeds and processes.',
    'C19': ' Trusts that PyMC and Pyro describe the distributions they are given correctly; one known finding is listed.',
}

checks = []
for pid, tech in TECH.items():
    if not (ROOT / 'mc' / 'checks' / f'{pid.lower()}.py').exists():
        continue
    checks.append(
        {
            'property': pid,
            'quick_cmd': f'./run.py {pid} --tier quick',
            'thorough_cmd': f'./run.py {pid} --tier thorough',
            'evidence_file': f'evidence/{pid}.json',
            'technique': tech,
            'level': 'model_checking',
            'level_note': NOTE + EXTRA.get(pid, ''),
        }
    )
manifest = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -c "import numpy, pandas" && test -x ./run.py',
    'checks': checks,
    'not_applicable': [],
    'notes': 'No hooks in /repo: the checks import the package from source (byte code caches bypassed) and control it through its public '
    'API only. Optional dependencies are stubbed out at import except for C19. Replay a violation with ./run.py <id> --replay <file>.',
}
(ROOT / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')
