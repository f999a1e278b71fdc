"""C09 - environmental variation layers are shared by level and redrawn per step.

All assignment histories (layers defined, removed, type switched) up to a depth are applied to a real EnvVrtnMdl built in
every possible way, then a complete simulation shows the condition that every device saw: measured parameters whose
conditional shift is the condition itself, circuit parameters, sensors, and failure mechanisms that latch the condition of
one particular stress phase. Each value is decoded into its unique batch, chip and device draws."""

import itertools

import numpy as np

from mc import lib
from mc.core import Result, require
from mc.lib import M, g

BOUNDS = {
    'quick': '16 constructions x all assignment histories of length 0-2 over 8 operations, and 4 constructions x length 3, in 2x2-device simulations with 3 stress and 3 measurement steps; 18 shapes x layer subsets x sharing; sequences of 2-4 identical steps',
    'thorough': '16 constructions x all assignment histories of length 0-3 over 8 operations in 2x2-device simulations with 3 stress and 3 measurement steps; 36 shapes x layer subsets x sharing; sequences of 2-6 identical steps',
}
CHUNK = 8
LAYERS = ('dev', 'chp', 'batch')
OPS = ['dev+', 'dev-', 'chp+', 'chp-', 'batch+', 'batch-', 'scaling', 'offset']
ZERO = {'temp': [300, 0, 420.0, 7.5, 0.0, 11], 'v': [0.0, 3, 2.0, -5, 1.5, 0]}
BASES = {'temp': [300, 0.5, 420.0, 7.5, 300.0, 11], 'v': [2.0, 3, 2.0, -5, 1.5, 0.25]}


def cases(tier):
    starts = [list(s) for s in itertools.product((0, 1), (0, 1), (0, 1), ('offset', 'scaling'))]
    for n in range(3 if tier == 'quick' else 4):
        for start in starts:
            for hist in itertools.product(range(len(OPS)), repeat=n):
                yield {'start': start, 'hist': list(hist), 'dims': [2, 2, 1 + len(hist) % 2], 'share': 0}
    if tier == 'quick':
        for start in ([0, 0, 0, 'offset'], [1, 1, 1, 'offset'], [0, 0, 0, 'scaling'], [1, 1, 1, 'scaling']):
            for hist in itertools.product(range(len(OPS)), repeat=3):
                yield {'start': start, 'hist': list(hist), 'dims': [1, 2, 2], 'share': 0}
    top = (3, 3, 2) if tier == 'quick' else (4, 3, 3)
    for dims in itertools.product(*(range(1, t + 1) for t in top)):
        for sub in itertools.product((0, 1), repeat=3):
            for kind in ('offset', 'scaling'):
                for share in (0, 1, 2):
                    if any(sub) or share == 0:
                        yield {'start': list(sub) + [kind], 'hist': [], 'dims': list(dims), 'share': share}
                # Both conditions have the same model and are requested with the same value
                if any(sub) and max(dims) < 3:
                    yield {'start': list(sub) + [kind], 'hist': [], 'dims': list(dims), 'share': 3}
    for dims in ([1, 1, 25], [6, 7, 1], [2, 12, 2]):
        for kind in ('offset', 'scaling'):
            yield {'start': [1, 1, 1, kind], 'hist': [], 'dims': dims, 'share': 1}
    # Steps that request exactly the same, one after another: the same object or one that looks the same
    for n in range(2, 5 if tier == 'quick' else 7):
        for seq in itertools.product('SM', repeat=n):
            for layer in LAYERS:
                for same in (0, 1):
                    yield {'repeat': ''.join(seq), 'layer': layer, 'same': same, 'kind': ('offset', 'scaling')[n % 2]}


STEP = {'dev': 1, 'chp': 10000, 'batch': 10000**2}
LOW = {'dev': 5000, 'chp': 500, 'batch': 11}


class Draws(M.Deterministic):
    """Fresh tokens suitable for the type the model has at the time of the draw."""

    def __init__(self, layer, model):
        super().__init__(0)
        self.model = model
        self.src = {'offset': (STEP[layer] * n for n in itertools.count(1)), 'scaling': lib.primes(LOW[layer])}

    def sample(self, quantity=1):
        src = self.src[self.model['kind']]
        # Draws may well be integers although the conditions are not
        return np.array([next(src) for _ in range(quantity)], dtype=self.model['dtype'])


def decode(val, kind, base):
    if kind == 'offset':
        n = round(val - base)
        require(n >= 0 and lib.close(val, base + n, 1e-12), 'condition {!r} is not the requested {} plus draws', val, base)
        return n % 10000 or None, n // 10000 % 10000 or None, n // 10000**2 or None
    n = round(val / base)
    require(n > 0 and lib.close(val, base * n, 1e-12), 'condition {!r} is not the requested {} times draws', val, base)
    out = {'dev': None, 'chp': None, 'batch': None}
    k = 2
    while n > 1:
        if n % k == 0:
            layer = 'dev' if k >= 5000 else 'chp' if k >= 500 else 'batch'
            require(out[layer] is None, 'condition {!r} contains two {} draws', val, layer)
            out[layer] = k
            n //= k
        else:
            k += 1
            if k * k > n:
                k = n
    return out['dev'], out['chp'], out['batch']


def latch(phase, cond):
    if cond == 'temp':
        return lambda time, temp, ph: np.where(ph == phase, temp, 0.0)
    return lambda time, ph, v: np.where(ph == phase, v, 0.0)


def device():
    def prm(mechs=None, cond=None):
        return M.DegPrmMdl(mechs or {'w': M.FailMechMdl(lambda time: 0 * time)}, None, cond)

    prms = {
        'pt': prm(cond=M.CondShiftMdl(lambda temp: temp)),
        'pv': prm(cond=M.CondShiftMdl(lambda v: v)),
        'qt': prm(cond=M.CondShiftMdl(lambda temp: temp)),
        'ct': M.CircPrmMdl(lambda pt, temp: temp + 0 * pt),
        'cv': M.CircPrmMdl(lambda v, pt: v + 0 * pt),
    }
    for phase in (1, 2, 3):
        for cond in ('temp', 'v'):
            for rep in ('a', 'b'):
                prms[f'{rep}_{cond}_{phase}'] = prm({'w': M.FailMechMdl(latch(phase, cond))})
    return M.DeviceMdl(prms)


def env_of(case, model):
    rv = {k: Draws(k, model) if model[k] else None for k in LAYERS}
    mdl = M.EnvVrtnMdl(rv['dev'], rv['chp'], rv['batch'], model['kind'], 'temp')
    for op in case['hist']:
        op = OPS[op]
        if op in ('offset', 'scaling'):
            model['kind'] = op
            mdl.vrtn_type = op
        else:
            layer = op[:-1]
            model[layer] = int(op[-1] == '+')
            setattr(mdl, layer + '_vrtn_mdl', Draws(layer, model) if op[-1] == '+' else None)
    if case['share'] == 0:
        # Also passed as a list, v has no variation model
        return M.PhysTestEnv([mdl]) if sum(case['dims']) % 2 else M.PhysTestEnv({'temp': mdl})
    if case['share'] in (1, 3):
        return M.PhysTestEnv({'temp': mdl, 'v': mdl})
    return M.PhysTestEnv({'v': mdl, 'unused': mdl})


def run_repeat(case):
    res = Result()
    lots, chips, devs = 2, 2, 2
    model = {'kind': case['kind'], 'dtype': float}
    mdl = M.EnvVrtnMdl(**{case['layer'] + '_vrtn_mdl': Draws(case['layer'], model)}, vrtn_type=case['kind'])
    stress = set()

    def spy(time, temp):
        stress.update(float(v) for v in np.ravel(temp))
        return 0 * time

    dev = M.DeviceMdl({
        'p': M.DegPrmMdl({'w': M.FailMechMdl(spy)}),
        'q': M.DegPrmMdl({'w': M.FailMechMdl(lambda time: 0 * time)}, cond_shift_mdl=M.CondShiftMdl(lambda temp: temp)),
    })
    make = {
        'S': lambda: M.StrsSpec({'temp': 300}, 5, 'stress', 'h'),
        'M': lambda: M.MeasSpec({'p': devs, 'q': devs}, {'temp': 300}),
    }
    one = {k: make[k]() for k in make}
    steps = [one[k] if case['same'] else make[k]() for k in case['repeat']]
    report = g.simulate(M.TestSpec(steps + [make['M']()], chips, lots), dev, M.PhysTestEnv({'temp': mdl}))
    res.trace()
    vals, _ = lib.by_label(report)
    size = {'batch': 1, 'chp': lots * chips, 'dev': lots * chips * devs}[case['layer']]
    want = case['repeat'].count('S') * size
    require(len(stress) == want, 'stress steps of {} (repeated, same={}) saw {} different {} values instead of {}', case['repeat'], case['same'], len(stress), case['layer'], want)
    seen = {}
    for (step, prm, *_), val in vals.items():
        if prm == 'q':
            require(val not in stress, 'measurement step {} of {} reuses a draw of a stress step', step, case['repeat'])
            require(seen.setdefault(val, step) == step, 'measurement step {} of {} (same={}) reuses a draw of step {}', step, case['repeat'], case['same'], seen.get(val))
            res.step()
    want = (case['repeat'].count('M') + 1) * size
    require(len(seen) == want, 'measurement steps of {} saw {} different {} values instead of {}', case['repeat'], len(seen), case['layer'], want)
    res.outcome('repeat', len(seen), len(stress))
    for n in range(len(case['repeat'])):
        res.state('repeat', case['repeat'][: n + 1], case['layer'], case['same'])
    return res


def run(case):
    if 'repeat' in case:
        return run_repeat(case)
    res = Result()
    lots, chips, devs = dims = tuple(case['dims'])
    model = dict(zip(LAYERS + ('kind',), case['start']))
    model['dtype'] = (float, int)[(sum(case['hist']) + sum(dims)) % 2]
    env = env_of(case, model)
    varied = {0: ('temp',), 1: ('temp', 'v'), 2: ('v',), 3: ('temp', 'v')}[case['share']]
    dev = device()
    names = dev.prm_mdl_list
    latches = {p: devs + (p[0] == 'b') for p in names if '_' in p}
    # Conditions requested as zero leave no trace of scaling draws, so only where the draws are added
    bases = ZERO if model['kind'] == 'offset' else BASES
    if case['share'] == 3:
        bases = {'temp': BASES['temp'], 'v': BASES['temp']}
    steps = []
    for n in range(3):
        t, v = bases['temp'][n], bases['v'][n]
        steps.append(M.StrsSpec({'temp': t, 'v': v, 'ph': n + 1}, 5, time_unit='h'))
        t, v = bases['temp'][3 + n], bases['v'][3 + n]
        counts = {'pt': devs, 'pv': devs, 'ct': devs, 'temp': 2 + n, 'qt': devs + 1, 'cv': devs, 'v': 2}
        if n == 2:
            counts.update(latches)
        steps.append(M.MeasSpec(counts, {'v': v, 'temp': t}))
    report = g.simulate(M.TestSpec(steps, chips, lots), dev, env)
    res.trace()
    vals, sensors = lib.by_label(report)

    # Values seen, by (kind of step, number, condition): [(who, chip position, value)]
    seen = {}
    for (step, prm, lo, c, d), val in vals.items():
        if '_' in prm:
            _, cond, phase = prm.split('_')
            seen.setdefault(('stress', int(phase) - 1, cond), []).append(((prm, lo, c, d), (lo, c), val))
        else:
            cond = 'temp' if prm[1] == 't' else 'v'
            seen.setdefault(('meas', step // 2, cond), []).append(((prm, lo, c, d), (lo, c), val))
    for (step, cond), got in sensors.items():
        for n, val in enumerate(got):
            # Each sensor is a chip of its own
            seen.setdefault(('meas', step // 2, cond), []).append((('sensor', n), ('sensor', n), val))
    used = {}
    for (typ, n, cond), rows in sorted(seen.items()):
        base = bases[cond][n + (3 if typ == 'meas' else 0)]
        want = model if cond in varied else dict.fromkeys(LAYERS, 0) | {'kind': model['kind']}
        where = f'{typ} step {n} {cond}, model {model}'
        batch, chips_ = set(), {}
        for who, chip, val in rows:
            if not any(want[k] for k in LAYERS):
                require(val == base, '{}: {} sees {!r} instead of {}', where, who, val, base)
                continue
            toks = dict(zip(LAYERS, decode(val, want['kind'], base)))
            for layer in LAYERS:
                require(
                    (toks[layer] is not None) == bool(want[layer]),
                    '{}: {} sees {!r} (requested {}), which {} a {} draw',
                    where, who, val, base, 'contains' if toks[layer] else 'lacks', layer,
                )
            batch.add(toks['batch'])
            require(chips_.setdefault(chip, toks['chp']) == toks['chp'], '{}: {} has another chip draw than its chip', where, who)
            if toks['dev'] is not None:
                owner = used.setdefault(('dev', toks['dev']), (typ, n, cond, who))
                require(owner == (typ, n, cond, who), '{}: {} shares its device draw with {}', where, who, owner)
            res.step()
        require(len(batch) <= 1, '{}: several batch draws {}', where, batch)
        for layer, items in (('batch', [(b, 'all') for b in batch]), ('chp', [(t, c) for c, t in chips_.items()])):
            for tok, who in items:
                if tok is not None:
                    owner = used.setdefault((layer, tok), (typ, n, cond, who))
                    require(owner == (typ, n, cond, who), '{}: {} draw of {} was already used by {}', where, layer, who, owner)
        res.outcome(where, len(rows))
    res.state(tuple(sorted((k, str(v)) for k, v in model.items())), tuple(case['dims']), case['share'])
    for n in range(len(case['hist'])):
        res.state(tuple(case['start']), tuple(case['hist'][:n]))
    return res
