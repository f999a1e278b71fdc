"""C03 - wear accumulates through equivalent stress time.

Every sequence of stress phases up to a length over a menu of (condition, duration) is simulated for a device whose
parameters cover all mechanism shapes (alone and two in one parameter), for several devices with different latents, with
a measurement after every phase, or only at the end (so that splitting measurements cannot matter). The reference model
advances each device with the analytic inverse of its equation and carries the interval of values that the documented
solver tolerance permits."""

import itertools
from datetime import timedelta

from mc import lib
from mc.core import Result, require
from mc.lib import M, g

BOUNDS = {
    'quick': 'phase sequences of length 1-3 over 3 conditions x 3 durations (also as split phases), 11 mechanism shapes (with devices below and above a threshold, with an incubation time), 2x1x2 devices; 1-2 phases at magnitudes 1e-12 and 1e7, in microseconds, milliseconds, seconds and days, of 45 s, 10 and 400 years; 10 phases; populations up to 4x3x11',
    'thorough': 'phase sequences of length 1-4 over 3 conditions x 3 durations (also as split phases), 11 mechanism shapes (with devices below and above a threshold, with an incubation time), 2x1x2 devices; 1-3 phases at magnitudes 1e-12 and 1e7, in microseconds, milliseconds, seconds and days, of 45 s, 10 and 400 years; 20 phases; populations up to 4x3x11',
}
ASSUMPTIONS = [
    'mechanism equations are monotone in time; equivalent times are compared to 1e-4 relative with a resolution of 1.2e-3 time units',
]
TEMPS = {'a': 1.0, 'b': 2.5, 'c': 0.4}
DURS = {'1': timedelta(hours=1), '2': timedelta(hours=24), '3': timedelta(hours=1000)}
LAT = {
    'lin': {'a': (1e-3, 3e-4)},
    'pow': {'a': (0.02, 0.005)},
    'neg': {'a': (0.01, 0.003)},
    'log': {'a': (0.05, 0.01)},
    'sup': {'a': (1e-6, 2e-7)},
    'mul': {'a': (0.01, 0.004)},
    'dec': {'a': (1e-3, 4e-4)},
    'thr': {'a': (1e-3, 1e-4), 'th': (0.3, 0.4)},
    'nthr': {'a': (1e-3, 1e-4), 'th': (2.6, -0.7)},
    'inc': {'a': (1e-3, 2e-4), 'th': (10.0, 12.0)},
    'sat': {'a': (2.0, 0.5), 'th': (5e4, 1e4)},
}
SINGLE = ('lin', 'pow', 'neg', 'log', 'sup', 'sat', 'thr', 'nthr', 'inc')


# Magnitudes of the degradation: nothing may depend on the unit in which a parameter is expressed
MAGNITUDES = {'fA': 1e-12, 'k': 1e7}
SPANS = {'4': timedelta(seconds=45), '5': timedelta(days=3650), '6': timedelta(days=40 * 3650)}
DURS_ALL = DURS | SPANS
# The same physics on other time scales, in parameters that count time in other units
UNITS = {'us': timedelta(microseconds=1), 'ms': timedelta(milliseconds=1), 's': timedelta(seconds=1), 'days': timedelta(days=1)}


def latents(kind, scale=1.0):
    if lib.KINDS[kind].unitary:
        scale = min(max(scale, 0.01), 100)
    return {k: M.LatentVar(lib.Fixed(s * (scale if k == 'a' else 1), i * (scale if k == 'a' else 1))) for k, (s, i) in LAT[kind].items()}


# parameter name -> (mechanisms, equation of init, mechs in the model's order)
def device(scale=1.0, unit='h'):
    prms = {}
    base = 1 if scale == 1 else 0
    for n, kind in enumerate(SINGLE):
        init = M.InitValMdl(init_val=M.LatentVar(deter_val=base * n))
        prms[kind] = M.DegPrmMdl({'m': lib.mech(kind, **latents(kind, scale))}, init, time_unit=unit)
    # Two mechanisms that must accumulate independently
    prms['two'] = M.DegPrmMdl(
        {'m1': lib.mech('pow', **latents('pow', 0.5 * scale)), 'm2': lib.mech('lin', **latents('lin', 2.0 * scale))},
        M.InitValMdl(init_val=M.LatentVar(deter_val=10 * base)),
        time_unit=unit,
    )
    prms['prod'] = M.DegPrmMdl(
        {'m1': lib.mech('mul', **latents('mul', scale)), 'm2': lib.mech('dec', **latents('dec', scale))},
        M.InitValMdl(init_val=M.LatentVar(deter_val=3)),
        M.CondShiftMdl(unitary_val=1),
        lambda init, cond, m1, m2: init * cond * m1 * m2,
        time_unit=unit,
    )
    return M.DeviceMdl(prms)


SHAPE = {k: ({'m': k}, lambda init, m: init + m) for k in SINGLE}
SHAPE['two'] = ({'m1': 'pow', 'm2': 'lin'}, lambda init, m1, m2: init + m1 + m2)
SHAPE['prod'] = ({'m1': 'mul', 'm2': 'dec'}, lambda init, m1, m2: init * m1 * m2)


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    menu = [t + d for t, d in itertools.product(TEMPS, DURS)]
    for n in range(1, depth + 1):
        for seq in itertools.product(menu, repeat=n):
            yield {'seq': list(seq), 'meas': 'each'}
            if n < depth or seq[0][0] != seq[-1][0]:
                yield {'seq': list(seq), 'meas': 'end'}
            if n <= 2:
                yield {'seq': list(seq), 'meas': 'split'}
    for mag in MAGNITUDES:
        for n in range(1, depth):
            for seq in itertools.product(menu, repeat=n):
                yield {'seq': list(seq), 'meas': 'each', 'mag': mag}
    # Very short and very long phases among the usual ones
    spans = [t + d for t, d in itertools.product(TEMPS, ('2', '4', '5'))]
    for n in range(1, depth):
        for seq in itertools.product(spans, repeat=n):
            if any(s[1] in SPANS for s in seq):
                yield {'seq': list(seq), 'meas': 'each'}
    for unit in UNITS:
        for n in range(1, depth):
            for seq in itertools.product(menu, repeat=n):
                yield {'seq': list(seq), 'meas': 'each', 'unit': unit}
    for first, second in itertools.product(TEMPS, repeat=2):
        for a, b in (('6', '2'), ('1', '6'), ('6', '5')):
            yield {'seq': [first + a, second + b], 'meas': 'each'}
    # Many steps of the same kind, and populations of many lots, chips and devices
    for pair in itertools.product(('a2', 'b1', 'c3'), repeat=2):
        yield {'seq': list(pair) * (5 if tier == 'quick' else 10), 'meas': 'each'}
        yield {'seq': list(pair) + ['a1'], 'meas': 'end', 'dims': [4, 3, 11]}
        yield {'seq': list(pair) + ['a1'], 'meas': 'end', 'dims': [1, 1, 1]}
        yield {'seq': list(pair) + ['a1'], 'meas': 'end', 'dims': [1, 14, 1]}


def run(case):
    res = Result()
    unit = UNITS.get(case.get('unit'), lib.HOUR)
    dev = device(MAGNITUDES.get(case.get('mag'), 1.0), case.get('unit', 'h'))
    dims = tuple(case.get('dims', (2, 1, 2)))
    tiny = 1e-12 if 'mag' not in case else 0.0
    counts = {p: dims[2] for p in SHAPE}
    state = g.gen_init_state(dev, dict(counts), dims[1], dims[0])
    phases = [(TEMPS[s[0]], DURS_ALL[s[1]] / lib.HOUR * unit) for s in case['seq']]
    if case['meas'] == 'split':
        # Each phase as three consecutive phases of the same total length
        phases = [(t, d * f / 6) for t, d in phases for f in (1, 2, 3)]
    steps, phase_after = [], {}
    for n, (t, d) in enumerate(phases):
        steps.append(M.StrsSpec({'temp': t}, d))
        if case['meas'] == 'each' or n == len(phases) - 1:
            phase_after[len(steps)] = n
            steps.append(M.MeasSpec(dict(counts), {'temp': 1.0}))
    report = g.simulate(M.TestSpec(steps, dims[1], dims[0]), dev, M.PhysTestEnv(), state)
    res.trace()
    vals, _ = lib.by_label(report)
    lat_all = state.latent_var_vals
    for prm, (mechs, eqn) in SHAPE.items():
        for pos in lib.positions(dims):
            init = float(state.init_prm_vals[prm][pos])
            lat = {m: {k: float(v[pos]) for k, v in lat_all[prm][m].items()} for m in mechs}
            cur = {m: (lib.KINDS[k].unitary,) * 2 for m, k in mechs.items()}
            n_done = 0
            for step, upto in sorted(phase_after.items()):
                for temp, dur in phases[n_done : upto + 1]:
                    for m, k in mechs.items():
                        # A start that is flat in time is resolved a little less
                        flat = 3e-3 if k == 'inc' else lib.T_MIN
                        cur[m] = lib.advance(k, lat[m], temp, cur[m], dur / unit, lib.T_MAX * (lib.HOUR / unit), flat)
                        res.step()
                n_done = upto + 1
                want = lib.corners(lambda *d: eqn(init, *d), *cur.values())
                got = vals[(step, prm) + pos]
                require(
                    lib.inside(got, want, abs_=tiny),
                    '{} device {} reads {!r} after phases {}, expected {}',
                    prm, pos, got, [(t, str(d)) for t, d in phases[: upto + 1]], want,
                )
                res.outcome(prm, round(got, 9))
    res.state(case['seq'], case['meas'])
    for n in range(len(case['seq'])):
        res.state(case['seq'][:n], case['meas'])
    return res
