"""C04 - stress that cannot explain existing wear leaves it unchanged.

All phase sequences over conditions below, between and above the thresholds / saturation levels of a mixed population are
simulated for thresholded, saturating (fast and slow) and very slowly growing mechanisms, alone and next to a mechanism
that always degrades. Unreachable phases must leave the reading bit-identical, reachable ones must follow the reference
model, and the magnitude never shrinks beyond the solver tolerance."""

import itertools
import math
from datetime import timedelta

import numpy as np

from mc import lib
from mc.core import Result, require
from mc.lib import M, g

BOUNDS = {
    'quick': 'phase sequences of length 1-4 over 3 conditions x 2 durations, 10 parameters, 1x2x3 mixed devices; up to length 3 also at magnitudes 1e-9 and 1e7 and with wear that grows to infinity',
    'thorough': 'phase sequences of length 1-5 over 3 conditions x 2 durations, 10 parameters, 1x2x3 mixed devices; up to length 3 also at magnitudes 1e-9 and 1e7 and with wear that grows to infinity',
}
ASSUMPTIONS = ['equivalent times beyond 1e10 h count as never reached (documented search limit)']
TEMPS = {'l': 0.5, 'm': 1.5, 'h': 3.0}
DURS = {'1': timedelta(hours=2), '2': timedelta(hours=700)}
DIMS = (1, 2, 3)


def fixed(start, inc):
    return M.LatentVar(lib.Fixed(start, inc))


# parameter -> mechanisms (name -> kind, latents), equation
SPEC = {
    'thr': ({'m': ('thr', {'a': (1e-3, 1e-4), 'th': (1.0, 0.2)})}, lambda init, m: init + m),
    'fast': ({'m': ('sat', {'a': (1.0, 0.1), 'th': (0.05, 0.01)})}, lambda init, m: init + m),
    'mid': ({'m': ('sat', {'a': (1.0, 0.1), 'th': (30.0, 100.0)})}, lambda init, m: init - m),
    'slow': ({'m': ('sat', {'a': (1.0, 0.1), 'th': (5e3, 1e3)})}, lambda init, m: init + m),
    'log': ({'m': ('log', {'a': (0.1, 0.01)})}, lambda init, m: init + m),
    'nthr': ({'m': ('nthr', {'a': (1e-2, 1e-3), 'th': (1.0, 0.2)})}, lambda init, m: init + m),
    'nsat': ({'m': ('nsat', {'a': (0.05, 0.01), 'th': (20.0, 50.0)})}, lambda init, m: init * m),
    'inc': ({'m': ('inc', {'a': (1e-3, 1e-4), 'th': (1.0, 1.9)})}, lambda init, m: init + m),
    'both': (
        {'m1': ('thr', {'a': (1e-3, 0.0), 'th': (2.0, -0.2)}), 'm2': ('pow', {'a': (0.01, 1e-3)})},
        lambda init, m1, m2: init + m1 + m2,
    ),
    'pair': (
        {'m1': ('sat', {'a': (2.0, 0.1), 'th': (3.0, 1.0)}), 'm2': ('thr', {'a': (1e-2, 0.0), 'th': (1.2, 0.1)})},
        lambda init, m1, m2: init + m1 * m2 + m2,
    ),
}


# Nothing may depend on the unit in which a parameter is expressed
MAGNITUDES = {'nA': 1e-9, 'k': 1e7}


def device(mag=None):
    prms = {}
    scale = MAGNITUDES.get(mag, 1)
    for n, (prm, (mechs, eqn)) in enumerate(SPEC.items()):
        # The wear of a product with a value of one is left as it is
        by = 1 if prm == 'nsat' else scale
        mdls = {m: lib.mech(k, **{v: fixed(*[x * (by if v == 'a' else 1) for x in r]) for v, r in lat.items()}) for m, (k, lat) in mechs.items()}
        compute = {'nsat': lambda init, cond, m: init * m + cond, 'mid': lambda init, cond, m: init + cond - m, 'pair': lambda init, cond, m1, m2: init + cond + m1 * m2 + m2}
        prms[prm] = M.DegPrmMdl(mdls, M.InitValMdl(init_val=M.LatentVar(deter_val=n + 0.5 if mag is None or prm == 'nsat' else 0)), compute_eqn=compute.get(prm), time_unit='h')
    return M.DeviceMdl(prms)


def cases(tier):
    depth = 4 if tier == 'quick' else 5
    menu = [t + d for t, d in itertools.product(TEMPS, DURS)]
    for n in range(1, depth + 1):
        for seq in itertools.product(menu, repeat=n):
            yield {'seq': list(seq)}
            if n <= 3:
                for sign in (1, -1):
                    yield {'seq': list(seq), 'inf': sign, 'single': int(n == 2)}
                for mag in MAGNITUDES:
                    yield {'seq': list(seq), 'mag': mag}


def breaks(sign, single):
    """Wears in proportion to temperature and time above a threshold, and without limit beyond 1000."""
    if single:
        return lambda time, temp, a, th: sign * (0.0 if temp <= th else math.inf if time * temp > 1000 else a * time * temp)
    return lambda time, temp, a, th: sign * np.where(temp <= th, 0.0, np.where(time * temp > 1000, np.inf, a * time * temp))


def run_inf(case, res):
    """Wear of infinite magnitude is wear as well."""
    sign, single = case['inf'], case['single']
    mech = M.DegMechMdl(breaks(sign, single), a=fixed(1e-3, 1e-4), th=fixed(0.3, 0.35))
    dev = M.DeviceMdl({'p': M.DegPrmMdl({'m': mech}, time_unit='h')})
    phases = [(TEMPS[s[0]], DURS[s[1]]) for s in case['seq']]
    steps = []
    for t, d in phases:
        steps += [M.StrsSpec({'temp': t}, d), M.MeasSpec({'p': DIMS[2]}, {})]
    report = g.simulate(M.TestSpec(steps, DIMS[1], DIMS[0]), dev, M.PhysTestEnv())
    res.trace()
    vals, _ = lib.by_label(report)
    for i, pos in enumerate(lib.positions(DIMS)):
        a, th, total = 1e-3 + i * 1e-4, 0.3 + i * 0.35, 0.0
        for n, (temp, dur) in enumerate(phases):
            if temp > th:
                total += temp * (dur / lib.HOUR)
            want = sign * (math.inf if total > 1000 else a * total)
            got = vals[(2 * n + 1, 'p') + pos]
            require(got == want or (math.isfinite(got) and math.isfinite(want) and lib.close(got, want, 3e-3, 1e-5)), 'device {} with wear without limit beyond 1000 reads {!r} after {}, expected {!r}', pos, got, phases[: n + 1], want)
            res.step()
        res.outcome('inf', pos, want)
        res.state('inf', sign, pos, f'{want:.6g}')
    return res


def run(case):
    res = Result()
    if 'inf' in case:
        return run_inf(case, res)
    dev = device(case.get('mag'))
    tiny = 0.0 if 'mag' in case else 1e-12
    counts = {p: DIMS[2] for p in SPEC}
    state = g.gen_init_state(dev, dict(counts), DIMS[1], DIMS[0])
    phases = [(TEMPS[s[0]], DURS[s[1]]) for s in case['seq']]
    steps = [M.MeasSpec(dict(counts), {'temp': 1.0})]
    for t, d in phases:
        steps += [M.StrsSpec({'temp': t}, d), M.MeasSpec(dict(counts), {'temp': 1.0})]
    report = g.simulate(M.TestSpec(steps, DIMS[1], DIMS[0]), dev, M.PhysTestEnv(), state)
    res.trace()
    vals, _ = lib.by_label(report)
    for prm, (mechs, eqn) in SPEC.items():
        for pos in lib.positions(DIMS):
            init = float(state.init_prm_vals[prm][pos])
            lat = {m: {k: float(state.latent_var_vals[prm][m][k][pos]) for k in mechs[m][1]} for m in mechs}
            cur = {m: (lib.KINDS[k].unitary,) * 2 for m, (k, _) in mechs.items()}
            last = vals[(0, prm) + pos]
            require(lib.close(last, init), '{} {} starts at {}, initial value {}', prm, pos, last, init)
            shown = []
            for n, (temp, dur) in enumerate(phases):
                frozen = True
                for m, (k, _) in mechs.items():
                    if not lib.unreachable(k, lat[m], temp, cur[m]):
                        before, cur[m] = cur[m], lib.advance(k, lat[m], temp, cur[m], dur / lib.HOUR, t_min=3e-3 if k == 'inc' else lib.T_MIN)
                        frozen = frozen and before == cur[m]
                    res.step()
                got = vals[(2 * n + 2, prm) + pos]
                want = lib.corners(lambda *d: eqn(init, *d), *cur.values())
                what = [(t, str(d)) for t, d in phases[: n + 1]]
                require(lib.inside(got, want, abs_=tiny), '{} {} reads {!r} after {}, expected {}', prm, pos, got, what, want)
                if frozen:
                    require(lib.close(got, last, 1e-12, 0), '{} {} went from {!r} to {!r} in a phase that cannot degrade it: {}', prm, pos, last, got, what)
                # Magnitude never shrinks (solver tolerance on the equivalent time of at most the total of 3000 h)
                require(abs(got - init) >= abs(last - init) * (1 - 2 * lib.TOL), '{} {} healed from {!r} to {!r}: {}', prm, pos, last, got, what)
                last = got
                shown.append(frozen)
            res.outcome(prm, pos, tuple(shown))
            res.state(prm, pos, tuple(f'{v[0]:.6g}' for v in cur.values()))
    return res
