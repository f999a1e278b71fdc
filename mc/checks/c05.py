"""C05 - hard failures latch.

Every sequence of stress phases up to a length over a menu of (temperature, voltage, duration) is simulated for a
population whose trip levels differ per device, with parameters that hold one or two failure mechanisms with various
unitary values, failed values that carry the phase that caused them (also zero, negative and infinite ones), next to a
degradation mechanism. The oracle is an exact latch automaton per device and mechanism."""

import itertools
import math
from datetime import timedelta

import numpy as np

from mc import lib
from mc.core import Result, require
from mc.lib import M, g

BOUNDS = {
    'quick': 'phase sequences of length 1-4 over 6 phases, 2x2x2 devices with different trip levels, 16 parameters, fresh and pre-failed states',
    'thorough': 'phase sequences of length 1-5 over 6 phases, 2x2x2 devices with different trip levels, 16 parameters, fresh and pre-failed states',
}
DIMS = (2, 2, 2)
# temperature, voltage, hours
PHASES = {
    'a': (0.0, 1.0, 10),
    'b': (3.5, 1.0, 10),
    'c': (9.5, 1.0, 1),
    'd': (3.5, 5.0, 30),
    'e': (-20.0, 1.0, 30),
    'f': (1.0, 1.0, 48),
}


# Failure equations: vectorised and for single values. lvl is the trip level of the device
def hot_v(time, temp, lvl):
    return np.where(temp > lvl, 100 + temp, 0)


def hot_s(time, temp, lvl):
    return 100 + temp if temp > lvl else 0


def one_v(time, temp, lvl):
    return np.where(temp > lvl, 0.25 + temp, 1)


def drop_s(time, temp, lvl):
    if temp > lvl:
        return 0.0
    return 5


def long_v(time, temp, lvl):
    # Judged on the duration of the phase only: level 10 + lvl hours
    return np.where(time > 10 + lvl, -1000 - time, 0)


def volt_v(time, v, temp, lvl):
    return np.where((v > 2) & (temp > lvl - 3), 10000.0 * v, 0)


def open_s(time, temp, lvl):
    return math.inf if temp > lvl else 0


def days_v(time, lvl):
    return np.where(time >= 1 + lvl / 24, -time, 3)


def nan_s(time, temp, lvl):
    return math.nan if temp > lvl else 0


# Failed values that are hard to tell from the unitary value by magnitude
def near_v(time, temp, lvl):
    return np.where(temp > lvl, 1e6 + 0.25 * temp, 1e6)


def tiny_v(time, temp, lvl):
    return np.where(temp > lvl, 1e-12 * (100 + temp), 0)


# A fractional unitary value
def frac_v(time, temp, lvl):
    return np.where(temp > lvl, 0.5 + temp / 8, 0.5)


def frac_s(time, temp, lvl):
    return 0.0 if temp > lvl else 0.5


# The opposite of the unitary value, and truth values
def flip_v(time, temp, lvl):
    return np.where(temp > lvl, -1, 1)


def bool_v(time, temp, lvl):
    return temp > lvl


# name -> (unitary, python reference of one device and one phase)
REF = {
    'hot_v': (0, lambda t, v, h, lvl: 100 + t if t > lvl else 0),
    'hot_s': (0, lambda t, v, h, lvl: 100 + t if t > lvl else 0),
    'one_v': (1, lambda t, v, h, lvl: 0.25 + t if t > lvl else 1),
    'drop_s': (5, lambda t, v, h, lvl: 0.0 if t > lvl else 5),
    'long_v': (0, lambda t, v, h, lvl: -1000 - h if h > 10 + lvl else 0),
    'volt_v': (0, lambda t, v, h, lvl: 10000.0 * v if v > 2 and t > lvl - 3 else 0),
    'open_s': (0, lambda t, v, h, lvl: math.inf if t > lvl else 0),
    'days_v': (3, lambda t, v, h, lvl: -h / 24 if h / 24 >= 1 + lvl / 24 else 3),
    'nan_s': (0, lambda t, v, h, lvl: math.nan if t > lvl else 0),
    'near_v': (1e6, lambda t, v, h, lvl: 1e6 + 0.25 * t if t > lvl else 1e6),
    'tiny_v': (0, lambda t, v, h, lvl: 1e-12 * (100 + t) if t > lvl else 0),
    'frac_v': (0.5, lambda t, v, h, lvl: 0.5 + t / 8 if t > lvl else 0.5),
    'flip_v': (1, lambda t, v, h, lvl: -1 if t > lvl else 1),
    'bool_v': (0, lambda t, v, h, lvl: float(t > lvl)),
    'frac_s': (0.5, lambda t, v, h, lvl: 0.0 if t > lvl else 0.5),
}
EQN = {f.__name__: f for f in (hot_v, hot_s, one_v, drop_s, long_v, volt_v, open_s, days_v, nan_s, near_v, tiny_v, frac_v, frac_s, flip_v, bool_v)}


def fail(name):
    # Levels -0.5, 0.5, 1.5 ... over the population
    return M.FailMechMdl(EQN[name], None, REF[name][0], 'd' if name == 'days_v' else None, lvl=M.LatentVar(lib.Fixed(-0.5, 1.0)))


PRMS = {
    'p1': (['hot_v'], 'sum'),
    'p2': (['hot_s'], 'sum'),
    'p3': (['one_v'], 'prod'),
    'p4': (['drop_s'], 'rel'),
    'p5': (['hot_v', 'volt_v', 'long_v', 'lin'], 'sum'),
    'p6': (['open_s'], 'sum'),
    'p7': (['long_v', 'hot_s'], 'sum'),
    'p8': (['days_v'], 'rel'),
    'p9': (['near_v'], 'rel'),
    'p11': (['nan_s'], 'sum'),
    'p10': (['tiny_v'], 'amp'),
    'p12': (['frac_v'], 'rel'),
    'p13': (['frac_s'], 'rel'),
    'p14': (['flip_v'], 'prod'),
    'p15': (['bool_v'], 'sum'),
    'p16': (['hot_v', 'volt_v', 'long_v', 'hot_s', 'bool_v', 'lin', 'tiny_v'], 'sum'),
}


# The unitary value is the one without effect on the parameter: relative parameters subtract it
COMBINE = {
    'sum': None,
    'prod': lambda init, cond, m0: init * cond * m0,
    'rel': lambda init, cond, m0, unit: init + cond + m0 - unit,
    'amp': lambda init, cond, m0: init + cond + m0 * 1e12,
}


def device():
    prms = {}
    for prm, (mechs, kind) in PRMS.items():
        mdls = {'m' + str(n): lib.mech('lin', a=M.LatentVar(deter_val=1e-5)) if m == 'lin' else fail(m) for n, m in enumerate(mechs)}
        prms[prm] = M.DegPrmMdl(
            mdls,
            M.InitValMdl(init_val=M.LatentVar(lib.Fixed(2, 3))),
            M.CondShiftMdl(unitary_val=1) if kind == 'prod' else None,
            COMBINE[kind],
            time_unit='h',
            **({'unit': M.LatentVar(deter_val=REF[mechs[0]][0])} if kind == 'rel' else {}),
        )
    return M.DeviceMdl(prms)


def cases(tier):
    depth = 4 if tier == 'quick' else 5
    for n in range(1, depth + 1):
        for seq in itertools.product(PHASES, repeat=n):
            yield {'seq': ''.join(seq), 'pre': 0}
            if n <= depth - 2:
                yield {'seq': ''.join(seq), 'pre': 1}
    # Long histories: latching must not wear off
    for ph in itertools.permutations(PHASES, 2):
        yield {'seq': ph[0] + ph[1] * 12, 'pre': 0}
        yield {'seq': (ph[0] + ph[1]) * 6, 'pre': 0}


def run(case):
    res = Result()
    dev = device()
    state = g.gen_init_state(dev, {p: DIMS[2] for p in PRMS}, DIMS[1], DIMS[0])
    pre = {}
    if case['pre']:
        # Devices that have already failed before the test
        mech_vals = {p: {m: np.array(v, dtype=float) for m, v in d.items()} for p, d in state.init_deg_mech_vals.items()}
        for prm in ('p1', 'p4', 'p5', 'p8'):
            mech_vals[prm]['m0'][0, 1, 0] = -7.0
            mech_vals[prm]['m0'][1, 0, 1] = 7.5
            pre[prm] = {(0, 1, 0): -7.0, (1, 0, 1): 7.5}
        state = M.SimState(state.init_prm_vals, mech_vals, state.latent_var_vals) if hasattr(M, 'SimState') else state_cls()(
            state.init_prm_vals, mech_vals, state.latent_var_vals
        )
    steps = []
    for n, ph in enumerate(case['seq']):
        t, v, h = PHASES[ph]
        steps.append(M.StrsSpec({'temp': t, 'v': v}, timedelta(hours=h)))
        steps.append(M.MeasSpec({p: DIMS[2] for p in PRMS}, {'temp': 100.0 * (n % 2), 'v': 9.0}))
    report = g.simulate(M.TestSpec(steps, DIMS[1], DIMS[0]), dev, M.PhysTestEnv(), state)
    res.trace()
    vals, _ = lib.by_label(report)
    for prm, (mechs, kind) in PRMS.items():
        for pos in lib.positions(DIMS):
            init = float(state.init_prm_vals[prm][pos])
            idx = pos[0] * 4 + pos[1] * 2 + pos[2]
            lvl = idx - 0.5
            cur = [0.0 if m == 'lin' else REF[m][0] for m in mechs]
            if pos in pre.get(prm, ()):
                cur[0] = pre[prm][pos]
            lin = (0.0, 0.0)
            for n, ph in enumerate(case['seq']):
                t, v, h = PHASES[ph]
                for i, m in enumerate(mechs):
                    if m == 'lin':
                        # Only strictly positive temperatures age it in the forward direction
                        lin = None if lin is None or t <= 0 else lib.advance('lin', {'a': 1e-5}, t, lin, h)
                    elif cur[i] == REF[m][0]:
                        cur[i] = REF[m][1](t, v, h, lvl)
                    res.step()
                got = vals[(2 * n + 1, prm) + pos]
                if kind == 'prod':
                    want = (init * cur[0],) * 2
                elif kind == 'amp':
                    want = (init + cur[0] * 1e12,) * 2
                elif kind == 'rel':
                    want = (init + cur[0] - REF[mechs[0]][0],) * 2
                else:
                    base = init + sum(c for c, m in zip(cur, mechs) if m != 'lin')
                    if 'lin' in mechs:
                        # Below the resolution of interest once phases reverse; it is far smaller than the failures
                        want = (base - 0.5, base + 0.5) if lin is None else (base + lin[0], base + lin[1])
                    else:
                        want = (base, base)
                require(
                    got == want[0] or (math.isnan(got) and math.isnan(want[0])) or lib.inside(got, want, 1e-9, 1e-9),
                    '{} {} device {} reads {!r} after phases {}, expected {}',
                    prm, mechs, pos, got, case['seq'][: n + 1], want,
                )
                res.state(prm, idx, tuple(map(str, cur)))
        res.outcome(prm, case['seq'])
    return res


def state_cls():
    from gerabaldi.models.states import SimState

    return SimState
