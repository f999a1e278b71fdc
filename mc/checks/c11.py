"""C11 - a device is unaffected by its neighbours and by equation style.

The population of one simulation is cut into every sub-population (all non-empty products of lot, chip and device subsets,
down to single devices), every subset of its parameters and every subset of the mechanisms of a parameter; the readings of
the remaining devices must not change. Every combination of array and single-value style for the equations at each place of
a model must give the same readings."""

import itertools
import math
from datetime import timedelta

import numpy as np

from mc import lib
from mc.core import Result, require
from mc.lib import M, g
from mc.checks.c05 import state_cls

BOUNDS = {
    'quick': '27 sub-populations of 2x2x2 and 21 of 1x3x3 x 20 phase sequences, all 63 parameter subsets x 6 sequences, all mechanism subsets, 128 style combinations x 5 shapes, 256 sets of unrelated additions, cuts of populations up to 96 devices, 7 x 7 types of neutral values x 8 styles, triples of devices with infinite wear',
    'thorough': '49 sub-populations of 3x3x2 and 27 of 2x2x2 x 39 phase sequences, all parameter subsets x 39 sequences, all mechanism subsets, 128 style combinations x 8 shapes, 256 sets of unrelated additions, cuts of populations up to 96 devices, 7 x 7 types of neutral values x 8 styles, triples of devices with infinite wear',
}
ASSUMPTIONS = ['readings that involve an equivalent stress time are compared with the tolerance of the solver, all others to 1e-12']
CHUNK = 8
PHASES = {'a': (1.0, 24), 'b': (3.0, 500), 'c': (2.0, 2000)}
EXACT = ('f', 'g', 'n')
PRMS = ('t', 's', 'p', 'f', 'g', 'n')


def fx(start, inc):
    return M.LatentVar(lib.Fixed(start, inc))


def prm_mdls(which):
    all_ = {
        # Some devices stay below their threshold or saturate lower than their wear while others degrade
        't': lambda: M.DegPrmMdl({'w': lib.mech('thr', a=fx(1e-3, 2e-4), th=fx(0.3, 0.4))}, M.InitValMdl(init_val=fx(1, 0.1)), time_unit='h'),
        's': lambda: M.DegPrmMdl(
            {'w': lib.mech('sat', a=fx(2.0, -0.1), th=fx(2e3, 3e2)), 'x': lib.mech('lin', 'sca', a=fx(2e-4, 1e-5))},
            M.InitValMdl(init_val=fx(3, 0.1)), M.CondShiftMdl(lambda temp, k: k * temp, k=fx(0.01, 0.01)), time_unit='h',
        ),
        'p': lambda: M.DegPrmMdl({'w': lib.mech('pow', a=fx(0.02, 0.005))}, M.InitValMdl(init_val=fx(5, 0.2)), time_unit='h'),
        'f': lambda: M.DegPrmMdl(
            {'w': M.FailMechMdl(lambda time, temp, lv: np.where(temp > lv, time * temp, 0), lv=fx(0.5, 0.3))},
            M.InitValMdl(init_val=fx(7, 0.3)), M.CondShiftMdl(lambda temp, k: k / temp, k=fx(1, 1)), time_unit='h',
        ),
        'g': lambda: M.DegPrmMdl(
            {'w': M.FailMechMdl(lambda time, temp, lv: 2.0 if temp > lv else 1, unitary_val=1, lv=fx(0.5, 0.3))},
            M.InitValMdl(init_val=fx(9, 0.3)), M.CondShiftMdl(lambda temp: 1.0 if temp < 2 else 1.5, unitary_val=1),
            lambda init, cond, w, own: init * cond * w if own > 0 else 0.0, own=fx(-1, 1), time_unit='h',
        ),
        'n': lambda: M.DegPrmMdl({'w': M.DegMechMdl()}, M.InitValMdl(init_val=fx(11, 1))),
    }
    return {p: all_[p]() for p in which}


def circ(which):
    out = {}
    if 'f' in which:
        out['cf'] = M.CircPrmMdl(lambda f, temp, k: f * k + temp, k=fx(2, 0.5))
    if 'p' in which and 'g' in which:
        out['cg'] = M.CircPrmMdl(lambda g, p: g if p > 0 else p)
    return out


def device(which=PRMS, order=None):
    mdls = {**prm_mdls(which), **circ(which)}
    return M.DeviceMdl(mdls)


def subsets(n):
    return [s for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]


def cases(tier):
    deep = tier == 'thorough'
    seqs = [''.join(s) for n in (1, 2, 3) for s in itertools.product(PHASES, repeat=n) if n < 3 or deep or len(set(s)) == 3 or s[0] == s[2]]
    shapes = [(2, 2, 2), (1, 3, 3)] if not deep else [(2, 2, 2), (3, 3, 2)]
    for dims in shapes:
        for sub in itertools.product(*(subsets(n) for n in dims)):
            if dims == (1, 3, 3) and sum(map(len, sub)) > 4:
                continue
            for seq in seqs:
                if sub != tuple(tuple(range(n)) for n in dims) and (deep or len(seq) < 3 or all(len(s) == 1 for s in sub)):
                    yield {'kind': 'pop', 'dims': list(dims), 'sub': [list(s) for s in sub], 'seq': seq}
    for sub in subsets(len(PRMS)):
        for seq in seqs if deep else ('a', 'b', 'ba', 'bc', 'cab', 'bab'):
            yield {'kind': 'prm', 'sub': list(sub), 'seq': seq}
    for sub in subsets(5):
        for seq in seqs if deep else ('a', 'b', 'ba', 'bc', 'cab', 'bab'):
            yield {'kind': 'mech', 'sub': list(sub), 'seq': seq}
    for use in itertools.product((0, 1), repeat=len(EXTRAS)):
        for seq in ('b', 'cab') if not deep else seqs[:12]:
            yield {'kind': 'extra', 'use': [e for e, u in zip(EXTRAS, use) if u], 'seq': seq}
    # Populations that are larger in one or all directions
    for dims in ((1, 1, 40), (1, 20, 2), (12, 1, 2), (4, 4, 6)):
        for seq in ('ab', 'cba', 'bcb'):
            for sub in ([[n - 1] for n in dims], [[0] for n in dims], [[n // 2] for n in dims], [list(range(n))[::3] for n in dims]):
                yield {'kind': 'pop', 'dims': list(dims), 'sub': sub, 'seq': seq}
    for kinds in itertools.product(sorted(BREAK), repeat=3):
        for seq in [''.join(q) for n in (1, 2, 3) for q in itertools.product(PHASES, repeat=n)]:
            if deep or len(seq) < 3 or len(set(seq)) == 3 or (seq[0] != seq[1] and len(set(kinds)) > 1):
                yield {'kind': 'inf', 'kinds': list(kinds), 'seq': seq}
    for mech, cond in itertools.product(UNITARY, repeat=2):
        for style in itertools.product((0, 1), repeat=3):
            for d in ([1, 1, 1], [2, 1, 2]):
                yield {'kind': 'unit', 'mech': mech, 'cond': cond, 'style': list(style), 'dims': d}
    dims = [(1, 1, 1), (1, 1, 3), (2, 1, 1), (1, 3, 1), (2, 2, 2)]
    if deep:
        dims += [(3, 2, 1), (1, 2, 2), (2, 3, 4)]
    for d in dims:
        for style in itertools.product((0, 1), repeat=7):
            yield {'kind': 'style', 'dims': list(d), 'style': list(style)}


def test_steps(seq, counts):
    steps = [M.MeasSpec(dict(counts), {'temp': 1.0})]
    for n, ph in enumerate(seq):
        t, h = PHASES[ph]
        steps += [M.StrsSpec({'temp': t}, timedelta(hours=h)), M.MeasSpec(dict(counts), {'temp': 1.0 + 2 * (n % 2)})]
    return steps


def cut(state, sub):
    def walk(v):
        if isinstance(v, dict):
            return {k: walk(x) for k, x in v.items()}
        return np.asarray(v)[np.ix_(*sub)]

    return state_cls()(walk(state.init_prm_vals), walk(state.init_deg_mech_vals), walk(state.latent_var_vals))


def keep_prms(state, which):
    names = set(which) | set(circ(which))
    pick = lambda d: {k: v for k, v in d.items() if k in names}  # noqa: E731
    return state_cls()(pick(state.init_prm_vals), pick(state.init_deg_mech_vals), pick(state.latent_var_vals))


_FULL = {}


def full(dims, seq):
    key = (dims, seq)
    if key not in _FULL:
        dev = device()
        counts = {p: dims[2] for p in dev.prm_mdl_list}
        state = g.gen_init_state(dev, counts, dims[1], dims[0])
        report = g.simulate(M.TestSpec(test_steps(seq, counts), dims[1], dims[0]), dev, M.PhysTestEnv(), state)
        _FULL[key] = (lib.by_label(report)[0], state)
    return _FULL[key]


def agree(prm, a, b, what, *args):
    tol = 1e-12 if prm in EXACT or prm == 'cf' else 3e-4
    require(lib.close(a, b, tol, 0), what + ': {!r} instead of {!r}', *args, a, b)


def run(case):
    res = Result()
    globals()['run_' + case['kind']](case, res)
    res.state(str(case))
    return res


def run_pop(case, res):
    dims, sub = tuple(case['dims']), case['sub']
    ref, state = full(dims, case['seq'])
    small = cut(state, sub)
    shape = tuple(len(s) for s in sub)
    dev = device()
    counts = {p: shape[2] for p in dev.prm_mdl_list}
    report = g.simulate(M.TestSpec(test_steps(case['seq'], counts), shape[1], shape[0]), dev, M.PhysTestEnv(), small)
    res.trace()
    got, _ = lib.by_label(report)
    require(len(got) == len(counts) * math.prod(shape) * (len(case['seq']) + 1), 'readings missing')
    for (step, prm, lo, c, d), v in got.items():
        orig = (sub[0][lo], sub[1][c], sub[2][d])
        agree(prm, v, ref[(step, prm) + orig], '{} of device {} in step {} changes when only {} are simulated', prm, orig, step, sub)
        res.step()
        res.outcome(prm, round(v, 6))


def run_prm(case, res):
    dims = (2, 1, 2)
    which = [PRMS[i] for i in case['sub']]
    ref, state = full(dims, case['seq'])
    for order in (which, which[::-1]):
        dev = device(order)
        counts = {p: dims[2] for p in dev.prm_mdl_list}
        small = keep_prms(state, which)
        report = g.simulate(M.TestSpec(test_steps(case['seq'], counts), dims[1], dims[0]), dev, M.PhysTestEnv(), small)
        res.trace()
        for key, v in lib.by_label(report)[0].items():
            agree(key[1], v, ref[key], '{} changes when only {} are simulated', key, order)
            res.step()
    res.outcome(tuple(which), case['seq'])


MECHS = ('thr', 'lin', 'pow', 'sat', 'fail')


def mech_of(name):
    if name == 'thr':
        return lib.mech('thr', a=fx(1e-3, 2e-4), th=fx(0.3, 0.8))
    if name == 'sat':
        return lib.mech('sat', a=fx(2.0, -0.1), th=fx(2e3, 3e2))
    if name == 'fail':
        return M.FailMechMdl(lambda time, temp, lv: np.where(temp > lv, time * 1e-3, 0), lv=fx(0.5, 0.6))
    return lib.mech(name, a=fx(1e-3, 2e-4) if name == 'lin' else fx(0.02, 0.005))


def run_mech(case, res):
    # The contributions of the mechanisms of a parameter add up: each one is the same with any others next to it
    dims = (1, 2, 2)

    def readings(names):
        dev = M.DeviceMdl({'p': M.DegPrmMdl({n: mech_of(n) for n in names}, time_unit='h')})
        report = g.simulate(M.TestSpec(test_steps(case['seq'], {'p': dims[2]}), dims[1], dims[0]), dev, M.PhysTestEnv())
        res.trace()
        return lib.by_label(report)[0]

    names = [MECHS[i] for i in case['sub']]
    alone = [readings([n]) for n in names]
    for order in (names, names[::-1]):
        for key, v in readings(order).items():
            want = sum(a[key] for a in alone)
            require(lib.close(v, want, 5e-4), '{}: mechanisms {} together {!r}, alone they add up to {!r}', key, order, v, want)
            res.step()
            res.outcome(tuple(names), round(v, 6))


# Equation pairs: (array form, single-value form)
EQ = {
    'init': (lambda a, b: np.where(a > 3, a + b, b), lambda a, b: a + b if a > 3 else b),
    'wear': (lambda time, temp, a: a * temp * np.log1p(time), lambda time, temp, a: a * temp * math.log1p(time)),
    'fail': (lambda time, temp, lv: np.where((temp > lv) & (time > 30), 10.3 * temp, 0), lambda time, temp, lv: 10.3 * temp if temp > lv and time > 30 else 0),
    'cond': (lambda temp, k: np.maximum(temp, k), lambda temp, k: max(temp, k)),
    'prm': (lambda init, cond, w, f, own: np.sqrt(init * own) + cond + w + f, lambda init, cond, w, f, own: math.sqrt(init * own) + cond + w + f),
    'circ': (lambda p, q, temp, k: np.where(p > q, np.exp(k) * temp, p - q), lambda p, q, temp, k: math.exp(k) * temp if p > q else p - q),
    'mult': (lambda time, temp, a: np.where(temp > 2, 1 + a * np.sqrt(time), 1 + a * time / 1e4), lambda time, temp, a: 1 + (a * math.sqrt(time) if temp > 2 else a * time / 1e4)),
}
PLACES = ('init', 'wear', 'fail', 'cond', 'prm', 'circ', 'mult')


def style_dev(style, flag):
    eq = {place: EQ[place][s] for place, s in zip(PLACES, style)}
    # The squared start value times own keeps p equal to its parts: own is 1 / init when measured
    return M.DeviceMdl(
        {
            'p': M.DegPrmMdl(
                {'w': M.DegMechMdl(eq['wear'], a=fx(0.02, 0.004)), 'f': M.FailMechMdl(eq['fail'], lv=fx(2.2, -0.35))},
                M.InitValMdl(eq['init'], a=fx(2.5, 0.3), b=fx(1, 0.25)),
                M.CondShiftMdl(eq['cond'], k=fx(0.5, 0.4)),
                eq['prm'],
                array_computable=not flag,
                own=fx(1, 0.1),
                time_unit='h',
            ),
            'q': M.DegPrmMdl(
                {'w': M.DegMechMdl(eq['mult'], unitary_val=1, a=fx(0.01, 0.001))},
                M.InitValMdl(init_val=fx(2, 0.2)),
                M.CondShiftMdl(unitary_val=1),
                (lambda init, cond, w: init * cond * w) if not style[4] else (lambda init, cond, w: float(init) * float(cond) * float(w)),
                time_unit='h',
            ),
            'c': M.CircPrmMdl(eq['circ'], k=fx(0.1, 0.2)),
        }
    )


# Things that concern other conditions, parameters or sensors only
EXTRAS = ('strs_cond', 'meas_cond', 'vrtn', 'instm', 'sensor', 'prm', 'latent', 'big_value')


def run_extra(case, res):
    dims, use = (2, 2, 2), set(case['use'])
    ref, state = full(dims, case['seq'])
    dev = device(PRMS)
    own = list(dev.prm_mdl_list)
    mdls = {p: dev.prm_mdl(p) for p in own}
    if 'prm' in use:
        # One more parameter that reacts to the extra conditions and is not measured, and one with another unit
        other = M.DegPrmMdl(
            {'w': M.DegMechMdl(lambda time, hum: hum * time, unitary_val=0), 'f': M.FailMechMdl(lambda time: 5.0, unitary_val=2, time_unit='s')},
            M.InitValMdl(init_val=fx(1, 1)), time_unit='d',
        )
        mdls = {'o': other, **mdls, 'o2': M.DegPrmMdl(M.FailMechMdl(lambda time: 3.0, 'z'))}
    if 'latent' in use:
        mdls['n'] = M.DegPrmMdl({'w': M.DegMechMdl()}, M.InitValMdl(init_val=fx(11, 1)), spare=fx(4, 4))
    dev = M.DeviceMdl(mdls)
    counts = {p: dims[2] for p in own}
    need = 'prm' in use
    hum = 1e9 if 'big_value' in use else 3.0
    strs = {'hum': hum} if 'strs_cond' in use or need else {}
    meas = {'hum': hum, 'pres': 2.0} if 'meas_cond' in use or 'sensor' in use else {}
    sens = {'hum': 3, 'pres': 1} if 'sensor' in use else {}
    steps = []
    for s in test_steps(case['seq'], counts):
        if isinstance(s, M.StrsSpec):
            steps.append(M.StrsSpec({**strs, **s.conditions}, s.duration))
        else:
            steps.append(M.MeasSpec({**sens, **s.measurements}, {**meas, **s.conditions}))
    env = M.PhysTestEnv(
        {'hum': M.EnvVrtnMdl(lib.Fixed(1, 5), lib.Fixed(2, 7), lib.Fixed(3, 9)), 'none': M.EnvVrtnMdl(lib.Fixed(1, 5))} if 'vrtn' in use else None,
        {'hum': M.MeasInstrument(None, 1), 'o': M.MeasInstrument(None, 2, None, (0, 1)), 'pres': M.MeasInstrument(None, 1, None, (0, 1))} if 'instm' in use else None,
    )
    given = None
    if not need and 'latent' not in use:
        given = state
    report = g.simulate(M.TestSpec(steps, dims[1], dims[0]), dev, env, given)
    res.trace()
    got, sensors = lib.by_label(report)
    got = {k: v for k, v in got.items() if k[1] in own}
    require(set(got) == set(ref), 'readings missing or added with {}', sorted(use))
    for key, v in got.items():
        agree(key[1], v, ref[key], '{} changes with unrelated {}', key, sorted(use))
        res.step()
        res.outcome(key[1], round(v, 6))


_STYLE = {}


def run_style(case, res):
    dims = tuple(case['dims'])

    def go(style, flag):
        dev = style_dev(style, flag)
        counts = {'p': dims[2], 'q': dims[2], 'c': dims[2]}
        out = []
        for state in (None, g.gen_init_state(dev, counts, dims[1], dims[0])):
            report = g.simulate(M.TestSpec(test_steps('abca', counts), dims[1], dims[0]), dev, M.PhysTestEnv(), state)
            res.trace()
            out.append(lib.by_label(report)[0])
        return out

    if dims not in _STYLE:
        _STYLE[dims] = go([0] * 7, False)
    for flag in (False, True):
        for got, ref in zip(go(case['style'], flag), _STYLE[dims]):
            require(set(got) == set(ref), 'style {} reads {}', case['style'], sorted(set(got) ^ set(ref)))
            for key, v in got.items():
                tol = 1e-12 if key[0] == 0 else 3e-4
                require(lib.close(v, ref[key], tol), '{} reads {!r} with single-value equations at {}, {!r} with array equations', key, v, [p for p, s in zip(PLACES, case['style']) if s], ref[key])
                res.step()
                res.outcome(key[1], round(v, 6))


# The neutral value of a mechanism or conditional shift may be any kind of number
UNITARY = {'int': 0, 'float': 0.0, 'bool': False, 'i64': np.int64(0), 'f32': np.float32(0), 'u8': np.uint8(0), 'np': np.bool_(False)}


def run_unit(case, res):
    dims = tuple(case['dims'])

    def go(mech, cond, style):
        fail = (lambda time, temp, lv: np.where(temp > lv, 1, 0)) if not style[0] else (lambda time, temp, lv: 1 if temp > lv else 0)
        shift = (lambda temp: np.maximum(temp - 1, 0)) if not style[1] else (lambda temp: max(temp - 1, 0))
        if not style[2]:
            comb = lambda init, cond, w: np.where(w > 0, 50.0, np.maximum(init + cond, 2))  # noqa: E731
        else:
            comb = lambda init, cond, w: 50.0 if w > 0 else max(init + cond, 2)  # noqa: E731
        dev = M.DeviceMdl(
            {'p': M.DegPrmMdl({'w': M.FailMechMdl(fail, unitary_val=mech, lv=fx(2.5, -0.4))}, M.InitValMdl(init_val=fx(1, 0.6)), M.CondShiftMdl(shift, unitary_val=cond), comb)}
        )
        report = g.simulate(M.TestSpec(test_steps('acb', {'p': dims[2]}), dims[1], dims[0]), dev, M.PhysTestEnv())
        res.trace()
        return lib.by_label(report)[0]

    ref = go(0, 0, (0, 0, 0))
    got = go(UNITARY[case['mech']], UNITARY[case['cond']], case['style'])
    require(set(got) == set(ref), 'readings missing or added: {}', sorted(set(got) ^ set(ref)))
    for key, v in got.items():
        require(lib.close(v, ref[key], 1e-6), '{} reads {!r} with neutral values of types {} and {} in style {}, {!r} with integers and array equations', key, v, case['mech'], case['cond'], case['style'], ref[key])
        res.step()
        res.outcome('unit', round(float(v), 6))


# Wear that becomes infinite for some devices only, under conditions of which some cannot wear at all. When each breaks down:
BREAK = {'soon': 5.0, 'late': 2500.0, 'never': 1e9}


def run_inf(case, res):
    def go(kinds):
        dev = M.DeviceMdl(
            {
                'p': M.DegPrmMdl(
                    {
                        'w': M.DegMechMdl(
                            lambda time, temp, lim: np.where(temp < 2, 0, np.where(time * temp > lim, np.inf, 1e-3 * time * temp)),
                            lim=M.LatentVar(lib.Cycle([BREAK[k] for k in kinds])),
                        ),
                        'x': lib.mech('lin', a=fx(1e-4, 0)),
                    },
                    M.InitValMdl(init_val=fx(2, 0)),
                    time_unit='h',
                )
            }
        )
        report = g.simulate(M.TestSpec(test_steps(case['seq'], {'p': len(kinds)}), 1, 1), dev, M.PhysTestEnv())
        res.trace()
        return lib.by_label(report)[0]

    together = go(case['kinds'])
    alone = {k: go([k]) for k in set(case['kinds'])}
    for key, v in together.items():
        kind = case['kinds'][key[4]]
        want = alone[kind][key[:4] + (0,)]
        require(lib.close(v, want, 3e-4), 'device {} that breaks down {} reads {!r} in step {} among {}, {!r} alone', key[4], kind, v, key[0], case['kinds'], want)
        res.step()
        res.outcome('inf', round(float(v), 6))
