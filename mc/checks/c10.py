"""C10 - an instrument reading is clip(round(true + error)).

The complete grid of instrument configurations (precision x error x limits) is applied to every value of a menu (all signs
and magnitudes, ties, zeros, infinities, not-a-number), alone and in every container, and to all orders of short value
lists; the oracle rounds with exact decimal arithmetic. Simulations with all subsets of configured instruments show the same in reports."""

import itertools
import math
from decimal import ROUND_HALF_EVEN, ROUND_HALF_UP, Context, Decimal

import numpy as np
import pandas as pd

from mc import lib
from mc.core import Result, require
from mc.lib import M, g

BOUNDS = {
    'quick': '8 precisions x 4 errors x 13 limits x 56 values x 7 containers; 24 instrument assignments x 4 populations in simulations, also 300 devices',
    'thorough': '12 precisions x 4 errors x 13 limits x 74 values x 7 containers and all value pairs and triples of 12; 24 instrument assignments x 16 populations in simulations, also 300 devices',
}
CHUNK = 4
ERRORS = {'none': None, 'pos': [0.013, 0.4, 0.00021], 'neg': [-0.5, -1.25], 'zero': [0.0]}
LIMITS = {'none': None, 'mid': (0.1, 50), 'neg': (-3, 2.5), 'zero': (0, 1), 'upz': (-40, 0), 'wide': (-1e9, 1e9), 'high': (1000, 2000.5), 'list': [-20, -0.004], 'up': (0.3, math.inf), 'down': (-math.inf, 4), 'tiny': (1e-6, 1e-3), 'nolow': (None, 12.5), 'notop': (-1, None)}
VALUES = [
    0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, 9.5, 9.95, 9.995, 99.95, 99.4999, 0.1, 0.15, 0.25, 0.35, -0.0449, 0.0451, 123.456, -123.456,
    1234567.0, 1e-9, 1.23456789e-7, -9.9999e-5, 1e6, 1e9, 3.14159265358979, -2.71828182845905, 1000.0, 1001.5, 999.9999, 10.0, 100.0,
    0.001, 0.01, 49.99, 50.01, 0.1000001, -3.0001, 2.4999, math.inf, -math.inf, math.nan, 7.0, 1.23456789e-12, -3.45678e-15, 9.87654e-20, 4.56789e13,
    7.89012e17, -5.55555e25, 1.7e308, -3.45678e300, 6.54321e-290, 4.56789e-307, -1.23456789e-312, 5e-324,
]
MORE = [10**k for k in range(-12, 13, 2)] + [4.5e-3, 6.5e-3, 1e100, -1e-100, 33333.3333]
CONTAINERS = ('float', 'np.float64', 'array', 'series', 'indexed', 'int', 'np.int64')


def cases(tier):
    precs = [None, 1, 2, 3, 4, 6, 8, 12] if tier == 'quick' else [None] + list(range(1, 12))
    for p, e, lim, c in itertools.product(precs, ERRORS, LIMITS, CONTAINERS):
        yield {'p': p, 'e': e, 'lim': lim, 'c': c, 'more': int(tier != 'quick')}
    if tier != 'quick':
        for p, e, lim in itertools.product((None, 2, 3), ERRORS, LIMITS):
            yield {'p': p, 'e': e, 'lim': lim, 'c': 'tuples', 'more': 1}
    dims = [(1, 1, 1), (2, 1, 2), (1, 3, 2), (2, 2, 3)] if tier == 'quick' else list(itertools.product((1, 2), (1, 3), (1, 2, 3, 4)))
    for conf in ('pe', 'e', 'el', 'p', 'l'):
        for d in ((1, 1, 300), (6, 7, 5), (150, 1, 2)):
            yield {'sim': conf, 'dims': list(d), 'assign': [1, 1, 1], 'form': 0}
    for d in dims:
        for assign in itertools.product((0, 1), repeat=3):
            for conf in ('p', 'pe', 'pel', 'e', 'l', 'pl', 'el', ''):
                yield {'sim': conf, 'dims': list(d)[:3], 'assign': list(assign), 'form': (sum(assign) + len(conf) + (conf < 'm')) % 2}


def allowed(val, prec):
    """All acceptable results of rounding val to prec significant figures (both neighbours if val is practically a tie)."""
    if prec is None or val == 0 or not math.isfinite(val):
        return [val]
    out = set()
    for v in (val, np.nextafter(val, math.inf), np.nextafter(val, -math.inf)):
        for mode in (ROUND_HALF_EVEN, ROUND_HALF_UP):
            out.add(float(Context(prec=prec, rounding=mode).create_decimal(Decimal(float(v)))))
            # Ties of the shortest decimal form
            out.add(float(Context(prec=prec, rounding=mode).create_decimal(Decimal(repr(float(v))))))
    return sorted(out)


def same(a, b):
    return a == b or (math.isnan(a) and math.isnan(b)) or (math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-13 * max(abs(a), abs(b)))


def expected(val, err, prec, lim):
    out = []
    for v in allowed(val + err if err is not None else val, prec):
        if lim is not None and not math.isnan(v):
            v = v if lim[0] is None else max(v, lim[0])
            v = v if lim[1] is None else min(v, lim[1])
        out.append(v)
    return out


def instrument(case):
    err = ERRORS[case['e']]
    rv = lib.Cycle(err) if err else None
    return M.MeasInstrument('x', case['p'], rv, LIMITS[case['lim']])


class Errors:
    """Model of the stream of error draws."""

    def __init__(self, vals):
        self.vals, self.n = vals, 0

    def next(self):
        if not self.vals:
            return None
        self.n += 1
        return self.vals[(self.n - 1) % len(self.vals)]


def run(case):
    res = Result()
    if 'sim' in case:
        return run_sim(case, res)
    vals = VALUES + (MORE if case['more'] else [])
    c, lim = case['c'], LIMITS[case['lim']]
    inst, errs = instrument(case), Errors(ERRORS[case['e']])
    if c in ('int', 'np.int64'):
        vals = [int(v) for v in vals if math.isfinite(v) and v == int(v) and abs(v) < 2**62] + [17, -17, 1995, 123456]
    if c == 'tuples':
        short = [0.0, 1.5, -1.25, 99.5, 1e-5, math.nan, math.inf, 12345.6, 0.1, -50.0, 2.5, 1000.4]
        groups = list(itertools.product(short, repeat=2)) + list(itertools.product(short[:7], repeat=3))
    elif c in ('float', 'np.float64', 'int', 'np.int64'):
        groups = [[v] for v in vals]
    else:
        groups = [[v] for v in vals] + [vals, vals[::-1], vals[3:20], vals[7:9]]
    for grp in groups:
        if c == 'array' or c == 'tuples':
            arg = np.array(grp)
        elif c == 'series':
            arg = pd.Series(grp)
        elif c == 'indexed':
            arg = pd.Series(grp, index=[(7 * i) % 101 + 5 for i in range(len(grp))])
        elif c == 'float':
            arg = float(grp[0])
        elif c == 'np.float64':
            arg = np.float64(grp[0])
        elif c == 'int':
            arg = int(grp[0])
        else:
            arg = np.int64(grp[0])
        keep = arg.copy() if hasattr(arg, 'copy') else arg
        got = inst.measure(arg)
        res.trace()
        if isinstance(arg, (np.ndarray, pd.Series)):
            require(type(got) is type(arg) and len(got) == len(grp), '{} of {} measured as {} of {}', type(arg), len(grp), type(got), len(got))
            require(np.array_equal(np.asarray(arg, float), np.asarray(keep, float), equal_nan=True), 'measuring changed the true values {} to {}', keep, arg)
            if isinstance(arg, pd.Series):
                require(list(got.index) == list(arg.index), 'order changed: {} to {}', list(arg.index), list(got.index))
            out = [float(v) for v in np.asarray(got)]
        else:
            require(np.ndim(got) == 0 and isinstance(got, (int, float, np.number)), '{!r} measured as {!r}', arg, got)
            out = [float(got)]
        for true, v in zip(grp, out):
            err = errs.next()
            want = expected(float(true), err, case['p'], lim)
            require(any(same(v, w) for w in want), 'true value {!r} + error {} with precision {} and limits {} reads {!r}, expected {}', true, err, case['p'], lim, v, want)
            res.step()
            res.outcome(repr(v))
    res.state(case['p'], case['e'], case['lim'], c)
    return res


def device():
    return M.DeviceMdl(
        {
            'p': M.DegPrmMdl({'w': M.FailMechMdl(lambda time: 0 * time)}, M.InitValMdl(init_val=M.LatentVar(lib.Fixed(-0.98765, 0.54321)))),
            'q': M.DegPrmMdl({'w': M.FailMechMdl(lambda time, temp: temp / 7)}, M.InitValMdl(init_val=M.LatentVar(lib.Fixed(100.777, 31.1)))),
            'c': M.CircPrmMdl(lambda p, q: p * q),
        }
    )


def run_sim(case, res):
    lots, chips, devs = case['dims']
    names = ('p', 'c', 'temp')
    confs = {'p': (3, False, None), 'pe': (4, True, None), 'pel': (2, True, (-50, 90)), 'e': (None, True, None), 'l': (None, False, (-50, 90)), 'pl': (3, False, (-50, 77.8)), 'el': (None, True, (-0.5, 78)), '': (None, False, None)}
    prec, has_err, lim = confs[case['sim']]
    inst, streams = {}, {}
    for n, (name, on) in enumerate(zip(names, case['assign'])):
        if on:
            # Error draws are never repeated so that each reading must have a fresh one
            streams[name] = lib.Token((k + 1) * 1e-3 * (-1) ** k for k in itertools.count(1000 * n))
            inst[name] = M.MeasInstrument(name, prec, streams[name] if has_err else None, lim)
    env = M.PhysTestEnv(None, inst if case['form'] else list(inst.values()))
    dev = device()
    state = g.gen_init_state(dev, {'p': devs, 'q': devs, 'c': devs}, chips, lots)
    steps = []
    for n in range(3):
        steps.append(M.MeasSpec({'p': devs, 'temp': 2, 'c': devs, 'q': max(devs - 1, 1)}, {'temp': 77.7777 + n}))
        steps.append(M.StrsSpec({'temp': 5.0}, 3, time_unit='h'))
    test = M.TestSpec(steps, chips, lots)
    truth = g.simulate(test, dev, M.PhysTestEnv(), state)
    report = g.simulate(test, dev, env, state)
    res.trace(2)
    rows, want = lib.readings(report), lib.readings(truth)
    require([r[:6] for r in rows] == [r[:6] for r in want], 'instruments change the rows of the report')
    used = {n: 0 for n in streams}
    for r, w in zip(rows, want):
        name, true, got = r[1], w[6], r[6]
        if name not in inst:
            require(got == true, 'parameter {} without instrument reads {!r} instead of {!r}', name, got, true)
            continue
        err = None
        if has_err:
            err = streams[name].issued[used[name]]
            used[name] += 1
        exp = expected(true, err, prec, lim)
        require(any(same(got, e) for e in exp), '{} true {!r} error {} reads {!r}, expected {}', r[:5], true, err, got, exp)
        res.step()
    for n, s in streams.items():
        require(len(s.issued) == used[n], '{} error draws for {} readings of {}', len(s.issued), used[n], n)
    res.state(str(case))
    res.outcome(tuple(r[6] for r in rows))
    return res
