"""C22 - the bounded minimiser finds the minimum of every element.

A complete grid of unimodal functions x bounds x positions of the minimum (inside, at and beyond the bounds) x precisions x
linear/logarithmic search is solved, for single elements and for all pairs and triples of positions in arrays of several
shapes, and every element is compared with the known minimum."""

import itertools
import math

import numpy as np

from mc.core import Result, require
from mc import lib  # noqa: F401
from gerabaldi.math import minimize

BOUNDS = {
    'quick': '10 functions x 9 bounds x 3 precisions x 45 positions alone, 9^2 pairs and 5^3 triples in 8 shapes; flat functions; '
    'bounds and functions differing between elements',
    'thorough': 'as quick with 405 positions alone, 17^2 pairs, 7^3 triples and 5 precisions',
}
CHUNK = 4
ASSUMPTIONS = ['the bounds are further apart than the requested precision']
LIMS = {
    False: ((0, 1), (-5, 5), (0, 1000), (-1e-3, 2e-3), (-300.0, -20.0)),
    True: ((1e-3, 1e10), (1, 1e6), (1e-3, 1e3), (1e-12, 1e-7)),
}
# Functions of the distance to the minimum (positive beyond it), as part of the searched width
FUNCS = {
    'abs': lambda d, k: np.abs(d),
    'square': lambda d, k: d**2,
    'quartic': lambda d, k: d**4,
    'cusp': lambda d, k: np.sqrt(np.abs(d)),
    'steep right': lambda d, k: np.where(d > 0, 50 * d, -d),
    'steep left': lambda d, k: np.where(d > 0, d, -50 * d),
    'saturating': lambda d, k: 1 - np.exp(-3 * np.abs(d)),
    'raised': lambda d, k: 5 + np.abs(d),
    'mixed': lambda d, k: np.where(d > 0, d**2, np.sqrt(np.abs(d))),
    'own': lambda d, k: np.abs(d) ** k,
}


def points(n):
    """Positions of the minimum as a part of the searched width."""
    return [i / (n - 1) for i in range(n)]


def cases(tier):
    quick = tier == 'quick'
    out = []
    for prec in (1e-2, 1e-5, 1e-7) if quick else (1e-1, 1e-2, 1e-4, 1e-5, 1e-7):
        for log in (False, True):
            for lims in range(len(LIMS[log])):
                for fn in FUNCS:
                    for kind in ('single', 'pairs', 'triples'):
                        out.append({'kind': kind, 'fn': fn, 'log': log, 'lims': lims, 'prec': prec, 'deep': not quick})
        for log in (False, True):
            out.append({'kind': 'arrays', 'log': log, 'prec': prec, 'deep': not quick})
            out.append({'kind': 'flat', 'log': log, 'prec': prec, 'deep': not quick})
            out.append({'kind': 'few', 'log': log, 'prec': prec, 'deep': not quick})
    return out


def run(case):
    res = Result()
    globals()[case['kind']](case, res)
    return res


def scale(x, log):
    return np.log10(x) if log else x


def problem(fn, lims, fracs, log, shape, k=None):
    """Function for the minimiser, its arguments and the true minima (in search coordinates)."""
    lo, hi = scale(np.asarray(lims[0], dtype=float), log), scale(np.asarray(lims[1], dtype=float), log)
    width = np.broadcast_to(hi - lo, shape)
    pos = lo + np.asarray(fracs, dtype=float).reshape(shape) * width
    pows = np.full(shape, 1.5) if k is None else np.asarray(k, dtype=float).reshape(shape)

    def func(x, target, conf, power):
        require(np.shape(x) == np.shape(target), 'function called with shape {} for {}', np.shape(x), np.shape(target))
        require(conf == {'a': 1}, 'function called with {} for an argument', conf)
        return FUNCS[fn]((scale(x, log) - target) / width, power)

    want = np.clip(pos, lo, hi)
    return func, {'target': pos, 'conf': {'a': 1}, 'power': pows}, want


def solve(fn, lims, fracs, log, shape, prec, res, k=None):
    func, args, want = problem(fn, lims, fracs, log, shape, k)
    keep = {n: dict(v) if isinstance(v, dict) else np.copy(v) for n, v in args.items()}
    got = minimize(func, args, lims, precision=prec, maxiter=500, log_gold=log)
    what = f'{fn} within {lims} log={log} precision {prec} minima at {np.asarray(fracs).tolist()} of the width'
    check(got, want, lims, log, prec, shape, what)
    for n, v in args.items():
        require(v == keep[n] if isinstance(v, dict) else np.array_equal(v, keep[n]), '{}: argument {} was changed', what, n)
    res.trace()
    res.step(int(np.prod(shape)))
    res.state(fn, str(lims), log, prec, tuple(np.ravel(fracs).tolist()), shape)
    res.outcome(tuple(np.ravel(got).tolist()))


def check(got, want, lims, log, prec, shape, what):
    require(np.shape(got) == shape, '{}: result has shape {} instead of {}', what, np.shape(got), shape)
    lo, hi = np.broadcast_to(np.asarray(lims[0], dtype=float), shape), np.broadcast_to(np.asarray(lims[1], dtype=float), shape)
    for g, w, a, b in zip(np.ravel(got), np.ravel(want), np.ravel(lo), np.ravel(hi)):
        slack = 1e-12 * max(abs(a), abs(b))
        require(a - slack <= g <= b + slack, '{}: result {} outside of the bounds', what, g)
        err = abs(float(scale(g, log)) - w)
        require(err <= prec * 1.001 + 1e-7 * max(abs(w), 1e-3), '{}: result {} is {} away from the minimum {}', what, g, err, w)


def single(case, res):
    pts = points(41 if not case['deep'] else 401) + [-0.5, 1.5, -3.0, 0.381966]
    for p in pts:
        for shape in ((), (1, 1, 1)):
            solve(case['fn'], LIMS[case['log']][case['lims']], [p], case['log'], shape, case['prec'], res)


def pairs(case, res):
    pts = points(7 if not case['deep'] else 15) + [-0.5, 1.5]
    for i, p in enumerate(itertools.product(pts, repeat=2)):
        shape = ((2,), (1, 2), (2, 1, 1), (1, 1, 2))[i % 4]
        solve(case['fn'], LIMS[case['log']][case['lims']], p, case['log'], shape, case['prec'], res, [0.7, 3])


def triples(case, res):
    pts = points(4 if not case['deep'] else 6) + [1.2]
    for i, p in enumerate(itertools.product(pts, repeat=3)):
        shape = ((3,), (1, 3, 1), (3, 1))[i % 3]
        solve(case['fn'], LIMS[case['log']][case['lims']], p, case['log'], shape, case['prec'], res, [1, 2, 0.5])


def arrays(case, res):
    """Larger arrays, and bounds that differ between the elements."""
    log, prec = case['log'], case['prec']
    for fn in FUNCS:
        for shape in ((2, 3, 4), (5, 1, 7), (60,), (3, 77, 2)):
            size = math.prod(shape)
            for turn in range(3):
                fr = [((i * 7 + turn) % size) / (size - 1) for i in range(size)]
                for lims in LIMS[log]:
                    solve(fn, lims, fr, log, shape, prec, res, [0.6 + (i % 5) for i in range(size)])
                if turn == 0 and len(shape) == 1:
                    # Bounds are wider than the precision
                    wide = [li for li in LIMS[log] if float(scale(li[1], log)) - float(scale(li[0], log)) > 2 * prec]
                    lo = np.array([wide[i % len(wide)][0] for i in range(size)], dtype=float).reshape(shape)
                    hi = np.array([wide[i % len(wide)][1] for i in range(size)], dtype=float).reshape(shape)
                    solve(fn, (lo, hi), fr, log, shape, prec, res, [0.6 + (i % 5) for i in range(size)])
    # No elements at all
    got = minimize(lambda x, c: x * 1.0, {'c': np.zeros((2, 0, 3))}, LIMS[log][0], precision=prec, log_gold=log)
    require(np.shape(got) == (2, 0, 3), 'empty problem gave shape {}', np.shape(got))


def flat(case, res):
    """Constant functions resolve to the upper bound, flat minima to one of their points, whatever the neighbours do."""
    log, prec = case['log'], case['prec']
    for lims in LIMS[log]:
        lo, hi = float(scale(lims[0], log)), float(scale(lims[1], log))
        pts = points(9 if not case['deep'] else 21)
        for p, q in itertools.product(pts, repeat=2):
            if q < p:
                continue
            low, high = lo + p * (hi - lo), lo + q * (hi - lo)
            for shape in ((), (3,)):
                # First element: plateau between low and high; second: constant; third: plain minimum at low
                def func(x, kind):
                    s = scale(x, log)
                    plat = np.maximum(np.maximum(low - s, s - high), 0)
                    return np.where(kind == 0, plat, np.where(kind == 1, 4.0, np.abs(s - low)))

                kinds = ((0,), (1,), (2,)) if shape == () else tuple(itertools.permutations((0, 1, 2)))
                for kind in kinds:
                    got = minimize(func, {'kind': np.array(kind).reshape(shape)}, lims, precision=prec, maxiter=500, log_gold=log)
                    require(np.shape(got) == shape, 'shape {} instead of {}', np.shape(got), shape)
                    for k, x in zip(kind, np.ravel(got)):
                        s = float(scale(x, log))
                        slack = prec * 1.001 + 1e-7 * max(abs(s), 1e-3)
                        a, b = {0: (low, high), 1: (hi, hi), 2: (low, low)}[k]
                        require(a - slack <= s <= b + slack and s <= hi + slack, 'flat {}..{} within {} log={}: element of kind {} resolved to {}', low, high, lims, log, k, x)
                    res.trace()
                    res.step(len(kind))
                    res.state('flat', log, lims, p, q, kind)


def few(case, res):
    """Limited iterations: still inside the bounds, and never worse with more of them."""
    log, prec = case['log'], case['prec']
    for fn in FUNCS:
        for lims in LIMS[log]:
            for p in points(11) + [-0.5, 1.5]:
                func, args, want = problem(fn, lims, [p, 1 - p], log, (2,), [0.7, 3])
                best = None
                for n in (0, 1, 2, 3, 5, 8, 13, 20, 50):
                    got = minimize(func, args, lims, precision=prec, maxiter=n, log_gold=log)
                    require(np.shape(got) == (2,), 'shape {}', np.shape(got))
                    require(all(lims[0] - 1e-12 * abs(lims[0]) <= x <= lims[1] + 1e-12 * abs(lims[1]) for x in got), '{} within {} after {} iterations: {}', fn, lims, n, got)
                    val = func(got, **args)
                    require(best is None or np.all(val <= best + 1e-12), '{} within {} after {} iterations: worse than with fewer', fn, lims, n)
                    best = val
                    res.trace()
                    res.step(2)
                res.state('few', fn, log, lims, p)
