"""Building blocks shared by the checks: harness random variables, equation library with analytic inverses, table
readers and the per-device reference simulator."""

from __future__ import annotations

import itertools
import math
from datetime import timedelta

import numpy as np

from mc import core
from mc.core import Violation, require  # noqa: F401

g = core.load()
import gerabaldi.models as M  # noqa: E402

HOUR = timedelta(hours=1)


# --------------------------------------------------------------------------------------------------------------------
# Random variables under the control of the harness (public API only: subclass of Deterministic with its own sample)
class Cycle(M.Deterministic):
    """Yields the given values one after the other, starting again at the end; never the same draw twice in a row."""

    def __init__(self, vals):
        super().__init__(vals[0])
        self.vals, self.pos = list(vals), 0

    def sample(self, quantity=1):
        out = np.array([self.vals[(self.pos + i) % len(self.vals)] for i in range(quantity)], dtype=float)
        self.pos = (self.pos + quantity) % len(self.vals)
        return out


class Fixed(M.Deterministic):
    """Stateless: the i-th value of a request is always start + i * inc."""

    def __init__(self, start=0.0, inc=1.0):
        super().__init__(start)
        self.start, self.inc = start, inc

    def sample(self, quantity=1):
        return self.start + self.inc * np.arange(quantity, dtype=float)


class Token(M.Deterministic):
    """Every draw ever made is a different token; the tokens issued are recorded in order."""

    def __init__(self, tokens):
        super().__init__(0)
        self.source, self.issued = iter(tokens), []

    def sample(self, quantity=1):
        new = [next(self.source) for _ in range(quantity)]
        self.issued.extend(new)
        return np.array(new, dtype=float)


def primes(start, skip=0):
    """Unbounded stream of primes above start."""
    n = start
    while True:
        if n > 1 and all(n % k for k in range(2, int(n**0.5) + 1)):
            if skip:
                skip -= 1
            else:
                yield n
        n += 1


# --------------------------------------------------------------------------------------------------------------------
# Reading reports
def _null(v):
    return v is None or (isinstance(v, float) and math.isnan(v))


def _label(v):
    return None if _null(v) else int(v)


def readings(report):
    """Rows of the measurement table in order: (step, param, lot, chip, dev, time, value)."""
    m = report.measurements
    if m is None or len(m) == 0:
        return []
    cols = [m[c].tolist() for c in ('step #', 'param', 'lot #', 'chip #', 'device #', 'time', 'measured')]
    return [(int(s), p, _label(lo), _label(c), _label(d), t, float(v)) for s, p, lo, c, d, t, v in zip(*cols)]


def by_label(report):
    """(step, param, lot, chip, dev) -> value of the device parameter readings, and the list of sensor readings."""
    out, sensors = {}, {}
    for s, p, lo, c, d, _, v in readings(report):
        if lo is None and c is None and d is None:
            sensors.setdefault((s, p), []).append(v)
            continue
        key = (s, p, lo, c, d)
        require(key not in out, 'label {} read twice', key)
        out[key] = v
    return out, sensors


def summary(report):
    """List of dicts, one per row of the test summary."""
    t = report.test_summary
    return [] if t is None or len(t) == 0 else t.to_dict('records')


def table_key(report):
    """Hashable image of everything a report shows, for equality of reports."""
    meas = tuple((s, p, lo, c, d, str(t), repr(v)) for s, p, lo, c, d, t, v in readings(report))
    summ = tuple(
        tuple(sorted((str(k), 'nan' if _null(v) else repr(v)) for k, v in row.items())) for row in summary(report)
    )
    return meas, summ, report.test_name, report.test_description, report.time_unit


def close(a, b, rel=1e-9, abs_=1e-12):
    if a == b or (math.isnan(a) and math.isnan(b)):
        return True
    return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


# --------------------------------------------------------------------------------------------------------------------
# Mechanism equation library. Each kind: vectorised equation, the same for single values, time -> value and
# (value -> time needed, or inf if never reached), unitary value.
TOL = 1e-4
T_MIN = 1.2e-3  # resolution of equivalent stress times, in mechanism time units
T_MAX = 0.9e10  # hours


class Kind:
    def __init__(self, name, vec, sca, val, inv, unitary=0):
        self.name, self.vec, self.sca, self.val, self.inv, self.unitary = name, vec, sca, val, inv, unitary


def _lin_v(time, temp, a):
    return a * temp * time


def _lin_s(time, temp, a):
    return float(a) * float(temp) * math.fsum([time]) if time >= 0 else 0.0


def _pow_v(time, temp, a):
    return a * temp * time**0.3


def _pow_s(time, temp, a):
    return a * temp * math.pow(time, 0.3)


def _neg_v(time, temp, a):
    return -a * temp * np.sqrt(time)


def _neg_s(time, temp, a):
    return -a * temp * math.sqrt(time)


def _log_v(time, temp, a):
    return a * temp * np.log1p(time)


def _log_s(time, temp, a):
    return a * temp * math.log1p(time)


def _sup_v(time, temp, a):
    return a * temp * time**2


def _sup_s(time, temp, a):
    return a * temp * math.pow(time, 2)


def _thr_v(time, temp, a, th):
    return a * np.maximum(temp - th, 0) * time


def _thr_s(time, temp, a, th):
    return a * (temp - th) * time if temp > th else 0.0


def _inc_v(time, temp, a, th):
    return a * temp * np.maximum(time - th, 0)


def _inc_s(time, temp, a, th):
    return a * temp * (time - th) if time > th else 0.0


def _sat_v(time, temp, a, th):
    return a * temp * (1 - np.exp(-time / th))


def _sat_s(time, temp, a, th):
    return a * temp * (1 - math.exp(-time / th))


def _nthr_v(time, temp, a, th):
    return -a * np.maximum(temp - th, 0) * np.sqrt(time)


def _nthr_s(time, temp, a, th):
    return -a * (temp - th) * math.sqrt(time) if temp > th else 0.0


def _nsat_v(time, temp, a, th):
    return 1 + a * temp * np.expm1(-time / th)


def _nsat_s(time, temp, a, th):
    return 1 + a * temp * math.expm1(-time / th)


def _mul_v(time, temp, a):
    return 1 + a * temp * np.sqrt(time)


def _mul_s(time, temp, a):
    return 1 + a * temp * math.sqrt(time)


def _dec_v(time, temp, a):
    return 1 / (1 + a * temp * time)


def _dec_s(time, temp, a):
    return 1 / (1 + float(a) * float(temp) * math.fsum([time]))


def _inv_thr(d, temp, a, th):
    if d <= 0:
        return 0.0
    return d / (a * (temp - th)) if temp > th else math.inf


def _inv_sat(d, temp, a, th):
    if d <= 0:
        return 0.0
    return -th * math.log(1 - d / (a * temp)) if d < a * temp else math.inf


def _inv_nsat(d, temp, a, th):
    if d >= 1:
        return 0.0
    return -th * math.log(1 - (1 - d) / (a * temp)) if 1 - d < a * temp else math.inf


KINDS = {
    # Nothing happens until some time of continuous stress
    'inc': Kind(
        'inc',
        _inc_v,
        _inc_s,
        lambda t, temp, a, th: a * temp * max(t - th, 0),
        lambda d, temp, a, th: 0.0 if d <= 0 else th + d / (a * temp),
    ),
    # Decreasing values with a threshold, and decreasing from a base of one towards a saturation level
    'nthr': Kind(
        'nthr',
        _nthr_v,
        _nthr_s,
        lambda t, temp, a, th: -a * max(temp - th, 0) * t**0.5,
        lambda d, temp, a, th: 0.0 if d >= 0 else (d / (a * (temp - th))) ** 2 if temp > th else math.inf,
    ),
    'nsat': Kind(
        'nsat', _nsat_v, _nsat_s, lambda t, temp, a, th: 1 + a * temp * math.expm1(-t / th), _inv_nsat, 1
    ),
    'lin': Kind('lin', _lin_v, _lin_s, lambda t, temp, a: a * temp * t, lambda d, temp, a: d / (a * temp)),
    'pow': Kind(
        'pow', _pow_v, _pow_s, lambda t, temp, a: a * temp * t**0.3, lambda d, temp, a: (d / (a * temp)) ** (1 / 0.3)
    ),
    'neg': Kind(
        'neg', _neg_v, _neg_s, lambda t, temp, a: -a * temp * t**0.5, lambda d, temp, a: (d / (a * temp)) ** 2
    ),
    'log': Kind(
        'log',
        _log_v,
        _log_s,
        lambda t, temp, a: a * temp * math.log1p(t),
        lambda d, temp, a: math.expm1(d / (a * temp)) if d / (a * temp) < 600 else math.inf,
    ),
    'sup': Kind('sup', _sup_v, _sup_s, lambda t, temp, a: a * temp * t**2, lambda d, temp, a: (d / (a * temp)) ** 0.5),
    'thr': Kind('thr', _thr_v, _thr_s, lambda t, temp, a, th: a * max(temp - th, 0) * t, _inv_thr),
    'sat': Kind('sat', _sat_v, _sat_s, lambda t, temp, a, th: a * temp * (1 - math.exp(-t / th)), _inv_sat),
    'mul': Kind(
        'mul',
        _mul_v,
        _mul_s,
        lambda t, temp, a: 1 + a * temp * t**0.5,
        lambda d, temp, a: (max(d - 1, 0) / (a * temp)) ** 2,
        1,
    ),
    'dec': Kind(
        'dec',
        _dec_v,
        _dec_s,
        lambda t, temp, a: 1 / (1 + a * temp * t),
        lambda d, temp, a: max(1 / d - 1, 0) / (a * temp),
        1,
    ),
}


def mech(kind, style='vec', time_unit=None, name=None, **latents):
    k = KINDS[kind]
    return M.DegMechMdl(k.vec if style == 'vec' else k.sca, name, k.unitary, time_unit, **latents)


def advance(kind, lat, temp, cur, dur, t_max=T_MAX, t_min=T_MIN):
    """One stress phase of one device: cur is the pair of extreme degradation values possible so far, dur the duration
    in the unit of the mechanism. Returns the pair of extreme values after the phase."""
    k = KINDS[kind]
    ends = []
    for d, sign in ((cur[0], -1), (cur[1], 1)):
        t = k.inv(d, temp, **lat)
        if t > 0.5 * t_max:
            # The longest equivalent time considered is a resolution limit, thus either outcome is fine close to it
            ends.append(d)
            if t > 2.5 * t_max:
                continue
        for s in (-1, 1):
            te = t * (1 + s * TOL)
            if s > 0 and te < t_min:
                te = t_min
            ends.append(k.val(te + dur, temp, **lat))
    return (min(ends), max(ends))


def unreachable(kind, lat, temp, cur, t_max=T_MAX):
    k = KINDS[kind]
    return min(k.inv(cur[0], temp, **lat), k.inv(cur[1], temp, **lat)) > 2.5 * t_max


def corners(fn, *pairs):
    vals = [fn(*c) for c in itertools.product(*pairs)]
    return min(vals), max(vals)


def inside(v, pair, rel=1e-9, abs_=1e-12):
    slack = abs_ + rel * max(abs(pair[0]), abs(pair[1]))
    return pair[0] - slack <= v <= pair[1] + slack


def positions(dims):
    return itertools.product(*(range(n) for n in dims))


def sequences(alphabet, depth, start=0):
    for n in range(start, depth + 1):
        yield from itertools.product(alphabet, repeat=n)


# --------------------------------------------------------------------------------------------------------------------
# Object graphs
def walk(obj, seen=None, path=''):
    """(path, container, key, value) of everything reachable through collections and objects of the package."""
    seen = set() if seen is None else seen
    if id(obj) in seen:
        return
    seen.add(id(obj))
    if isinstance(obj, dict):
        items = list(obj.items())
    elif isinstance(obj, (list, tuple)):
        items = list(enumerate(obj))
    elif type(obj).__module__.startswith(('gerabaldi', 'mc.')):
        slots = [s for c in type(obj).__mro__ for s in getattr(c, '__slots__', ()) if hasattr(obj, s)]
        items = [(k, getattr(obj, k)) for k in list(getattr(obj, '__dict__', {})) + slots if k != '_generator']
    else:
        return
    for k, v in items:
        yield f'{path}.{k}', obj, k, v
        yield from walk(v, seen, f'{path}.{k}')


def deep_image(obj):
    """Value of everything reachable, to notice any change."""
    out = []
    for path, _, _, v in walk(obj):
        if isinstance(v, (int, float, str, type(None), timedelta)):
            out.append((path, repr(v)))
        elif isinstance(v, np.ndarray):
            out.append((path, v.tolist(), str(v.dtype)))
        elif hasattr(v, 'to_dict'):
            out.append((path, v.to_string()))
        else:
            out.append((path, type(v).__name__, len(v) if isinstance(v, (list, dict, tuple)) else 0))
    return sorted(out, key=lambda e: e[0])
