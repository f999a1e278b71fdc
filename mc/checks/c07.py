"""C07 - time units are only notation.

All spellings of a menu of physical durations (every unit name, alias, no unit, timedelta) in stress steps, loops and
elapsed times, and all assignments of units to mechanism, parameter and device are simulated. A failure mechanism that
returns its time argument shows exactly what the model received; degradation mechanisms whose rate is converted to the
unit must give the same wear."""

import itertools
from datetime import timedelta

import numpy as np

from mc import lib
from mc.core import Result, require
from mc.lib import M, g

BOUNDS = {
    'quick': '12 spellings x 10 durations (pairs of phases), 11 units x 7 numeric types, unit assignments over 6 units at 3 levels plus all aliases, 4 mechanism shapes x 5 units x 6 pairs of durations',
    'thorough': '12 spellings x 10 durations squared, 11 units x 7 numeric types, unit assignments over 11 names at 3 levels, 4 mechanism shapes x 5 units x 81 triples of durations',
}
ASSUMPTIONS = ['a mechanism object belongs to one device model; equivalent times are resolved to 0.001 of the mechanism time unit']
UNIT = {
    'days': timedelta(days=1),
    'd': timedelta(days=1),
    'hours': timedelta(hours=1),
    'h': timedelta(hours=1),
    None: timedelta(hours=1),
    'seconds': timedelta(seconds=1),
    's': timedelta(seconds=1),
    'milliseconds': timedelta(milliseconds=1),
    'ms': timedelta(milliseconds=1),
    'microseconds': timedelta(microseconds=1),
    'us': timedelta(microseconds=1),
}
SHORT = [None, 'd', 'h', 's', 'ms', 'us']
DURS = {
    'us': timedelta(microseconds=1),
    'ms': timedelta(milliseconds=7),
    's': timedelta(seconds=2.5),
    'min': timedelta(minutes=90),
    'h36': timedelta(hours=36),
    'd': timedelta(days=1),
    'wk': timedelta(weeks=6),
    'kh': timedelta(hours=1000),
    'y': timedelta(days=3653),
    'yy': timedelta(hours=1e6),
}


def cases(tier):
    deep = tier == 'thorough'
    # Spellings of durations: phases of two different lengths in two spellings, the loop and the elapsed time
    names = list(UNIT) + ['td']
    for (u1, d1), (u2, d2) in itertools.product(itertools.product(names, DURS), repeat=2):
        if deep or u1 == u2 or d2 == 'kh' and u2 in ('h', 'us', 'td'):
            yield {'kind': 'spell', 'phases': [[u1, d1], [u2, d2]]}
    for u, d, n in itertools.product(names, DURS, (1, 2, 5)):
        yield {'kind': 'loop', 'unit': u, 'dur': d, 'n': n}
    # A number of units in any numeric type
    for u, t, n in itertools.product(UNIT, NUMBERS, (1, 3, 120)):
        yield {'kind': 'number', 'unit': u, 'type': t, 'n': n}
    # Units of the models
    levels = list(UNIT) if deep else SHORT
    done = set()
    combos = list(itertools.product(levels, repeat=3))
    for name in UNIT:
        combos += [(name, 's', None), (None, name, 'd'), (None, None, name), (name, None, 'us'), (None, name, None), ('ms', name, 's')]
    for combo in combos:
        if combo not in done:
            done.add(combo)
            for single in (0, 1, 2):
                yield {'kind': 'units', 'units': list(combo), 'single': single}
    # Wear does not depend on the unit
    menu = list(itertools.product(('s', 'h36', 'kh', 'y', 'min', 'yy'), repeat=2))
    if deep:
        menu += list(itertools.product(('s', 'min', 'wk', 'y'), repeat=3))
    for durs in menu:
        for kind in ('lin', 'pow', 'log', 'neg'):
            yield {'kind': 'wear', 'mech': kind, 'durs': list(durs)}


def spelled(unit, dur):
    """(duration, unit) arguments, None if this length cannot be written exactly in the unit."""
    if unit == 'td':
        return DURS[dur], None
    num = DURS[dur] / UNIT[unit]
    if num == int(num):
        num = int(num)
    return (num, unit) if num * UNIT[unit] == DURS[dur] and _fits(num, unit) else None


def _fits(num, unit):
    full = {'d': 'days', 'h': 'hours', None: 'hours', 's': 'seconds', 'ms': 'milliseconds', 'us': 'microseconds'}
    return timedelta(**{full.get(unit, unit): num}) == num * UNIT[unit]


def show_time(time):
    return time


def strs(num, unit, temp=1.0):
    return M.StrsSpec({'temp': temp}, num, 'x', unit) if unit is not None else M.StrsSpec({'temp': temp}, num, 'x')


def simple_dev():
    return M.DeviceMdl(
        {
            'f': M.DegPrmMdl({'w': M.FailMechMdl(show_time, time_unit='s')}),
            'p': M.DegPrmMdl({'w': lib.mech('pow', a=M.LatentVar(deter_val=0.01))}, time_unit='h'),
        }
    )


def run(case):
    res = Result()
    globals()['run_' + case['kind']](case, res)
    res.state(str(case))
    return res


def run_spell(case, res):
    phases = [spelled(*ph) for ph in case['phases']]
    if None in phases:
        return
    reports = []
    for form in (phases, [(DURS[d], None) for _, d in case['phases']]):
        steps = []
        for num, unit in form:
            steps += [strs(num, unit), M.MeasSpec({'f': 1, 'p': 1}, {'temp': 1.0})]
        reports.append(g.simulate(M.TestSpec(steps), simple_dev(), M.PhysTestEnv()))
        res.trace()
    want, total = [], timedelta()
    for _, d in case['phases']:
        want += [(DURS[d], total, total + DURS[d]), (timedelta(), total + DURS[d], total + DURS[d])]
        total += DURS[d]
    for r in reports:
        got = [tuple(row[k].to_pytimedelta() for k in ('duration', 'start time', 'end time')) for row in lib.summary(r)]
        require(got == want, 'durations {} reported as {}, expected {}', case['phases'], got, want)
    a, b = (lib.table_key(r) for r in reports)
    require(a == b, 'spelling {} gives {} instead of {}', case['phases'], a, b)
    first = DURS[case['phases'][0][1]]
    val = lib.by_label(reports[0])[0][(1, 'f', 0, 0, 0)]
    require(lib.close(val, first / UNIT['s']), 'model in seconds got {!r} for {}', val, first)
    res.step(len(want))
    res.outcome(a)


def run_loop(case, res):
    form = spelled(case['unit'], case['dur'])
    if form is None:
        return
    num, unit = form
    total = num * case['n'] if not isinstance(num, float) else (DURS[case['dur']] * case['n']) / UNIT[unit]
    if unit is not None and timedelta(0) != total * UNIT[unit] - DURS[case['dur']] * case['n']:
        return
    test = M.TestSpec()
    step = strs(num, unit)
    # A step of one form in a loop of the other
    test.append_steps([step, M.MeasSpec({'f': 1}, {'temp': 1})], total, unit)
    require(len(test.steps) == 2 * case['n'], 'loop of {} over {} gives {} steps', case['dur'], (total, unit), len(test.steps))
    test2 = M.TestSpec()
    test2.append_steps(step, DURS[case['dur']] * case['n'])
    require(len(test2.steps) == case['n'], 'timedelta loop gives {} steps', len(test2.steps))
    res.trace()
    res.step(case['n'])
    if UNIT.get(unit, None) == timedelta(hours=1) and unit != 'td':
        state = g.gen_init_state(simple_dev(), {'f': 1, 'p': 1}, elapsed_time=num)
        state2 = g.gen_init_state(simple_dev(), {'f': 1, 'p': 1}, elapsed_time=DURS[case['dur']])
        for s in (state, state2):
            report = g.simulate(test, simple_dev(), M.PhysTestEnv(), s)
            end = lib.summary(report)[-1]['end time'].to_pytimedelta()
            require(end == DURS[case['dur']] * (1 + case['n']), 'test after {} ends at {}', num, end)
            first = lib.readings(report)[0]
            require(first[5].to_pytimedelta() == 2 * DURS[case['dur']], 'first reading at {}', first[5])
            require(lib.close(first[6], DURS[case['dur']] / UNIT['s']), 'model got {!r}', first[6])
    res.outcome(len(test.steps))


NUMBERS = {'int': int, 'float': float, 'i64': np.int64, 'i32': np.int32, 'u8': np.uint8, 'f64': np.float64, 'f32': np.float32}


def run_number(case, res):
    unit, n = case['unit'], NUMBERS[case['type']](case['n'])
    span = case['n'] * UNIT[unit]
    step = strs(n, unit)
    require(step.duration == span, '{!r} {} lasts {}', n, unit, step.duration)
    test = M.TestSpec()
    test.append_steps([step, M.MeasSpec({'f': 1}, {'temp': 1})], NUMBERS[case['type']](2 * case['n']), unit)
    require(len(test.steps) == 4, 'loop of twice {!r} {} gives {} steps', n, unit, len(test.steps))
    start = timedelta()
    state = None
    if UNIT[unit] == UNIT['h']:
        state, start = g.gen_init_state(simple_dev(), {'f': 1, 'p': 1}, elapsed_time=n), span
    report = g.simulate(test, simple_dev(), M.PhysTestEnv(), state)
    rows = lib.readings(report)
    require([r[5].to_pytimedelta() for r in rows] == [start + span, start + 2 * span], 'readings at {}', [r[5] for r in rows])
    require(lib.close(rows[0][6], span / UNIT['s']), 'model in seconds got {!r} for {!r} {}', rows[0][6], n, unit)
    res.trace()
    res.step(4)
    res.outcome('number', rows[0][6])


class OwnFail(M.FailMechMdl):
    pass


class OwnDeg(M.DegMechMdl):
    pass


def run_units(case, res):
    # 0: several models, 1: single models given alone, 2: models of a class of the user's own
    fail, deg = (OwnFail, OwnDeg) if case['single'] == 2 else (M.FailMechMdl, M.DegMechMdl)
    m_unit, p_unit, d_unit = case['units']
    eff = next((u for u in (m_unit, p_unit, d_unit) if u is not None), None)
    # A second mechanism and a second parameter with their own units must not be affected
    def prm():
        if case['single'] == 1:
            return M.DegPrmMdl(fail(show_time, 'w', time_unit=m_unit), prm_name='p', time_unit=p_unit)
        return M.DegPrmMdl(
            {
                'v': M.FailMechMdl(lambda time: 0 * time, time_unit='d'),
                'w': fail(show_time, time_unit=m_unit),
                'x': M.FailMechMdl(lambda time: 0 * time, time_unit='us'),
            },
            time_unit=p_unit,
        )

    def lin():
        rate = 1e-3 * (UNIT[eff] / UNIT['h'])
        return M.DegPrmMdl({'w': deg(lib.KINDS['lin'].vec, time_unit=m_unit, a=M.LatentVar(deter_val=rate))}, time_unit=p_unit)

    for dur in ('s', 'h36', 'y'):
        if case['single'] == 1:
            dev = M.DeviceMdl(prm(), time_unit=d_unit)
            counts = {'p': 1}
        else:
            dev = M.DeviceMdl(
                {
                    'a': M.DegPrmMdl({'w': M.FailMechMdl(show_time)}),
                    'p': prm(),
                    'q': lin(),
                    'b': M.DegPrmMdl({'w': M.FailMechMdl(show_time)}, time_unit='ms'),
                    'z': M.DegPrmMdl({'w': M.FailMechMdl(show_time, time_unit='s'), 'x': M.FailMechMdl(lambda time: -1e20)}, time_unit='d'),
                },
                'dev',
                d_unit,
            )
            counts = {'p': 1, 'a': 1, 'b': 1, 'q': 2, 'z': 1}
        steps = [M.StrsSpec({'temp': 2.0}, DURS[dur]), M.MeasSpec(counts, {'temp': 2.0})]
        report = g.simulate(M.TestSpec(steps), dev, M.PhysTestEnv())
        res.trace()
        vals, _ = lib.by_label(report)
        want = DURS[dur] / UNIT[eff]
        require(lib.close(vals[(1, 'p', 0, 0, 0)], want), 'units {} model got time {!r} for {}, expected {}', case['units'], vals[(1, 'p', 0, 0, 0)], DURS[dur], want)
        if case['single'] != 1:
            for name, unit in (('a', d_unit), ('b', 'ms')):
                v = vals[(1, name, 0, 0, 0)]
                require(lib.close(v, DURS[dur] / UNIT[unit]), 'parameter {} of units {} got {!r}', name, case['units'], v)
            v = vals[(1, 'z', 0, 0, 0)]
            require(v == -1e20 + DURS[dur] / UNIT['s'], 'z reads {!r}', v)
            rate = 1e-3 * (UNIT[eff] / UNIT['h'])
            rng = lib.advance('lin', {'a': rate}, 2.0, (0.0, 0.0), want)
            for d in (0, 1):
                require(lib.inside(vals[(1, 'q', 0, 0, d)], rng), 'units {} wear {!r} expected {}', case['units'], vals[(1, 'q', 0, 0, d)], rng)
        res.step(len(counts))
        res.outcome(dur, repr(want))


LAT = {'lin': 1e-3, 'pow': 0.02, 'log': 0.05, 'neg': 0.01}


def run_wear(case, res):
    kind = case['mech']
    exp = {'lin': 1, 'pow': 0.3, 'neg': 0.5}

    def wear_dev(unit):
        scale = UNIT[unit] / UNIT['h']
        if kind == 'log':
            import numpy as np

            return M.DegMechMdl(lambda time, temp, a: a * temp * np.log1p(time * scale), time_unit=unit, a=M.LatentVar(deter_val=LAT[kind]))
        return lib.mech(kind, time_unit=unit, a=M.LatentVar(deter_val=LAT[kind] * scale ** exp[kind]))

    units = ['d', 'h', 's', 'ms', 'us']
    dev = M.DeviceMdl({'p_' + u: M.DegPrmMdl({'w': wear_dev(u)}) for u in units})
    temps = [1.0, 2.0, 0.5]
    steps = []
    for t, d in zip(temps, case['durs']):
        steps += [M.StrsSpec({'temp': t}, DURS[d]), M.MeasSpec({'p_' + u: 1 for u in units}, {'temp': 1.0})]
    report = g.simulate(M.TestSpec(steps), dev, M.PhysTestEnv())
    res.trace()
    vals, _ = lib.by_label(report)
    for u in units:
        hours = UNIT[u] / UNIT['h']
        cur = (0.0, 0.0)
        for n, d in enumerate(case['durs']):
            # In hours, with the resolution of the unit
            cur = lib.advance(kind, {'a': LAT[kind]}, temps[n], cur, DURS[d] / UNIT['h'], t_min=lib.T_MIN * hours)
            got = vals[(2 * n + 1, 'p_' + u, 0, 0, 0)]
            require(lib.inside(got, cur), '{} mechanism in {} reads {!r} after {}, expected {}', kind, u, got, case['durs'][: n + 1], cur)
            res.step()
            res.outcome(u, round(got, 8))
