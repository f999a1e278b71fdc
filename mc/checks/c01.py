"""C01 - the report timeline mirrors the executed test.

Every sequence of steps up to a length, over an alphabet of measurement and stress steps that differ in name,
conditions, duration notation and measured parameters, from several initial elapsed times and population shapes, is run
through simulate() and both report tables are compared with a reference timeline."""

from datetime import timedelta

import numpy as np
import pandas as pd

from mc import lib
from mc.core import Result, require
from mc.lib import M, g

BOUNDS = {
    'quick': 'all step sequences of length 0-4 over 6 steps x 3 start states (length 4: 1 start state), 2 shapes; 0-3 over 7 less usual steps; loops to 300 steps',
    'thorough': 'all step sequences of length 0-5 over 6 steps x 3 start states (length 5: 1 start state), 2 shapes; 0-4 over 7 less usual steps; loops to 600 steps',
}
ASSUMPTIONS = ['step durations are whole microseconds (the resolution of timedelta)']

MENU = {
    'm': ('measure', 'unspecified', {'temp': 25}, None, {'p': 1}),
    'n': ('measure', 'second', {'temp': 300, 'v': 0}, None, {'q': 2, 'temp': 1, 'p': 2}),
    'e': ('measure', 'empty', {}, None, {'q': 1}),
    's': ('stress', 'unspecified', {'temp': 100}, timedelta(hours=1), None),
    't': ('stress', 'T', {'temp': 3, 'v': 2}, timedelta(minutes=7, seconds=3), None),
    'u': ('stress', 'second', {'temp': 0, 'v': -1.0}, timedelta(milliseconds=250), None),
    # Less usual steps, for a device that does not depend on any conditions
    'z': ('stress', '', {}, timedelta(hours=3), None),
    'y': ('measure', 'nothing', {'v': 1.5}, None, {}),
    'l': ('stress', 'long', {'a b': 1e12}, timedelta(days=15000, microseconds=1), None),
    'k': ('stress', 'short', {'humidity': 1e-12, 'v': 0}, timedelta(microseconds=1), None),
    'o': ('measure', 'only sensors', {'humidity': 0.0}, None, {'humidity': 2}),
}
STARTS = [None, [0, 5 * 3600.0], [1, 0.125], [2, 2.5]]


def make_step(sym):
    kind, name, conds, dur, meas = MENU[sym]
    args = {} if name == 'unspecified' else {'name': name}
    if kind == 'measure':
        return M.MeasSpec(dict(meas), dict(conds), **args)
    if sym == 's':
        return M.StrsSpec(dict(conds), 1, **args)
    if sym == 'u':
        return M.StrsSpec(dict(conds), 250, time_unit='ms', **args)
    return M.StrsSpec(dict(conds), dur, **args)


def device(plain=False):
    if plain:
        return M.DeviceMdl({
            'p': M.DegPrmMdl({'w': M.DegMechMdl(lambda time, a: a * time, a=M.LatentVar(lib.Fixed(1e-4, 1e-5)))}, time_unit='h'),
            'q': M.DegPrmMdl({'f': M.FailMechMdl(lambda time: 0 * time)}, time_unit='h'),
        })
    return M.DeviceMdl(
        {
            'p': M.DegPrmMdl({'w': lib.mech('lin', a=M.LatentVar(lib.Fixed(1e-4, 1e-5)))}, time_unit='h'),
            'q': M.DegPrmMdl({'f': M.FailMechMdl(lambda time, temp: time * temp)}, time_unit='h'),
        }
    )


def cases(tier):
    depth = 4 if tier == 'quick' else 5
    for seq in lib.sequences('mstuen', depth):
        starts = STARTS if len(seq) < depth else [None]
        for start in starts:
            yield {'seq': ''.join(seq), 'start': start, 'shape': [1, 1] if len(seq) % 2 else [2, 3], 'shared': False}
        for how in (3, 4, 5, 6) if len(seq) in (1, 2, 3) else ():
            yield {'seq': ''.join(seq), 'start': [how, 7 + 2 * len(seq)], 'shape': [1, 2] if len(seq) % 2 else [2, 1], 'shared': False}
        if 1 < len(seq) < depth:
            yield {'seq': ''.join(seq), 'start': None, 'shape': [1, 2], 'shared': True}
    for seq in lib.sequences('mzylkoe', depth - 1):
        if set(seq) & set('zylko'):
            yield {'seq': ''.join(seq), 'start': STARTS[len(seq) % 2], 'shape': [1, 1] if len(seq) % 2 else [2, 2], 'shared': len(seq) == 2}
    for n in (5, 12, 40, 300) if tier == 'quick' else (5, 12, 40, 100, 300, 600):
        for group in ('sm', 'tnm', 'uset'):
            yield {'loop': group, 'times': n // len(group), 'start': None, 'shape': [1, 1], 'shared': True}


def run(case):
    res = Result()
    chips, lots = case['shape']
    if 'loop' in case:
        syms = ('m' + case['loop'] * case['times'])
        group = [make_step(s) for s in case['loop']]
        once = sum((MENU[s][3] for s in case['loop'] if MENU[s][0] == 'stress'), timedelta())
        test = M.TestSpec([make_step('m')], chips, lots, 'a name', 'a description')
        test.append_steps(group, once * case['times'])
    else:
        syms = case['seq']
        made = {}
        steps = [made.setdefault(s, make_step(s)) if case['shared'] else make_step(s) for s in syms]
        test = M.TestSpec(steps, chips, lots, 'a name', 'a description')
    dev = device(set(syms) & set('zylko'))
    state, elapsed = None, timedelta()
    if case['start'] is not None:
        how, val = case['start']
        counts = {'p': 2, 'q': 2}
        if how == 0:
            elapsed = timedelta(seconds=val)
            state = g.gen_init_state(dev, counts, chips, lots, elapsed_time=elapsed)
        elif how == 1:
            elapsed = timedelta(days=val)
            state = g.gen_init_state(dev, counts, chips, lots, elapsed_time=elapsed)
        elif how == 2:
            elapsed = timedelta(hours=val)
            state = g.gen_init_state(dev, counts, chips, lots, elapsed_time=val)
        else:
            # A state of the same devices put together by hand
            elapsed = timedelta(hours=val)
            made = g.gen_init_state(dev, counts, chips, lots)
            kinds = {3: elapsed, 4: val, 5: float(val), 6: np.float64(val)}
            state = M.SimState(made.init_prm_vals, made.init_deg_mech_vals, made.latent_var_vals, kinds[how])
    report = g.simulate(test, dev, M.PhysTestEnv(), state)
    res.trace()

    rows = lib.summary(report)
    require(len(rows) == len(syms), '{} summary rows for {} steps', len(rows), len(syms))
    times = []
    now = elapsed
    all_conds = set()
    for s in syms:
        all_conds |= set(MENU[s][2])
    for i, (row, s) in enumerate(zip(rows, syms)):
        kind, name, conds, dur, _ = MENU[s]
        dur = dur or timedelta()
        want = {'step name': name, 'step type': kind, 'step number': i}
        for key, val in want.items():
            require(row[key] == val, 'row {} has {} = {!r}, expected {!r}', i, key, row[key], val)
        for key, val in (('duration', dur), ('start time', now), ('end time', now + dur)):
            require(pd.Timedelta(row[key]) == pd.Timedelta(val), 'row {} has {} = {}, expected {}', i, key, row[key], val)
        for cond in all_conds:
            if cond in conds:
                require(row[cond] == conds[cond], 'row {} has {} = {}, expected {}', i, cond, row[cond], conds[cond])
            else:
                require(lib._null(row[cond]), 'row {} shows {} = {}, not requested', i, cond, row[cond])
        for key in row:
            known = set(want) | {'duration', 'start time', 'end time'} | all_conds
            require(key in known or lib._null(row[key]), 'row {} shows unrequested {}', i, key)
        times.append(now)
        now += dur
        res.state(syms[: i + 1], str(now))
        res.step()
    # Readings: in step order, with the number and elapsed time of their step, the requested count per step
    expect = []
    for i, s in enumerate(syms):
        if MENU[s][0] == 'measure':
            n = sum(c if p in ('temp', 'humidity') else c * chips * lots for p, c in MENU[s][4].items())
            expect += [(i, pd.Timedelta(times[i]))] * n
    got = [(r[0], pd.Timedelta(r[5])) for r in lib.readings(report)]
    require(got == expect, 'readings are at (step, time) {}, expected {}', got, expect)
    require(report.test_name == 'a name' and report.test_description == 'a description', 'report name or description wrong')
    res.outcome(str(now), len(expect))
    return res
