"""C02 - each requested reading appears exactly once, on the right device label.

Every population shape and every assignment of device counts to the measurement steps up to the bounds is simulated with
parameters whose value carries the identity of the physical device (unique lot, chip and device tokens in mixed radix,
plus a small common degradation). The labels of all steps are decoded and compared."""

import itertools
from datetime import timedelta

import numpy as np
import pandas as pd

from mc import lib
from mc.core import Result, require
from mc.lib import M, g

BOUNDS = {
    'quick': 'lots 1-3 x chips 1-3 x device counts 1-3 (p, q, circuit, sensors) over 3 measurement steps, generated and given states; tables of 1-3 levels; up to 300 devices, chips or lots',
    'thorough': 'lots 1-4 x chips 1-4 x device counts 1-4 (p, q, circuit, sensors) over 3 measurement steps, generated and given states; tables of 1-3 levels; up to 300 devices, chips or lots',
}


def cases(tier):
    top = 3 if tier == 'quick' else 4
    for lots, chips in itertools.product(range(1, top + 1), repeat=2):
        for i, j, k, m in itertools.product(range(1, top + 1), repeat=4):
            # Every combination of counts, the sensor count and the kind of state cycle through theirs
            yield {'dims': [lots, chips], 'counts': [i, j, k, m], 'sens': (i + j + k + m + lots) % 3, 'state': (i + k + chips) % 2}
            if lots != chips:
                yield {'dims': [lots, chips], 'counts': [i, j, k, m], 'sens': 1 + (i + m) % 3, 'state': (i + k + chips + 1) % 2}
    # Many devices, chips, lots and sensors
    for dims, count in (((1, 1), 300), ((1, 300), 1), ((300, 1), 1), ((2, 140), 2), ((140, 2), 2), ((12, 13), 3)):
        for state in (0, 1):
            yield {'dims': list(dims), 'counts': [count, max(count // 2, 1), count, 1], 'sens': 290 if state else 3, 'state': state}
    for shape in ((300,), (2, 300), (300, 2), (1, 300, 1), (300, 1, 1), (1, 1, 300), (3, 140, 2)):
        for form in ('array', 'list'):
            yield {'table': list(shape), 'form': form}
    # Tables of values formatted on their own: one, two or three levels, in several containers
    for n in (1, 2, 3):
        for shape in itertools.product(range(1, top + 2), repeat=n):
            for form in ('array', 'list', 'series') if n == 1 else ('array', 'list'):
                yield {'table': list(shape), 'form': form}


def ident_latent(scale):
    return M.LatentVar(
        dev_vrtn_mdl=lib.Token(scale * n for n in itertools.count(1)),
        chp_vrtn_mdl=lib.Token(scale * 1000 * n for n in itertools.count(1)),
        lot_vrtn_mdl=lib.Token(scale * 1000000 * n for n in itertools.count(1)),
        deter_val=0,
        vrtn_type='offset',
    )


def decode(val):
    n = round(val)
    return n // 1000000, n // 1000 % 1000, n % 1000


def device():
    def circ(p, q, own):
        return p + 1e9 * own

    return M.DeviceMdl(
        {
            'p': M.DegPrmMdl(
                {'w': lib.mech('lin', a=M.LatentVar(deter_val=1e-3))}, M.InitValMdl(init_val=ident_latent(1)), time_unit='h'
            ),
            'q': M.DegPrmMdl({'w': M.FailMechMdl(lambda time, temp: 0.25)}, M.InitValMdl(init_val=ident_latent(1)), time_unit='h'),
            'c': M.CircPrmMdl(circ, own=M.LatentVar(deter_val=0)),
        }
    )


def run(case):
    res = Result()
    if 'table' in case:
        return run_table(case, res)
    lots, chips = case['dims']
    i, j, k, m = case['counts']
    sens = case['sens']
    meas = [{'p': i, 'q': j}, {'c': m, 'p': k}, {'q': k, 'c': 1, 'p': j}]
    conds = {'temp': 10, 'v': 3}
    if sens:
        meas[0]['temp'] = sens
        meas[1] = {'v': sens + 1, **meas[1]}
    steps = []
    for n, counts in enumerate(meas):
        if n:
            steps.append(M.StrsSpec({'temp': 10}, 10, time_unit='h'))
        steps.append(M.MeasSpec(dict(counts), dict(conds)))
    dev, state = device(), None
    if case['state']:
        top = max(i, j, k, m)
        state = g.gen_init_state(dev, {'p': top + 1, 'q': top, 'c': m}, chips, lots)
    report = g.simulate(M.TestSpec(steps, chips, lots), dev, M.PhysTestEnv(), state)
    res.trace()
    vals, sensors = lib.by_label(report)

    want, want_sens = set(), {}
    for n, counts in enumerate(meas):
        for prm, num in counts.items():
            if prm in conds:
                want_sens[(2 * n, prm)] = num
                continue
            want |= {(2 * n, prm, lo, c, d) for lo, c, d in lib.positions((lots, chips, num))}
    require(set(vals) == want, 'labels read {} but requested {}', sorted(set(vals) - want), sorted(want - set(vals)))
    require(
        {key: len(v) for key, v in sensors.items()} == want_sens, 'sensor readings {} but requested {}', sensors, want_sens
    )
    for (_, prm), got in sensors.items():
        require(all(v == conds[prm] for v in got), 'ideal sensor of {} reads {}', prm, got)

    owner = {}
    for (step, prm, lo, c, d), v in sorted(vals.items()):
        # c reads the p of the same device
        fam = 'q' if prm == 'q' else 'p'
        who = decode(v)
        # 10 h at temperature 10 shift p by 0.1, the failed q is shifted by 0.25
        if fam == 'p':
            shift = 0.1 * (step // 2)
        else:
            shift = 0.25 if step else 0.0
        require(abs(v - round(v) - shift) < 2e-3, 'step {} {} of {} reads {}, expected shift {}', step, prm, (lo, c, d), v, shift)
        key = (fam, lo, c, d)
        require(owner.setdefault(key, who) == who, '{} at label {} is device {} in step {} but was {}', prm, (lo, c, d), who, step, owner[key])
        if state is not None:
            true = float(state.init_prm_vals[fam][lo, c, d])
            require(decode(true) == who, '{} label {} reads device {}, state has {}', prm, (lo, c, d), who, decode(true))
        res.step()
    res.state(case['dims'], case['counts'])
    for fam in ('p', 'q'):
        mine = {key[1:]: who for key, who in owner.items() if key[0] == fam}
        require(len({w[2] for w in mine.values()}) == len(mine), '{}: several labels show the same device', fam)
        for level, n in ((0, 1), (1, 2)):
            groups = {}
            for lab, who in mine.items():
                groups.setdefault(lab[:n], set()).add(who[level])
            require(all(len(s) == 1 for s in groups.values()), '{}: a {} label mixes physical units {}', fam, ('lot', 'chip')[level], groups)
            firsts = [next(iter(s)) for s in groups.values()]
            require(len(set(firsts)) == len(firsts), '{}: {} labels share one physical unit', fam, ('lot', 'chip')[level])
        res.outcome(fam, tuple(sorted(mine.items())))
    return res


def run_table(case, res):
    shape = tuple(case['table'])
    vals = np.arange(np.prod(shape)).reshape(shape) * 1.5 - 2
    form = {'array': lambda: vals, 'list': vals.tolist, 'series': lambda: pd.Series(vals)}[case['form']]()
    full = (1,) * (3 - len(shape)) + shape
    for kind in ('parameter', 'condition'):
        table = M.SimReport.format_measurements(form, 'x', timedelta(hours=2), 7, kind)
        require(len(table) == vals.size, '{} rows for {} values', len(table), vals.size)
        rows = table.to_dict('records')
        require(all(r['param'] == 'x' and r['step #'] == 7 and r['time'] == timedelta(hours=2) for r in rows), 'rows {}', rows)
        if kind == 'parameter':
            got = {(r['lot #'], r['chip #'], r['device #']): r['measured'] for r in rows}
            want = {pos: float(vals.reshape(full)[pos]) for pos in lib.positions(full)}
            require(got == want, 'table {} of {} is labelled {}, expected {}', case['form'], shape, got, want)
        else:
            require(all(lib._null(r[k]) for r in rows for k in ('lot #', 'chip #', 'device #')), 'sensors are labelled {}', rows)
            require([r['measured'] for r in rows] == vals.ravel().tolist(), 'values {}', rows)
        res.step()
    res.trace()
    res.state('table', shape, case['form'])
    return res
