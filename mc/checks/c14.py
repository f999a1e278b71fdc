"""C14 - conditional shifts and circuit parameters follow the current device state.

All sequences of measurement steps (conditions x device subsets) with or without stress in between are simulated over a set
of population shapes; shifts (additive and multiplicative), parameter equations and circuit equations of every signature
(parameters, latents, conditions, in any mix and order) are recomputed per device from its own degraded values, latents and
the condition its chip reports."""

import itertools
from datetime import timedelta

import numpy as np

from mc import lib
from mc.core import Result, require
from mc.lib import M, g

BOUNDS = {
    'quick': '6 shapes x all sequences of 1-2 measurement steps over 4 conditions x 3 counts with or without stress, length 3 for 2 shapes, ideal and chip-varied environment; 1690 pairs of values of every size and sign; models of up to 8 conditions, latents, mechanisms and parameters',
    'thorough': '12 shapes x all sequences of 1-3 measurement steps over 4 conditions x 3 counts with or without stress, ideal and chip-varied environment; 1690 pairs of values of every size and sign; models of up to 8 conditions, latents, mechanisms and parameters',
}
CHUNK = 8
CONDS = {'a': {'temp': 25.0, 'v': 1.0}, 'b': {'v': 2.5, 'temp': 80.0}, 'c': {'temp': -40.0, 'v': 0.5, 'extra': 9.0}, 'd': {'v': 0.0, 'temp': 0}}


def cases(tier):
    shapes = [(1, 1, 1), (1, 1, 3), (1, 3, 1), (2, 1, 2), (2, 2, 3), (3, 2, 2)]
    if tier != 'quick':
        shapes += [(1, 2, 2), (2, 3, 1), (3, 1, 3), (1, 4, 2), (4, 1, 1), (2, 2, 4)]
    menu = list(itertools.product(CONDS, (1, 2, 3), (0, 1)))
    for n in (1, 2, 3):
        for dims in shapes if n < 3 or tier != 'quick' else [(2, 2, 3)]:
            for seq in itertools.product(menu, repeat=n):
                if n == 3 and (len({s[0] for s in seq}) < 3 or 'd' in {s[0] for s in seq} or (tier == 'quick' and (sum(s[1] for s in seq) + seq[1][2]) % 2)):
                    continue
                yield {'dims': list(dims), 'seq': [list(s) for s in seq], 'env': (sum(s[1] for s in seq) + n) % 2}
    for dims in ((1, 1, 30), (7, 6, 1)):
        for env in (0, 1):
            yield {'dims': list(dims), 'seq': [['a', dims[2], 1], ['b', dims[2] // 2 + 1, 1], ['c', dims[2], 0]], 'env': env}


    # Values of every size and sign, two quantities at a time
    for a, b in itertools.combinations(range(len(AXES)), 2):
        for va, vb in itertools.product(VALUES, repeat=2):
            yield {'vals': [va if n == a else vb if n == b else d for n, d in enumerate((3.0, 2.0, 5.0, 1.5, 0.5))]}
    # Models of any size: (conditions, latents, mechanisms, parameters), equations for arrays or single values
    top = (5, 4, 3, 4) if tier == 'quick' else (7, 6, 5, 6)
    for size in itertools.product(range(top[0] + 1), range(top[1] + 1), range(1, top[2] + 1), range(1, top[3] + 1)):
        for single in (0, 1):
            yield {'wide': list(size), 'single': single}
    for n in range(1, 9):
        yield {'wide': [n] * 4, 'single': n % 2}


AXES = ('measured at', 'stressed at', 'initial', 'shift latent', 'circuit latent')
VALUES = (-1e9, -273.15, -60, -1.0, -1e-9, 0, 0.0, 1e-9, 1, 7.5, 125, 1e4, 1e12)


def fx(start, inc):
    return M.LatentVar(lib.Fixed(start, inc))


def wear(time, temp, lv):
    # Hits one half of the devices, in the first phase only
    return np.where(temp > lv, 2.0 + 0.01 * temp, 0)


def device():
    return M.DeviceMdl(
        {
            # Additive shift
            'p': M.DegPrmMdl({'w': M.FailMechMdl(wear, lv=fx(50, 12))}, M.InitValMdl(init_val=fx(10, 1)), M.CondShiftMdl(lambda temp, v, k: k * (temp - 25) + v, k=fx(0.01, 0.02))),
            # Multiplicative shift with a parameter equation and latents of its own
            'q': M.DegPrmMdl(
                {'w': M.FailMechMdl(lambda time, v: 1 + v, unitary_val=1), 'x': M.FailMechMdl(wear, lv=fx(95, -9))},
                M.InitValMdl(init_val=fx(4, 0.5)),
                M.CondShiftMdl(lambda v, k: v**k, unitary_val=1, k=fx(1, 0.25)),
                lambda cond, init, x, w, own: (init + x * own) * cond * w,
                own=fx(0.5, 0.125),
            ),
            # No shift
            'r': M.DegPrmMdl({'w': lib.mech('lin', a=fx(1e-3, 1e-4))}, M.InitValMdl(init_val=fx(1, 1)), time_unit='h'),
            # Single-value equations
            's': M.DegPrmMdl(
                {'w': M.FailMechMdl(lambda time, temp, lv: 5.0 if temp > lv else 0, lv=fx(60, 5))},
                M.InitValMdl(init_val=fx(-3, 2)),
                M.CondShiftMdl(lambda temp, k: k if temp > 30 else -k, k=fx(7, 1)),
                lambda init, cond, w: init + cond + w if init > 0 else init - cond + w,
            ),
            # Shows the condition of the chip
            't': M.DegPrmMdl({'w': M.FailMechMdl(lambda time: 0 * time)}, None, M.CondShiftMdl(lambda temp: temp)),
            # Shifts by a latent alone, whatever the conditions, and also without any
            'u': M.DegPrmMdl({'w': M.FailMechMdl(lambda time: 0 * time)}, M.InitValMdl(init_val=fx(3, 0.5)), M.CondShiftMdl(lambda k: k * k, k=fx(1, 0.75))),
            'c1': M.CircPrmMdl(lambda p, q, temp, k: p * k + q * temp, k=fx(2, 0.3)),
            'c2': M.CircPrmMdl(lambda r: r * r),
            'c3': M.CircPrmMdl(lambda k, v, temp: k * temp + v, k=fx(1, 1)),
            'c4': M.CircPrmMdl(lambda s, r, v, own: s + v * own if r > 3 else s - own, own=fx(100, 10)),
            'c5': M.CircPrmMdl(lambda own, own2: own - own2, own=fx(50, 1), own2=fx(0, 2)),
        }
    )


def sum_eqn(args, single, extra=0.0, skip=('time',)):
    """An equation with the given arguments, each with a weight of its own."""
    body = ' + '.join([repr(extra)] + [f'{w} * {a}' for w, a in zip(WEIGHTS, args) if a not in skip])
    if 'time' in args:
        body += ' + 0 * time'
    if single and args:
        body = f'({body}) if {args[-1]} > -1e9 else None'
    return eval(f'lambda {", ".join(args)}: {body}')


WEIGHTS = [1.0, 1.7, 2.9, 0.3, 5.3, 0.11, 7.7, 3.1, 1.3, 0.7, 2.3, 4.1, 0.51, 6.1, 8.3, 0.93, 1.9, 3.7, 0.29, 9.1, 2.1, 5.9, 0.37, 4.7, 1.1, 0.77]


def weighed(vals, extra=0.0):
    return extra + sum(w * v for w, v in zip(WEIGHTS, vals))


def run_vals(case):
    res = Result()
    meas, strs, init, k, own = case['vals']
    at = lambda v: M.LatentVar(deter_val=v)  # noqa: E731
    dev = M.DeviceMdl(
        {
            'p': M.DegPrmMdl(
                {'w': M.FailMechMdl(lambda time, v: v + 0 * time, unitary_val=0.25), 'x': M.FailMechMdl(lambda time, v: v if time > 0 else 1e9)},
                M.InitValMdl(init_val=at(init)),
                M.CondShiftMdl(lambda temp, k: k * temp, k=at(k)),
                lambda init, cond, w, x: init + cond + w + x,
            ),
            'c': M.CircPrmMdl(lambda p, temp, own: p + temp * own, own=at(own)),
        }
    )
    steps = [M.MeasSpec({'p': 1, 'c': 1, 'temp': 1}, {'temp': meas}), M.StrsSpec({'v': strs}, 3), M.MeasSpec({'p': 2, 'c': 2, 'temp': 1}, {'temp': meas})]
    got, sensors = lib.by_label(g.simulate(M.TestSpec(steps), dev, M.PhysTestEnv()))
    res.trace()
    require(len(got) == 6, '{} readings instead of 6', len(got))
    for (step, prm, _, _, _), v in got.items():
        # The mechanisms have their neutral values within the equation of a measurement
        worn = init if step == 0 else init + strs + strs
        want = worn + k * meas + 0.25 if prm == 'p' else worn + meas * own
        big = max(map(abs, (init, strs, k * meas, meas * own)))
        require(abs(v - want) <= 1e-12 * big + 1e-15, '{} with {} reads {!r} in step {}, expected {!r}', prm, dict(zip(AXES, case['vals'])), v, step, want)
        res.step()
        res.outcome('vals', prm, round(float(v), 6))
    res.state('vals', tuple(map(repr, case['vals'])))
    return res


def run_wide(case):
    res = Result()
    nc, nl, nm, n_prm = case['wide']
    single = case['single']
    lots, chips, devs = dims = (2, 1, 2)
    conds = [f'c{n}' for n in range(nc)]
    lats = [f'a{n}' for n in range(nl)]
    mechs = [f'm{n}' for n in range(nm)]
    prms = [f'p{n}' for n in range(n_prm)]

    def own(k):
        return {a: fx(0.1 * k + n, 0.013 + 0.01 * n) for n, a in enumerate(lats)}

    def prm(k):
        return M.DegPrmMdl(
            {m: M.FailMechMdl(sum_eqn(conds[i:] + ['time'] + lats + conds[:i], single, 1.0 + i + k), **own(k + i)) for i, m in enumerate(mechs)},
            M.InitValMdl(sum_eqn(lats[::-1], single, 2.0 + k), **own(k + 5)) if lats else None,
            M.CondShiftMdl(sum_eqn(conds + lats, single, 0.25 + k), **own(k + 6)) if nc + nl else None,
            sum_eqn(mechs + ['cond'] + lats + ['init'], single, 0.5 + k),
            **own(k + 7),
        )

    dev = M.DeviceMdl({p: prm(k) for k, p in enumerate(prms)} | {'circ': M.CircPrmMdl(sum_eqn(conds + prms + lats, single, 3.0), **own(9))})
    menu = [{c: 1.0 + 0.37 * n + 10 * k for n, c in enumerate(conds)} for k in range(3)]
    names = prms + ['circ']
    counts = [{p: devs for p in names}, {p: 1 + n % 2 for n, p in enumerate(names)}]
    steps = [M.MeasSpec(counts[0], dict(reversed(menu[0].items()))), M.StrsSpec(menu[1], 3, time_unit='h'), M.MeasSpec(counts[1], menu[2])]
    state = g.gen_init_state(dev, dict(counts[0]), chips, lots)
    report = g.simulate(M.TestSpec(steps, chips, lots), dev, M.PhysTestEnv(), state)
    res.trace()
    vals, _ = lib.by_label(report)
    for pos in lib.positions(dims):
        for step, at in ((0, menu[0]), (2, menu[2])):
            current = {}
            for k, p in enumerate(prms):
                lat = state.latent_var_vals[p]
                get = lambda d: [float(d[a][pos]) for a in lats]  # noqa: E731
                init = float(state.init_prm_vals[p][pos])
                wear = [weighed_at(conds[i:] + ['time'] + lats + conds[:i], menu[1] | dict(zip(lats, get(lat[m]))), 1.0 + i + k) if step else 0.0 for i, m in enumerate(mechs)]
                shift = weighed([at[c] for c in conds] + get(lat['cond']), 0.25 + k) if nc + nl else 0.0
                got_own = [float(lat[a][pos]) for a in lats]
                # The degraded value takes the place of the initial one in the parameter equation when measuring
                current[p] = weighed(wear + [0.0] + got_own + [init], 0.5 + k) if step else init
                want = weighed([0.0] * nm + [shift] + got_own + [current[p]], 0.5 + k)
                check(res, vals, case, step, p, pos, want, counts[1 if step else 0])
            circ = [float(state.latent_var_vals['circ'][a][pos]) for a in lats]
            want = weighed([at[c] for c in conds] + [current[p] for p in prms] + circ, 3.0)
            check(res, vals, case, step, 'circ', pos, want, counts[1 if step else 0])
    res.state('wide', case['wide'], single)
    return res


def weighed_at(args, at, extra):
    return extra + sum(w * at[a] for w, a in zip(WEIGHTS, args) if a != 'time')


def check(res, vals, case, step, prm, pos, want, counts):
    if pos[2] < counts[prm]:
        got = vals[(step, prm) + pos]
        require(lib.close(got, want, 1e-9, 1e-9), 'model of size {}: step {} {} of device {} reads {!r}, expected {!r}', case['wide'], step, prm, pos, got, want)
        res.step()
        res.outcome('wide', prm, round(got, 6))


def run(case):
    if 'wide' in case:
        return run_wide(case)
    if 'vals' in case:
        return run_vals(case)
    res = Result()
    lots, chips, devs = dims = tuple(case['dims'])
    dev = device()
    names = dev.prm_mdl_list
    state = g.gen_init_state(dev, {n: devs for n in names}, chips, lots)
    # Chip to chip variation of the temperature; the draws are the same in every step
    env = M.PhysTestEnv({'temp': M.EnvVrtnMdl(None, lib.Fixed(0.0, 0.75))} if case['env'] else None)
    steps, stress_before = [], []
    for n, (cond, count, strs) in enumerate(case['seq']):
        if strs:
            steps.append(M.StrsSpec({'temp': 90.0 - 20 * n, 'v': 3.0 + n}, timedelta(hours=100)))
        count = min(count, devs)
        counts = {name: count for name in names}
        # r is shown for all devices, q for one, so that the counts of the parameters differ
        counts.update(r=devs, q=1 if n % 2 else count, t=1)
        stress_before.append((bool(strs), len(steps), counts))
        steps.append(M.MeasSpec(counts, dict(CONDS[cond])))
    bare = {'u': devs, 'r': devs, 'c2': devs, 'c5': devs}
    steps.append(M.MeasSpec(bare, {}))
    report = g.simulate(M.TestSpec(steps, chips, lots), dev, env, state)
    res.trace()
    vals, _ = lib.by_label(report)
    lat = state.latent_var_vals
    degraded = {}
    for pos in lib.positions(dims):
        init = {p: float(state.init_prm_vals[p][pos]) for p in 'pqrstu'}
        degraded[pos] = {'init': init, 'cur': dict(init), 'mech': {}}
    for n, (cond, _, _) in enumerate(case['seq']):
        strs, step, counts = stress_before[n]
        require(sum(1 for k in vals if k[0] == step) == sum(counts.values()) * lots * chips, 'wrong number of readings in step {}', step)
        base = CONDS[cond]
        for pos in lib.positions(dims):
            lo, c, d = pos
            L = lambda prm, *path: float(_get(lat[prm], path)[pos])  # noqa: E731
            dv = degraded[pos]
            off = 0.75 * (lo * chips + c) if case['env'] else 0.0
            if strs:
                # Temperature of the chip in the phase: shown by the same stateless draws in the measurement
                chip_t = vals[(step, 't', lo, c, 0)] - base['temp']
                require(lib.close(chip_t, off, 1e-9, 1e-9), 'chip {} sees {!r} off the requested temperature', (lo, c), chip_t)
                t, v = 90.0 - 20 * n + off, 3.0 + n
                m = dv['mech']
                if not m.get('p'):
                    m['p'] = 2.0 + 0.01 * t if t > L('p', 'w', 'lv') else 0
                if not m.get('qx'):
                    m['qx'] = 2.0 + 0.01 * t if t > L('q', 'x', 'lv') else 0
                m.setdefault('qw', 1 + v)
                if not m.get('s'):
                    m['s'] = 5.0 if t > L('s', 'w', 'lv') else 0
                i = dv['init']
                dv['cur']['p'] = i['p'] + m['p']
                dv['cur']['q'] = (i['q'] + m['qx'] * L('q', 'own')) * m['qw']
                dv['cur']['s'] = i['s'] + m['s']
            # The wear of r is solved for numerically, its reading has no shift
            dv['cur']['r'] = vals[(step, 'r') + pos]
            temp, v = base['temp'] + off, base['v']
            cur = dv['cur']
            shift_s = L('s', 'cond', 'k') if temp > 30 else -L('s', 'cond', 'k')
            want = {
                'p': cur['p'] + L('p', 'cond', 'k') * (temp - 25) + v,
                'q': cur['q'] * v ** L('q', 'cond', 'k'),
                's': cur['s'] + shift_s if cur['s'] > 0 else cur['s'] - shift_s,
                't': temp,
                'u': cur['u'] + L('u', 'cond', 'k') ** 2,
                'c1': cur['p'] * L('c1', 'k') + cur['q'] * temp,
                'c2': cur['r'] ** 2,
                'c3': L('c3', 'k') * temp + v,
                'c4': cur['s'] + v * L('c4', 'own') if cur['r'] > 3 else cur['s'] - L('c4', 'own'),
                'c5': L('c5', 'own') - L('c5', 'own2'),
            }
            for prm, w in want.items():
                if d < counts[prm]:
                    got = vals[(step, prm) + pos]
                    require(lib.close(got, w, 1e-9, 1e-9), 'step {} {} of device {} at {} reads {!r}, expected {!r}', step, prm, pos, base, got, w)
                    res.step()
                    res.outcome(prm, round(got, 6))
        res.state(tuple(dims), str(case['seq'][: n + 1]), case['env'])
    step = len(steps) - 1
    require(sum(1 for k in vals if k[0] == step) == sum(bare.values()) * lots * chips, 'wrong number of readings in step {}', step)
    for pos in lib.positions(dims):
        cur = degraded[pos]['cur']
        want = {
            'u': cur['u'] + float(lat['u']['cond']['k'][pos]) ** 2,
            'r': cur['r'],
            'c2': cur['r'] ** 2,
            'c5': float(lat['c5']['own'][pos]) - float(lat['c5']['own2'][pos]),
        }
        for prm, w in want.items():
            got = vals[(step, prm) + pos]
            require(lib.close(got, w, 1e-9, 1e-9), 'step {} {} of device {} without conditions reads {!r}, expected {!r}', step, prm, pos, got, w)
            res.step()
    if not any(s for s, _, _ in stress_before):
        for pos in lib.positions(dims):
            require(degraded[pos]['cur']['r'] == float(state.init_prm_vals['r'][pos]), 'unstressed device changed')
    return res


def _get(d, path):
    for k in path:
        d = d[k]
    return d
