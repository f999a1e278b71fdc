"""C23 - cookbook models deliver the standard tests and environments they describe.

The complete grid of HTOL arguments is built and compared step by step with an independent construction; small ones are also
executed in the ideal environment and compared with the analytic wear. Independence: all orders of calls and modifications of
what earlier calls returned, up to a length, leave what other calls return unchanged."""

import itertools
import math
from datetime import timedelta

from mc import lib
from mc.core import Result, require
from mc.lib import M, g
import gerabaldi.cookbook as C
from gerabaldi.exceptions import UserConfigError

BOUNDS = {
    'quick': 'HTOL: 12 durations x 16 intervals x 5 measurement sets x 4 voltages x 4 factors x 5 temperatures x 4 population sizes; defaults and '
    'all subsets of keywords; 60 executed tests; NBTI model at 3 temperatures x 3 voltages x 4 durations x 3 populations; all sequences of 3 calls/modifications over 8 operations',
    'thorough': 'as quick with 300 executed tests and sequences of 4',
}
CHUNK = 8
DURATIONS = (1000, 1, 2, 10, 24, 100, 168, 500, 7, 2000, 3000, 12)
INTERVALS = (1000, 1, 2, 3, 5, 7, 10, 12, 24, 50, 99, 100, 500, 1500, 2000, 250)
MEAS = ({}, {'p': 1}, {'p': 3, 'q': 2}, {'temp': 2, 'vdd': 1}, {'p': 2, 'temp': 1})
VDDS = (1.0, 0.85, 3.3, 2)
MULTS = (1.2, 1, 1.5, 0.5)
TEMPS = (125, 25, -40, 150.5, 0)
POPS = ((77, 3), (1, 1), (2, 5), (4, 1))
KEYS = ('vdd_nom', 'vdd_strs_mult', 'strs_meas_intrvl', 'duration_override', 'num_chps_override', 'num_lots_override', 'temp_override')
DEFAULTS = dict(zip(KEYS, (1.0, 1.2, 1000, 1000, 77, 3, 125)))
OTHER = dict(zip(KEYS, (0.9, 1.4, 50, 200, 5, 2, 85)))


def cases(tier):
    out = []
    for dur, intr in itertools.product(DURATIONS, INTERVALS):
        for meas in range(len(MEAS)):
            out.append({'kind': 'grid', 'dur': dur, 'intr': intr, 'meas': meas})
    out.append({'kind': 'keys'})
    n = 0
    for dur, intr in itertools.product((1, 2, 6, 24, 100), (1, 2, 3, 6, 12, 50, 100)):
        if dur % intr == 0 or intr >= dur:
            for pop in POPS[1:]:
                for temp in TEMPS[:2] if tier == 'quick' else TEMPS:
                    if dur // intr <= 24:
                        out.append({'kind': 'sim', 'dur': dur, 'intr': intr, 'pop': pop, 'temp': temp})
                        n += 1
    for temp in (233.15, 300.0, 398.15):
        for vdd in (0.7, 1, 1.32):
            for hours in (0.5, 24, 1000, 87600):
                for dims in ((1, 1, 1), (2, 1, 3), (1, 3, 2)):
                    out.append({'kind': 'nbti', 'temp': temp, 'vdd': vdd, 'hours': hours, 'dims': dims})
    depth = 3 if tier == 'quick' else 4
    for pre in itertools.product(range(len(OPS)), repeat=depth - 1):
        out.append({'kind': 'calls', 'pre': list(pre)})
    return out


def run(case):
    res = Result()
    if case['kind'] == 'grid':
        for vdd, mult, temp, pop in itertools.product(VDDS, MULTS, TEMPS, POPS):
            args = dict(zip(KEYS, (vdd, mult, case['intr'], case['dur'], *pop, temp)))
            htol(dict(MEAS[case['meas']]), args, args, res)
    elif case['kind'] == 'keys':
        for r in range(len(KEYS) + 1):
            for keys in itertools.combinations(KEYS, r):
                given = {k: OTHER[k] for k in keys}
                htol({'p': 2}, given, {**DEFAULTS, **given}, res)
        # By position
        args = {**DEFAULTS, **OTHER}
        compare(C.htol({'p': 2}, *(args[k] for k in KEYS)), {'p': 2}, args, 'by position')
    elif case['kind'] == 'sim':
        simulate(case, res)
    elif case['kind'] == 'nbti':
        nbti(case, res)
    else:
        for last in range(len(OPS)):
            calls(case['pre'] + [last], res)
    return res


K_EV = 8.617e-5


def nbti(case, res):
    """The JEDEC model: A0 exp(+-Eaa/kT) V^alpha t^n with each device's own latents, starting fresh at zero."""
    lots, chps, devs = case['dims']
    dev = M.DeviceMdl({'v': M.DegPrmMdl({'nbti': C.jedec_nbti_mdl()}, M.InitValMdl(init_val=M.LatentVar(deter_val=0.4)))}, time_unit='h')
    state = g.gen_init_state(dev, {'v': devs}, chps, lots)
    lat = state.latent_var_vals['v']['nbti']
    conds = {'temp': case['temp'], 'vdd': case['vdd']}
    room = M.MeasSpec({'v': devs}, {'temp': 298.15, 'vdd': 1.0})
    test = M.TestSpec([room, M.StrsSpec(conds, timedelta(hours=case['hours'])), room], chps, lots)
    got, _ = lib.by_label(g.simulate(test, dev, C.ideal_env(), state))
    res.trace()
    for name, vals in lat.items():
        require(len(set(vals.ravel().tolist())) == lots * chps * devs, 'latent {} is shared between devices: {}', name, vals)
    for pos in lib.positions(case['dims']):
        a0, ea, al, n = (float(lat[k][pos]) for k in ('a_0', 'e_aa', 'alpha', 'n'))
        require(0.003 < a0 < 0.012 and 0.02 < ea < 0.1 and 3 < al < 4 and 0.15 < n < 0.28, 'implausible latents {}', (a0, ea, al, n))
        require(got[(0, 'v') + pos] == 0.4, 'fresh device reads {}', got[(0, 'v') + pos])
        # The equivalent time of a fresh device is the shortest one, i.e. 0.001 hours at most
        ends = [a0 * math.exp(s * ea / (K_EV * case['temp'])) * case['vdd'] ** al * t**n for s in (1, -1) for t in (case['hours'], case['hours'] + lib.T_MIN)]
        v = got[(2, 'v') + pos] - 0.4
        require(any(min(e) * (1 - 1e-3) <= v <= max(e) * (1 + 1e-3) for e in (ends[:2], ends[2:])), 'NBTI shift of device {} under {} is {} instead of {} (or {})', pos, case, v, ends[0], ends[2])
        res.step()
        res.outcome(round(v, 2))
    res.state(str(case))


def plan(meas, a):
    """The steps as (kind, conditions, hours or measured)."""
    room = ('meas', {'temp': 25 + 273.15, 'vdd': a['vdd_nom']}, meas)
    hot = {'temp': a['temp_override'] + 273.15, 'vdd': a['vdd_nom'] * a['vdd_strs_mult']}
    dur, intr = a['duration_override'], a['strs_meas_intrvl']
    if intr >= dur:
        return [room, ('strs', hot, dur), room]
    if dur % intr:
        return None
    return [room, ('meas', hot, meas)] + [('strs', hot, intr), ('meas', hot, meas)] * (dur // intr) + [room]


def htol(meas, given, a, res):
    want = plan(meas, a)
    copy, kw = dict(meas), dict(given)
    try:
        test = C.htol(meas, **given)
    except UserConfigError:
        require(want is None, 'HTOL {} was rejected', given)
        res.outcome('rejected')
    else:
        require(want is not None, 'HTOL {} has an interval that does not divide the duration, but was accepted', given)
        compare(test, meas, a, given)
        res.outcome(len(want))
    require(meas == copy and given == kw, 'HTOL {} changed its arguments', given)
    res.step(1 if want is None else len(want))
    res.trace()
    res.state(tuple(sorted(a.items())), tuple(meas))


def compare(test, meas, a, what):
    want = plan(meas, a)
    got = list(test)
    require(len(got) == len(want), 'HTOL {} has {} steps instead of {}', what, len(got), len(want))
    for i, (s, (kind, conds, val)) in enumerate(zip(got, want)):
        require(isinstance(s, M.MeasSpec if kind == 'meas' else M.StrsSpec), 'HTOL {}: step {} is {}', what, i, s)
        require(s.conditions.keys() == conds.keys() and all(lib.close(s.conditions[c], conds[c]) for c in conds), 'HTOL {}: step {} has conditions {} instead of {}', what, i, s.conditions, conds)
        if kind == 'meas':
            require(s.measurements == val, 'HTOL {}: step {} measures {} instead of {}', what, i, s.measurements, val)
        else:
            require(s.duration == timedelta(hours=val), 'HTOL {}: step {} lasts {} instead of {} h', what, i, s.duration, val)
    require((test.num_chps, test.num_lots) == (a['num_chps_override'], a['num_lots_override']), 'HTOL {}: {} chips and {} lots', what, test.num_chps, test.num_lots)
    require(test.calc_samples_needed() == meas, 'HTOL {}: needs {} samples instead of {}', what, test.calc_samples_needed(), meas)


def wear(time, temp, vdd, a):
    return a * temp * vdd * time


def simulate(case, res):
    """Executed in the ideal environment: the readings are the analytic wear, nothing is added."""
    meas = {'p': 2, 'q': 1, 'temp': 2, 'vdd': 1}
    chps, lots = case['pop']
    a = {**DEFAULTS, 'strs_meas_intrvl': case['intr'], 'duration_override': case['dur'], 'num_chps_override': chps, 'num_lots_override': lots, 'temp_override': case['temp']}
    test = C.htol(meas, **a)
    mdl = M.DeviceMdl(
        {
            'p': M.DegPrmMdl(M.DegMechMdl(wear, 'w', 0, 'h', a=M.LatentVar(lib.Fixed(1, 0.5))), M.InitValMdl(init_val=M.LatentVar(deter_val=10)), prm_name='p'),
            'q': M.DegPrmMdl(M.DegMechMdl(mdl_name='none'), M.InitValMdl(init_val=M.LatentVar(lib.Fixed(3, 0.25))), prm_name='q'),
        },
        'dev',
        'h',
    )
    rep = g.simulate(test, mdl, C.ideal_env())
    got, sensors = lib.by_label(rep)
    elapsed, n = 0, 0
    hot = None
    want_keys = set()
    for i, (kind, conds, val) in enumerate(plan(meas, a)):
        if kind == 'strs':
            elapsed, hot = elapsed + val, conds
            continue
        n += 1
        for prm, count in (('p', 2), ('q', 1)):
            for lo, c, d in itertools.product(range(lots), range(chps), range(count)):
                idx = (lo * chps + c) * count + d
                if prm == 'p':
                    want = 10 + (0 if hot is None else (1 + 0.5 * idx) * hot['temp'] * hot['vdd'] * elapsed)
                else:
                    want = 3 + 0.25 * ((lo * chps + c) * count + d)
                want_keys.add((i, prm, lo, c, d))
                v = got.get((i, prm, lo, c, d))
                require(v is not None and lib.close(v, want, 1e-3 if prm == 'p' else 1e-9), 'HTOL {}: step {} reads {} of {} instead of {}', case, i, v, (prm, lo, c, d), want)
        for cond, count in (('temp', 2), ('vdd', 1)):
            require(len(sensors.get((i, cond), [])) == count and all(lib.close(v, conds[cond]) for v in sensors[(i, cond)]), 'HTOL {}: step {} senses {} {}', case, i, cond, sensors.get((i, cond)))
    require(set(got) == want_keys, 'HTOL {}: unexpected readings', case)
    require(elapsed == case['dur'], 'plan')
    rows = lib.summary(rep)
    require(len(rows) == len(plan(meas, a)), 'HTOL {}: {} rows in the summary', case, len(rows))
    res.trace()
    res.step(len(rows))
    res.state(str(case))
    res.outcome(tuple(got.values()))


# --------------------------------------------------------------------------------------------------------------------
# Independence of calls
MAKE = {
    'htol': lambda: C.htol({'p': 2, 'temp': 1}, strs_meas_intrvl=50, duration_override=100),
    'ideal': C.ideal_env,
    'volt': C.volt_and_temp_env,
    'nbti': C.jedec_nbti_mdl,
}
OPS = [('make', k) for k in MAKE] + [('spoil', k) for k in MAKE]


def spoil(obj):
    """Changes every number, then all the collections."""
    for _, box, k, v in list(lib.walk(obj)):
        new = v + 1.5 if isinstance(v, (int, float)) and not isinstance(v, bool) else v * 2 if isinstance(v, timedelta) else None
        if new is not None and not isinstance(box, tuple):
            if isinstance(box, (dict, list)):
                box[k] = new
            else:
                setattr(box, k, new)
    for _, box, k, v in list(lib.walk(obj)):
        if isinstance(v, dict):
            v['extra'] = 1
        elif isinstance(v, list):
            v.append('extra')


REF = None


def setup():
    global REF
    REF = {k: lib.deep_image(f()) for k, f in MAKE.items()}


def calls(ops, res):
    live = {k: [] for k in MAKE}
    hist = []
    for op, k in (OPS[o] for o in ops):
        hist.append((op, k))
        res.step()
        if op == 'make':
            live[k].append(MAKE[k]())
        else:
            # What a call returned is modified: nothing else may change
            spoil(live[k].pop(0) if live[k] else MAKE[k]())
        for kind, objs in live.items():
            for o in objs:
                require(lib.deep_image(o) == REF[kind], '{}: {} model changed from {} to {}', hist, kind, REF[kind], lib.deep_image(o))
    for kind, f in MAKE.items():
        new = lib.deep_image(f())
        require(new == REF[kind], '{}: new {} model is {} instead of {}', hist, kind, new, REF[kind])
    # The ideal environment adds nothing, whatever was done to others
    env = C.ideal_env()
    test = M.TestSpec([M.MeasSpec({'p': 1, 'temp': 1}, {'temp': 300.123456789, 'vdd': 1})], 1, 1)
    rep = g.simulate(test, M.DeviceMdl({'p': M.DegPrmMdl(M.DegMechMdl(mdl_name='none'), M.InitValMdl(init_val=M.LatentVar(deter_val=1.23456789012)), prm_name='p')}, 'd', 'h'), env)
    got, sensors = lib.by_label(rep)
    require(list(got.values()) == [1.23456789012] and sensors[(0, 'temp')] == [300.123456789], '{}: the ideal environment gives {} {}', hist, got, sensors)
    res.trace()
    res.outcome(tuple(hist))
    res.state(tuple(sorted((k, len(v)) for k, v in live.items())))
