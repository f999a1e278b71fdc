"""C21 - ill-formed configurations are rejected with the documented error.

One defect is placed at every position of otherwise valid configurations, for every kind of defect and every bad value of it;
the error has to be of the documented type, everything handed in has to be unchanged, and the objects have to work afterwards
like fresh ones. The well-formed neighbours of each defect have to be accepted."""

import itertools
import os
import shutil
import tempfile
from datetime import timedelta

from mc import lib
from mc.core import Result, require
from mc.lib import M, g
from gerabaldi.exceptions import InvalidTypeError, MissingParamError, UserConfigError

BOUNDS = {
    'quick': 'unknown units (18) x 12 contexts; zero durations (22) x 3 contexts; loops x 11 groups x 8 durations; latents x 48 forms; variation types (14) x 2 '
    'classes x 16 layer sets x construction/assignment histories of 3; unnamed models; counts; undefined measurements (9 names) x all positions in tests of 1-4 steps x 3 environments',
    'thorough': 'as quick with assignment histories of 4 and tests of 1-5 steps',
}
CHUNK = 8
BAD_UNITS = ('minutes', 'min', 'm', 'weeks', 'w', 'H', 'Hours', 'HOURS', 'hour', 'sec', 'second', 'day', 'D', 'ns', 'y', '', ' h', 0)
GOOD_UNITS = {'d': 86400, 'days': 86400, 'h': 3600, 'hours': 3600, None: 3600, 's': 1, 'seconds': 1, 'ms': 1e-3, 'milliseconds': 1e-3, 'us': 1e-6, 'microseconds': 1e-6}
BAD_TYPES = ('sum', 'product', 'Scaling', 'OFFSET', 'scale', '', ' offset', None, 0, 1, False, 'multiplicative', 'offsets', ('scaling',))
NOMES = ('zz', '', 'P', 'mech', 'a', 'q', 'volt', 'time', 'init_val')


def cases(tier):
    out = []
    for u in range(len(BAD_UNITS)):
        out.append({'kind': 'unit', 'unit': u})
    out.append({'kind': 'good units'})
    out.append({'kind': 'durations'})
    for grp in range(len(GROUPS)):
        out.append({'kind': 'loops', 'group': grp})
    out.append({'kind': 'latents'})
    for cls in ('latent', 'env'):
        for layers in itertools.product((0, 1), repeat=3):
            for vtype in ('scaling', 'offset'):
                if cls == 'env' or layers[0]:
                    out.append({'kind': 'types', 'cls': cls, 'layers': layers, 'type': vtype, 'depth': 3 if tier == 'quick' else 4})
    out.append({'kind': 'names'})
    out.append({'kind': 'counts'})
    depth = 4 if tier == 'quick' else 5
    for n in range(1, depth + 1):
        for kinds in itertools.product('ms', repeat=n):
            for at in range(n):
                if kinds[at] == 'm':
                    for env in range(3):
                        out.append({'kind': 'undefined', 'steps': ''.join(kinds), 'at': at, 'env': env})
    return out


def run(case):
    res = Result()
    globals()[case['kind'].replace(' ', '_')](case, res)
    return res


def rejected(exc, call, what, *objs, layers=False):
    """The call has to raise exactly this kind of error and leave the objects as they were."""

    # Distributions are named by the variable they are handed to, also if that is refused
    def image(o):
        return [e for e in lib.deep_image(o) if not (layers and e[0].endswith('.name'))]

    before = [image(o) for o in objs]
    try:
        val = call()
    except exc:
        pass
    except Exception as e:
        require(False, '{}: rejected with {!r} instead of {}', what, e, exc.__name__)
    else:
        require(False, '{}: accepted, giving {}', what, val)
    for o, b in zip(objs, before):
        require(image(o) == b, '{}: rejected, but {} changed from {} to {}', what, o, b, image(o))


def done(res, *key):
    res.step()
    res.trace()
    res.state(*key)


# --------------------------------------------------------------------------------------------------------------------
def eqn(time, temp, a):
    return a * temp * time


def device(mech=None, prm=None, dev='h', fail=False):
    cls = M.FailMechMdl if fail else M.DegMechMdl
    mechs = cls(eqn, 'mech', 0, mech, a=M.LatentVar(lib.Fixed(1, 0.5)))
    return M.DeviceMdl({'p': M.DegPrmMdl(mechs, M.InitValMdl(init_val=M.LatentVar(deter_val=10)), prm_name='p', time_unit=prm)}, 'dev', dev)


def small_test():
    return M.TestSpec([M.MeasSpec({'p': 2}, {'temp': 2}), M.StrsSpec({'temp': 3}, timedelta(hours=4)), M.MeasSpec({'p': 2, 'temp': 1}, {'temp': 2})], 2, 1, 'test')


def unit(case, res):
    bad = BAD_UNITS[case['unit']]
    conds = {'temp': 3}
    for dur in (1, 2.5, 0, 1e-9, 1000):
        rejected(UserConfigError, lambda: M.StrsSpec(conds, dur, 's', bad), f'stress of {dur} {bad!r}', conds)
        done(res, 'strs', case['unit'], dur)
    test, steps = small_test(), [M.StrsSpec({'temp': 1}, timedelta(hours=2)), M.MeasSpec({'p': 1}, {'temp': 1})]
    for arg in (steps, steps[0], steps[1], []):
        for dur in (1, 4, 0, 0.5):
            rejected(UserConfigError, lambda: test.append_steps(arg, dur, bad), f'loop of {dur} {bad!r}', test, steps)
            done(res, 'loop', case['unit'], dur)
    # Models: refused when built or when first stressed, and working once corrected
    for where in ('mech', 'prm', 'dev') if bad else ():
        for fail in (False, True):
            for env in (M.PhysTestEnv(),):
                test = small_test()
                rejected(UserConfigError, lambda: g.simulate(test, device(**{where: bad}, fail=fail, **({} if where == 'dev' else {'dev': 'h'})), env), f'unit {bad!r} of the {where}', test, env)
                got = lib.table_key(g.simulate(test, device(), env))
                require(got == lib.table_key(g.simulate(small_test(), device(), M.PhysTestEnv())), 'unit {!r} of the {}: later simulations differ', bad, where)
                done(res, where, case['unit'], fail)
    # Reports: as simulated, converted, without measurements, reloaded
    folder = tempfile.mkdtemp(prefix='mc21_')
    try:
        for form in range(4):
            rep = g.simulate(small_test() if form != 2 else M.TestSpec([M.StrsSpec({'temp': 1}, 1, 's', 'h')]), device(), M.PhysTestEnv())
            if form == 1:
                rep.convert_report_time('s')
            if form == 3:
                rep.export_to_json(os.path.join(folder, 'r.json'))
                rep = M.SimReport(file=os.path.join(folder, 'r.json'))
            files = sorted(os.listdir(folder))
            rejected(UserConfigError, lambda: rep.convert_report_time(bad), f'report conversion to {bad!r}', rep)
            rejected(UserConfigError, lambda: rep.export_to_json(time_unit=bad), f'report export in {bad!r}', rep)
            rejected(UserConfigError, lambda: rep.export_to_json(os.path.join(folder, 'x.json'), bad), f'report export in {bad!r}', rep)
            require(sorted(os.listdir(folder)) == files, 'refused export in {!r} left a file', bad)
            rep.export_to_json(time_unit='d')
            rep.convert_report_time('d')
            done(res, 'report', case['unit'], form)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def good_units(case, res):
    for u, sec in GOOD_UNITS.items():
        for dur in (1, 2.5 if u not in ('us', 'microseconds') else 2, 1000):
            s = M.StrsSpec({'temp': 3}, dur, 's', u)
            require(abs(s.duration.total_seconds() - dur * sec) <= 1e-6, 'stress of {} {} lasts {}', dur, u, s.duration)
            test = M.TestSpec()
            test.append_steps(M.StrsSpec({'temp': 3}, dur, 's', u), dur * 3, u)
            require(len(test.steps) == 3, 'loop of {} {} has {} steps', dur * 3, u, len(test.steps))
            done(res, 'good', u, dur)
        rep = g.simulate(small_test(), device(mech=u), M.PhysTestEnv())
        rep.export_to_json(time_unit=u)
        rep.convert_report_time(u)
        g.simulate(small_test(), device(prm=u), M.PhysTestEnv())
        g.simulate(small_test(), device(dev=u), M.PhysTestEnv())
        done(res, 'good', u)


# --------------------------------------------------------------------------------------------------------------------
def durations(case, res):
    zero = [(timedelta(), None), (timedelta(hours=0), 'h'), (timedelta(days=1, hours=-24), 's')]
    zero += [(z, u) for u in GOOD_UNITS for z in (0, 0.0, -0.0)]
    zero += [(1e-9, 's'), (1e-13, 'h'), (1e-4, 'us')]
    for dur, u in zero:
        for name in ('s', 'unspecified'):
            conds = {'temp': 1}
            rejected(UserConfigError, lambda: M.StrsSpec(conds, dur, name, u), f'stress of {dur} {u}', conds)
            done(res, 'zero', str(dur), u, name)
        # A loop over nothing
        test, steps = small_test(), [M.StrsSpec({'temp': 1}, timedelta(hours=2)), M.MeasSpec({'p': 1}, {'temp': 1})]
        for arg in (steps, steps[0]):
            rejected(UserConfigError, lambda: test.append_steps(arg, dur, u), f'loop of {dur} {u}', test, steps)
            done(res, 'zero loop', str(dur), u)
    for dur, u in ((timedelta(microseconds=1), None), (1, 'us'), (1e-6, 's'), (1e-3, 'ms'), (timedelta(days=10000), None), (0.001, 'h')):
        s = M.StrsSpec({'temp': 1}, dur, 's', u)
        require(s.duration > timedelta(), 'duration {}', s.duration)
        test = M.TestSpec()
        test.append_steps(s, dur, u)
        require(test.steps == [s], 'loop of {} {} gave {}', dur, u, test.steps)
        done(res, 'nonzero', str(dur), u)


def S(hours):
    return M.StrsSpec({'temp': 1}, timedelta(hours=hours), f's{hours}')


def Me(name='m'):
    return M.MeasSpec({'p': 1}, {'temp': 1}, name)


# Group, whether it has stress
GROUPS = (
    (lambda: [], False),
    (lambda: Me(), False),
    (lambda: [Me()], False),
    (lambda: [Me('a'), Me('b')], False),
    (lambda: [Me('a'), Me('b'), Me('c')], False),
    (lambda: S(2), True),
    (lambda: [S(2)], True),
    (lambda: [Me(), S(2)], True),
    (lambda: [S(2), Me()], True),
    (lambda: [Me(), S(1), Me(), S(1)], True),
    (lambda: [S(0.5), S(1.5)], True),
)


def loops(case, res):
    make, stress = GROUPS[case['group']]
    for total, u in ((2, 'h'), (4, None), (timedelta(hours=6), None), (timedelta(hours=2), 'h'), (7200, 's'), (0.25, 'd'), (0, 'h'), (timedelta(), None)):
        for start in (0, 1):
            test, grp = small_test() if start else M.TestSpec(), make()
            before = list(test.steps)
            span = total if isinstance(total, timedelta) else timedelta(seconds=total * GOOD_UNITS[u])
            if not stress or not span:
                rejected(UserConfigError, lambda: test.append_steps(grp, total, u), f'loop of {total} {u} over group {case["group"]}', test, grp if isinstance(grp, list) else [grp])
                require(len(test.steps) == len(before) and all(a is b for a, b in zip(test.steps, before)), 'refused loop changed the steps')
                add = []
            else:
                test.append_steps(grp, total, u)
                add = (grp if isinstance(grp, list) else [grp]) * (span // timedelta(hours=2))
                require(test.steps == before + add, 'loop of {} {} over group {} gave {}', total, u, case['group'], test.steps)
            # Without a loop every group is fine
            test.append_steps(grp)
            plain = grp if isinstance(grp, list) else [grp]
            require(test.steps == before + add + plain, 'appending group {} gave {}', case['group'], test.steps)
            done(res, 'loop', case['group'], str(total), u, start)


# --------------------------------------------------------------------------------------------------------------------
def latents(case, res):
    for chp, lot, vtype, name in itertools.product((None, 1), (None, 1), ('scaling', 'offset'), (None, '', 'x')):
        layers = [M.Normal(1, 0.1, test_seed=3) if x else None for x in (chp, lot)]
        rejected(UserConfigError, lambda: M.LatentVar(None, *layers, None, name, vtype), f'latent without value, layers {chp} {lot}', layers, layers=True)
        rejected(UserConfigError, lambda: M.LatentVar(chp_vrtn_mdl=layers[0], lot_vrtn_mdl=layers[1], vrtn_type=vtype), 'latent without value', layers, layers=True)
        for dev, base in ((1, None), (None, 0), (None, 0.0), (None, 2.5), (1, 0), (1, -1)):
            var = M.LatentVar(M.Deterministic(3) if dev else None, *layers, base, name, vtype)
            vals = var.gen_latent_vals(2, 2, 2)
            require(vals.shape == (2, 2, 2), 'latent values of shape {}', vals.shape)
            if not chp and not lot:
                want = base if dev is None else 3 if base is None else 3 * base if vtype == 'scaling' else 3 + base
                require((vals == want).all(), 'latent values {} instead of {}', vals, want)
            done(res, 'latent', chp, lot, vtype, name, dev, base)


def types(case, res):
    """Bad types at construction and assigned in any history, for every set of layers."""
    lay = case['layers']

    def make(vtype):
        layers = [lib.Cycle([2.0 + i, 3.0 + i, 5.0 + i]) if x else None for i, x in enumerate(lay)]
        if case['cls'] == 'latent':
            return M.LatentVar(layers[0], layers[1], layers[2], 4.0, 'v', vtype)
        return M.EnvVrtnMdl(layers[0], layers[1], layers[2], vtype, 'v')

    def draw(o):
        if case['cls'] == 'latent':
            return o.gen_latent_vals(2, 2, 2).tolist()
        b = o.gen_batch_vrtn(10.0)
        c = o.gen_chp_vrtns(b, 2, 2)
        return [float(b), c.tolist(), o.gen_dev_vrtns(c, 2).tolist()]

    for bad in BAD_TYPES:
        rejected(InvalidTypeError, lambda: make(bad), f'{case["cls"]} of type {bad!r}')
        done(res, case['cls'], lay, repr(bad))
    # Histories of assignments: bad ones have no effect whatsoever
    ops = ['bad', 'scaling', 'offset', 'layer', 'draw']
    for n in range(1, case['depth'] + 1):
        for seq in itertools.product(ops, repeat=n):
            if 'bad' not in seq:
                continue
            for bad in BAD_TYPES if n < 3 else BAD_TYPES[:3]:
                a, b = make(case['type']), make(case['type'])
                for op in seq:
                    if op == 'bad':
                        rejected(InvalidTypeError, lambda: setattr(a, 'vrtn_type', bad), f'{case["cls"]} assigned type {bad!r} in {seq}', a)
                    elif op == 'draw':
                        require(draw(a) == draw(b), '{} {}: samples differ after a rejected type {!r}', case, seq, bad)
                    elif op == 'layer':
                        a.chp_vrtn_mdl, b.chp_vrtn_mdl = (None, None) if lay[1] else (lib.Cycle([7.0, 9.0]), lib.Cycle([7.0, 9.0]))
                    else:
                        a.vrtn_type = b.vrtn_type = op
                    res.step()
                require(a.vrtn_type == b.vrtn_type and draw(a) == draw(b), '{} {}: differs after a rejected type {!r}', case, seq, bad)
                res.trace()
                res.outcome(seq)


# --------------------------------------------------------------------------------------------------------------------
def names(case, res):
    def mech(name=None, cls=M.DegMechMdl):
        return cls(eqn, name, 0, 'h', a=M.LatentVar(deter_val=2))

    def prm(name=None, circ=False):
        if circ:
            return M.CircPrmMdl(lambda temp: temp * 2, name)
        return M.DegPrmMdl(mech('m'), prm_name=name)

    for cls in (M.DegMechMdl, M.FailMechMdl):
        for name in (None, ''):
            for pname in ('p', None):
                m = mech(name, cls)
                rejected(UserConfigError, lambda: M.DegPrmMdl(m, prm_name=pname), f'single unnamed mechanism ({name!r})', m)
                done(res, 'mech', cls.__name__, name, pname)
                # The rejected mechanism is fine once named, or in a mapping
                p = M.DegPrmMdl({'x': m}, prm_name='p')
                require(p.mech_mdl('x') is m, 'mechanism by mapping')
                m2 = mech(None, cls)
                m2.name = 'y'
                require(M.DegPrmMdl(m2, prm_name='p').mech_mdl('y') is m2, 'mechanism by name')
    for circ in (False, True):
        for name in (None, ''):
            for dname in ('dev', None):
                p = prm(name, circ)
                rejected(UserConfigError, lambda: M.DeviceMdl(p, dname, 'h'), f'single unnamed parameter ({name!r})', p)
                done(res, 'prm', circ, name, dname)
                require(M.DeviceMdl({'x': p}, 'dev', 'h').prm_mdl('x') is p, 'parameter by mapping')
                p2 = prm(None, circ)
                p2.name = 'y'
                require(M.DeviceMdl(p2, 'dev', 'h').prm_mdl('y') is p2, 'parameter by name')


def counts(case, res):
    dev, env = device(), M.PhysTestEnv({'temp': M.EnvVrtnMdl(lib.Cycle([1.0, 2.0]))})
    for args in ({}, {'dev_counts': None}, {'dev_counts': {}}, {'dev_counts': {}, 'num_chps': 2}, {'quantity_info': None}, {'elapsed_time': 5}):
        rejected(UserConfigError, lambda: g.gen_init_state(dev, **args), f'state with {args}', dev, args)
        done(res, 'state', str(args))
    state = g.gen_init_state(dev, {'p': 2}, 2, 1)
    require(state.init_prm_vals['p'].shape == (2 if False else 1, 2, 2), 'state of shape {}', state.init_prm_vals['p'].shape)
    for prms in (['p'], ['p', 'temp'], ['temp'], []):
        for extra in ({}, {'dev_mdl': dev}, {'dev_mdl': dev, 'target': 'measure'}, {'num_chps': 2, 'num_lots': 2}):
            base = {'temp': 3.0}
            e = M.PhysTestEnv({'temp': M.EnvVrtnMdl(M.Normal(0, 1, test_seed=2))})
            rejected(UserConfigError, lambda: e.gen_env_cond_vals(base, prms, **extra), f'conditions of {prms} without counts', e, base)
            done(res, 'conds', str(prms), str(sorted(extra)))
    vals = env.gen_env_cond_vals({'temp': 3.0}, {'p': 2}, None, dev, 'stress', 2, 1)
    require(vals['p']['temp'].shape == (1, 2, 2), 'conditions of shape {}', vals['p']['temp'].shape)


# --------------------------------------------------------------------------------------------------------------------
def three_env(env):
    if env == 0:
        return M.PhysTestEnv()
    instms = {'p': M.MeasInstrument('i', 6), 'temp': M.MeasInstrument('t', 4), 'zz': M.MeasInstrument('z', 3)}
    return M.PhysTestEnv({'temp': M.EnvVrtnMdl(chp_vrtn_mdl=lib.Fixed(0, 0.5)), **({'zz': M.EnvVrtnMdl()} if env == 2 else {})}, instms)


def undefined(case, res):
    """A parameter that is neither part of the device nor a condition of the step is measured at one position."""

    def build(bad=None, first=False):
        steps = []
        for i, kind in enumerate(case['steps']):
            if kind == 's':
                steps.append(M.StrsSpec({'temp': 2 + i}, timedelta(hours=3)))
            else:
                meas = {'p': 2, 'temp': 1}
                if bad is not None and i == case['at']:
                    meas = {bad: 1, **meas} if first else {**meas, bad: 1}
                # Other steps may well have the name as a condition
                steps.append(M.MeasSpec(meas, {'temp': 2, **({'volt': 5} if i != case['at'] else {})}))
        return M.TestSpec(steps, 2, 2, 'test')

    def state_of(dev):
        return g.gen_init_state(dev, {'p': 2}, 2, 2)

    want = lib.table_key(g.simulate(build(), device(), three_env(case['env'])))
    for bad in NOMES:
        for first in (False, True):
            for given in (False, True):
                dev, env, test = device(), three_env(case['env']), build(bad, first)
                state = state_of(dev) if given else None
                rejected(MissingParamError, lambda: g.simulate(test, dev, env, state), f'measurement of {bad!r}', dev, env, test, *([state] if given else []))
                # Everything still works
                got = lib.table_key(g.simulate(build(), dev, env, state))
                require(got == want, 'measurement of {!r} at {}: later simulation differs', bad, case)
                done(res, 'undefined', case['steps'], case['at'], case['env'], bad, first, given)
    # The neighbours: as a condition of that step, and as a parameter of the device
    test = build('volt')
    list(test)[case['at']].conditions['volt'] = 5
    got, sensors = lib.by_label(g.simulate(test, device(), three_env(case['env'])))
    require(sensors[(case['at'], 'volt')] == [5], 'sensor of a further condition reads {}', sensors)
    res.trace()
