"""C25 - equivalent ways of writing a model are equivalent.

The complete product of the alternatives that exist for each part of a model (alone or in a dictionary, omitted or its neutral
default written out, fixed value or degenerate distribution, neutral layers and environments in several forms, kinds of
callables) is built and simulated: every combination has to give the closed form of the canonical one. All orders of
mechanisms, parameters, conditions and latent variables give the same readings."""

import functools
import itertools

import numpy as np

from mc import lib
from mc.core import Result, require
from mc.lib import M, g

BOUNDS = {
    'quick': 'complete product of the alternatives: 2 devices x 2 mechanisms x 4 initial values x 5 shifts x 3 equations x 6 latents x 2 mechanism classes with 2 of 9 environments each, 15 kinds of callables in pairs at 5 places x 3 populations; 9 notations of 128 environments; sums of 1-7 mechanisms in 4 forms; 5 numeric types at 8 places; counts left out of 11 functions for 64 configurations; all orders of 3 mechanisms x 3 parameters x 3 conditions',
    'thorough': 'as quick, all 9 environments and 3 populations for the complete product',
}
CHUNK = 16
DEVICE = ('dict', 'single')
MECH = ('dict', 'single')
INIT = ('none', 'base0', 'dist0', 'eqn')
SHIFT = ('none', 'empty', 'const', 'zero', 'latent')
EQN = ('none', 'args', 'kwargs')
LATENT = ('base', 'dist', 'unit-layers', 'offset', 'offset-layers', 'split')
CLASS = ('deg', 'fail')
ENV = ('none', 'empty-dicts', 'empty-lists', 'default-models', 'zero-layers', 'unit-layers', 'list', 'exact-instruments', 'unrelated')
CALL = ('lambda', 'def', 'partial', 'object', 'method', 'static', 'class', 'keyword', 'wrapped', 'default', 'bound', 'reversed', 'closure', 'preset', 'preset-keyword')
SHAPES = ((1, 1, 1), (1, 2, 3), (2, 1, 2))
RATE = 0.25


# The equations as argument list and expression
EQNS = {
    'mech': ('time, temp, r', 'r * temp * time'),
    'init': ('a', 'a - 2'),
    'shift': ('temp, k', 'k * temp'),
    'comb': ('init, cond, m', 'init + cond + 2 * m'),
    'circ': ('p, temp', 'p * temp'),
}


def as_callable(kind, style):
    """The same equation as several kinds of callable. kind: which equation."""
    args, expr = EQNS[kind]
    code = {
        'lambda': f'f = lambda {args}: {expr}',
        'def': f'def f({args}):\n    out = {expr}\n    return out',
        'partial': f'f = functools.partial(lambda zz, {args}: zz + {expr}, 0)',
        'object': f'class C:\n    def __call__(self, {args}):\n        return {expr}\nf = C()',
        'method': f'class C:\n    def m(self, {args}):\n        return {expr}\nf = C().m',
        'static': f'class C:\n    @staticmethod\n    def m({args}):\n        return {expr}\nf = C.m',
        'class': f'class C:\n    @classmethod\n    def m(cls, {args}):\n        return {expr}\nf = C.m',
        'keyword': f'def f(*, {args}):\n    return {expr}',
        'wrapped': f'def inner({args}):\n    return {expr}\n@functools.wraps(inner)\ndef f(*zz, **yy):\n    return inner(*zz, **yy)',
        'default': f'def f({args}, zz=0.0, *, yy=1):\n    return ({expr}) * yy + zz',
        'bound': f'f = functools.partial(lambda {args}, zz: zz * ({expr}), zz=1.0)',
        'reversed': f'f = lambda {", ".join(args.split(", ")[::-1])}: {expr}',
        # Arguments that the model provides, although they have a default value
        'preset': f'f = lambda {", ".join(a + "=99.0" for a in args.split(", "))}: {expr}',
        'preset-keyword': f'def f(*, {", ".join(a + "=99.0" for a in args.split(", "))}):\n    return {expr}',
        'closure': f'def make(zz):\n    def f({args}):\n        return zz + {expr}\n    return f\nf = make(0)',
    }[style]
    scope = {'functools': functools}
    exec(code, scope)
    return scope['f']


def latent(form, val):
    one, zero = M.Deterministic(1), M.Deterministic(0.0)
    if form == 'base':
        return M.LatentVar(deter_val=val)
    if form == 'dist':
        return M.LatentVar(M.Deterministic(val))
    if form == 'unit-layers':
        return M.LatentVar(one, one, M.Deterministic(1.0), val)
    if form == 'offset':
        return M.LatentVar(deter_val=val, vrtn_type='offset')
    if form == 'offset-layers':
        return M.LatentVar(zero, zero, M.Deterministic(0), val, 'given', 'offset')
    # Exact in binary
    return M.LatentVar(M.Deterministic(val * 8), M.Deterministic(0.5), M.Deterministic(0.25), None, 'x')


def environment(form):
    zero, one = M.Deterministic(0), M.Deterministic(1)
    if form == 'none':
        return M.PhysTestEnv()
    if form == 'empty-dicts':
        return M.PhysTestEnv({}, {}, 'named')
    if form == 'empty-lists':
        return M.PhysTestEnv([], [])
    if form == 'default-models':
        return M.PhysTestEnv({'temp': M.EnvVrtnMdl()}, {'p': M.MeasInstrument()})
    if form == 'zero-layers':
        return M.PhysTestEnv({'temp': M.EnvVrtnMdl(zero, zero, zero)})
    if form == 'unit-layers':
        return M.PhysTestEnv({'temp': M.EnvVrtnMdl(one, one, one, 'scaling')})
    if form == 'list':
        return M.PhysTestEnv([M.EnvVrtnMdl(None, zero, name='temp')], [M.MeasInstrument('p'), M.MeasInstrument('temp')])
    if form == 'exact-instruments':
        wide = M.MeasInstrument('w', None, M.Deterministic(0), (-1e12, 1e12))
        return M.PhysTestEnv(None, {'p': wide, 'temp': wide})
    # Models and instruments of other conditions and parameters
    return M.PhysTestEnv({'other': M.EnvVrtnMdl(M.Deterministic(5), None, M.Deterministic(7))}, {'q': M.MeasInstrument('q', 1, M.Deterministic(100), (0, 1))})


def cases(tier):
    n = 0
    for combo in itertools.product(DEVICE, MECH, INIT, SHIFT, EQN, LATENT, CLASS):
        if tier == 'quick':
            # Two of the environments for every combination, in turn; all of them below
            yield {'m': list(combo), 'envs': [ENV[n % 9], ENV[(n // 9 + 4) % 9]], 'shapes': [n % 3]}
        else:
            yield {'m': list(combo), 'envs': list(ENV), 'shapes': [0, 1, 2]}
        n += 1
    for style in CALL:
        for other in CALL:
            for place in ('mech', 'init', 'shift', 'comb', 'circ'):
                yield {'call': [place, style, other], 'envs': list(ENV) if style == other else ENV[:2], 'shapes': [0, 1, 2]}
    for layers in itertools.product((0, 1), repeat=3):
        for kind in ('offset', 'scaling'):
            for instm in range(8):
                yield {'env': [list(layers), kind, instm]}
    for n in range(1, 8 if tier == 'quick' else 13):
        for first in range(n):
            yield {'sum': n, 'first': first}
    for place in NUMBERS:
        for kind in NUMBERS[place]:
            for style in ('array', 'single'):
                yield {'num': [place, kind, style]}
    for layers in itertools.product((0, 1), repeat=3):
        for kind in ('scaling', 'offset'):
            for given in range(4):
                yield {'counts': [list(layers), kind, given]}
    for mechs in itertools.permutations(range(3)):
        for prms in itertools.permutations(range(3)):
            for conds in itertools.permutations(range(3)):
                yield {'order': [list(mechs), list(prms), list(conds)]}


def build(combo):
    device, mech, init, shift, eqn, lat, cls = combo
    kind = M.DegMechMdl if cls == 'deg' else M.FailMechMdl
    fn = lambda time, temp, r: r * temp * time  # noqa: E731
    m = kind(fn, 'm' if mech == 'single' else None, r=latent(lat, RATE))
    iv = {
        'none': lambda: None,
        'base0': lambda: M.InitValMdl(init_val=M.LatentVar(deter_val=0)),
        'dist0': lambda: M.InitValMdl(init_val=M.LatentVar(M.Deterministic(0.0))),
        'eqn': lambda: M.InitValMdl(lambda a, b: a - b, 'start', a=latent(lat, 3.5), b=M.LatentVar(deter_val=3.5)),
    }[init]()
    cs = {
        'none': lambda: None,
        'empty': lambda: M.CondShiftMdl(),
        'const': lambda: M.CondShiftMdl(lambda: 0),
        'zero': lambda: M.CondShiftMdl(lambda temp: 0 * temp, 'shift', 0),
        'latent': lambda: M.CondShiftMdl(lambda temp, k: k * temp, k=M.LatentVar(deter_val=0)),
    }[shift]()
    comb = {
        'none': None,
        'args': lambda init, cond, m: init + m + cond,
        'kwargs': lambda **parts: sum(parts.values()),
    }[eqn]
    prm = M.DegPrmMdl(m if mech == 'single' else {'m': m}, iv, cs, comb, 'p' if device == 'single' else None)
    return M.DeviceMdl(prm if device == 'single' else {'p': prm})


def simulate(dev, env, shape, circ=False):
    lots, chips, devs = shape
    counts = {'p': devs, 'temp': 2}
    if circ:
        counts['c'] = devs
    test = M.TestSpec([M.MeasSpec(counts, {'temp': 2}), M.StrsSpec({'temp': 3.0}, 10, time_unit='h'), M.MeasSpec(counts, {'temp': 5.0})], chips, lots)
    return g.simulate(test, dev, env)


def compare(res, report, shape, want, what, tol):
    vals, sensors = lib.by_label(report)
    n = shape[0] * shape[1] * shape[2]
    require(len(vals) == 2 * n * len(want), '{}: {} readings instead of {}', what, len(vals), 2 * n * len(want))
    for (step, prm, *pos), v in vals.items():
        w = want[prm][step // 2]
        require(lib.close(v, w, tol, tol * 1e-3 if w else 1e-12), '{}: {} of device {} reads {!r} in step {}, expected {!r}', what, prm, pos, v, step, w)
        res.step()
    require(sensors == {(0, 'temp'): [2.0] * 2, (2, 'temp'): [5.0] * 2}, '{}: sensors read {}', what, sensors)
    res.trace()


def run(case):
    res = Result()
    if 'order' in case:
        return run_order(case, res)
    if 'sum' in case:
        return run_sum(case, res)
    if 'env' in case:
        return run_env(case, res)
    if 'counts' in case:
        return run_counts(case, res)
    if 'num' in case:
        return run_num(case, res)
    for shape in case['shapes']:
        shape = SHAPES[shape]
        for env in case['envs']:
            if 'm' in case:
                wear = 10 * 3.0 * RATE
                # Equivalent times are resolved to 0.001 h
                compare(res, simulate(build(case['m']), environment(env), shape), shape, {'p': (0.0, wear)}, (case['m'], env), 1e-9 if case['m'][6] == 'fail' else 2e-4)
            else:
                place, style, other = case['call']
                s = {k: other for k in ('mech', 'init', 'shift', 'comb', 'circ')}
                s[place] = style
                dev = M.DeviceMdl(
                    {
                        'p': M.DegPrmMdl(
                            {'m': M.FailMechMdl(as_callable('mech', s['mech']), r=M.LatentVar(deter_val=RATE))},
                            M.InitValMdl(as_callable('init', s['init']), a=M.LatentVar(deter_val=6.0)),
                            M.CondShiftMdl(as_callable('shift', s['shift']), k=M.LatentVar(deter_val=0.5)),
                            as_callable('comb', s['comb']),
                        ),
                        'c': M.CircPrmMdl(as_callable('circ', s['circ'])),
                    }
                )
                want = {'p': (4 + 1, 4 + 2.5 + 2 * 7.5), 'c': (4 * 2, (4 + 15) * 5)}
                compare(res, simulate(dev, environment(env), shape, True), shape, want, (case['call'], env), 1e-9)
            res.outcome(str(case.get('m', case.get('call'))), env, shape)
    res.state(str(case))
    return res


def run_sum(case, res):
    """The default parameter equation: initial value, shift and any number of mechanisms, in any rotation."""
    n = case['sum']
    names = [f'm{k}' for k in range(n)]
    order = names[case['first'] :] + names[: case['first']]
    total = 'init + cond + ' + ' + '.join(names)
    forms = {
        'default': None,
        'written out': eval(f'lambda init, cond, {", ".join(names)}: {total}'),
        'keywords': lambda init, cond, **kw: init + cond + sum(kw.values()),
        'single values': eval(f'lambda {", ".join(order)}, cond, init: {total} if init > 0 else {total}'),
    }
    for form, comb in forms.items():
        mechs = {m: M.FailMechMdl(lambda time, temp, w: w * temp, w=M.LatentVar(deter_val=2.0 ** int(m[1:]))) for m in order}
        dev = M.DeviceMdl({'p': M.DegPrmMdl(mechs, M.InitValMdl(init_val=M.LatentVar(deter_val=0.5)), M.CondShiftMdl(lambda temp: temp / 4), comb)})
        test = M.TestSpec([M.MeasSpec({'p': 2}, {'temp': 1}), M.StrsSpec({'temp': 3}, 10), M.MeasSpec({'p': 1}, {'temp': 2})], 2, 1)
        for r in lib.readings(g.simulate(test, dev, M.PhysTestEnv())):
            want = 0.5 + 0.25 if r[0] == 0 else 0.5 + 0.5 + 3.0 * (2**n - 1)
            require(lib.close(r[6], want), '{} mechanisms in order {}, equation {}: {} reads {!r} instead of {!r}', n, order, form, r[:5], r[6], want)
            res.step()
        res.trace()
        res.outcome('sum', n, form)
    res.state(str(case))
    return res


def run_env(case, res):
    """Environments that do something: the ways to write them agree with each other."""
    layers, kind, instm = case['env']

    def vrtn(name=None):
        rv = [lib.Fixed(1.5 + n, 0.25) if on else None for n, on in enumerate(layers)]
        return M.EnvVrtnMdl(*rv, kind, name)

    def late(name=None):
        mdl = M.EnvVrtnMdl(name=name)
        mdl.vrtn_type = kind
        for n, (on, attr) in enumerate(zip(layers, ('dev_vrtn_mdl', 'chp_vrtn_mdl', 'batch_vrtn_mdl'))):
            if on:
                setattr(mdl, attr, lib.Fixed(1.5 + n, 0.25))
        return mdl

    def keywords(name=None):
        keys = ('dev_vrtn_mdl', 'chp_vrtn_mdl', 'batch_vrtn_mdl')
        return M.EnvVrtnMdl(name=name, vrtn_type=kind, **{k: lib.Fixed(1.5 + n, 0.25) for n, (k, on) in enumerate(zip(keys, layers)) if on})

    def meter(name='generic'):
        return M.MeasInstrument(name, 4 if instm & 1 else None, lib.Fixed(0.001, 0.002) if instm & 2 else None, (-4, 40) if instm & 4 else None)

    envs = {
        'dictionaries': M.PhysTestEnv({'temp': vrtn(), 'v': vrtn()}, {'p': meter(), 'temp': meter(), 'c': meter()}),
        'lists': M.PhysTestEnv([vrtn('temp'), vrtn('v')], [meter('p'), meter('temp'), meter('c')]),
        'lists in other order': M.PhysTestEnv([vrtn('v'), vrtn('temp')], [meter('c'), meter('temp'), meter('p')]),
        'tuples': M.PhysTestEnv((vrtn('temp'), vrtn('v')), (meter('p'), meter('temp'), meter('c'))),
        'dictionary and list': M.PhysTestEnv({'v': vrtn('x'), 'temp': vrtn('y')}, [meter('temp'), meter('p'), meter('c')]),
        'list and dictionary': M.PhysTestEnv(meas_instms={'c': meter('z'), 'p': meter(), 'temp': meter()}, env_vrtns=[vrtn('temp'), vrtn('v')]),
        'layers set later': M.PhysTestEnv([late('temp'), late('v')], {'p': meter(), 'temp': meter(), 'c': meter()}, 'named'),
        'keywords': M.PhysTestEnv({'temp': keywords(), 'v': keywords()}, {'p': meter(), 'temp': meter(), 'c': meter()}),
    }
    shared, one = vrtn(), meter()
    envs['shared objects'] = M.PhysTestEnv({'temp': shared, 'v': shared}, {'p': one, 'temp': one, 'c': one})
    dev_ = lambda: M.DeviceMdl(  # noqa: E731
        {
            'p': M.DegPrmMdl({'m': M.FailMechMdl(lambda time, temp, v: temp * v)}, None, M.CondShiftMdl(lambda temp, v: temp - v)),
            'q': M.DegPrmMdl({'m': M.FailMechMdl(lambda time: 1.0)}, None, M.CondShiftMdl(lambda v: v)),
            'c': M.CircPrmMdl(lambda q, v: q * v),
        }
    )
    ref = None
    for form, env in envs.items():
        meas = {'p': 2, 'c': 1, 'temp': 3, 'q': 2, 'v': 1}
        test = M.TestSpec([M.MeasSpec(meas, {'temp': 2, 'v': 0}), M.StrsSpec({'temp': 3.0, 'v': 1}, 10), M.MeasSpec(meas, {'v': 0.5, 'temp': -5.0})], 2, 3)
        got = lib.readings(g.simulate(test, dev_(), env))
        ref = ref or got
        require(got == ref, 'environment {} written as {} instead of as dictionaries: readings {} instead of {}', case['env'], form, got, ref)
        res.trace()
        res.step(len(got))
    res.state(str(case))
    res.outcome(str(ref))
    return res


FLOATS = {'int': int, 'float': float, 'float64': np.float64, 'int64': np.int64, 'float32': np.float32}
NUMBERS = {
    'cond': FLOATS, 'base': FLOATS, 'dist': FLOATS, 'time': FLOATS, 'layer': FLOATS, 'limit': FLOATS,
    'unitary': {k: FLOATS[k] for k in ('int', 'float', 'float64')},
    'shift': {k: FLOATS[k] for k in ('int', 'float', 'float64')},
    'count': {'int': int},
}


def run_num(case, res):
    """Numbers that are exact in every type."""
    place, kind, style = case['num']
    n = {k: (NUMBERS[k][kind] if k == place else float) for k in NUMBERS}
    if style == 'array':
        mech = lambda time, temp, r: np.where(temp > 2, 1 + r * temp * time, 1)  # noqa: E731
        comb = lambda init, cond, m, own: init * cond * np.abs(m) + 0 * own  # noqa: E731
        shift = lambda temp, k: np.where(temp > 1, k * temp, 1)  # noqa: E731
    else:
        mech = lambda time, temp, r: 1 + r * temp * time if temp > 2 else 1  # noqa: E731
        comb = lambda init, cond, m, own: init * cond * abs(m) if own > 0 else init  # noqa: E731
        shift = lambda temp, k: k * temp if temp > 1 else 1  # noqa: E731
    dev = M.DeviceMdl(
        {
            'p': M.DegPrmMdl(
                {'m': M.FailMechMdl(mech, unitary_val=n['unitary'](1), r=M.LatentVar(deter_val=n['base'](3)))},
                M.InitValMdl(init_val=M.LatentVar(M.Deterministic(n['dist'](6)))),
                M.CondShiftMdl(shift, unitary_val=n['shift'](1), k=M.LatentVar(M.Deterministic(n['layer'](1)), M.Deterministic(n['layer'](2)), None, n['base'](1))),
                comb,
                own=M.LatentVar(deter_val=n['base'](1)),
            ),
        }
    )
    env = M.PhysTestEnv({'temp': M.EnvVrtnMdl(M.Deterministic(n['layer'](1)), M.Deterministic(n['layer'](2)))}, {'p': M.MeasInstrument('p', None, M.Deterministic(n['layer'](4)), (n['limit'](-100000), n['limit'](100000)))})
    counts = {'p': 2, 'temp': 1}
    dur = n['time'](8)
    for steps in ([M.StrsSpec({'temp': n['cond'](4)}, float(dur) if kind in ('int64', 'float32') else dur)],):
        test = M.TestSpec([M.MeasSpec(counts, {'temp': n['cond'](0)})] + steps + [M.MeasSpec(counts, {'temp': n['cond'](-4)})], 2, 1)
        vals, sensors = lib.by_label(g.simulate(test, dev, env))
        for (step, _, *pos), v in vals.items():
            want = 6 * (2 * 3) + 4 if step == 0 else 6 * (1 + 3 * 7 * 8) + 4
            require(v == want, '{}: device {} reads {!r} in step {}, expected {}', case['num'], pos, v, step, want)
            res.step()
        require(sensors == {(0, 'temp'): [3.0], (2, 'temp'): [-1.0]}, '{}: sensors read {}', case['num'], sensors)
        res.trace()
    res.state(str(case))
    res.outcome(str(case))
    return res


def run_order(case, res):
    mechs, prms, conds = case['order']

    def lat(val):
        return M.LatentVar(lib.Fixed(val, 0.125), deter_val=2.0)

    eqns = [
        ('a', lambda time, temp, k: k * temp),
        ('b', lambda time, vdd, k, j: (k + 3 * j) * vdd),
        ('d', lambda time, hum, temp, k: k * hum + temp),
    ]

    def prm(n):
        ms = {eqns[i][0]: M.FailMechMdl(eqns[i][1], **({'k': lat(i + n), 'j': lat(0.5)} if n % 2 else {'j': lat(0.5), 'k': lat(i + n)}) if i == 1 else {'k': lat(i + n)}) for i in mechs}
        return M.DegPrmMdl(ms, M.InitValMdl(init_val=lat(10 * n)), M.CondShiftMdl(lambda temp, vdd: 7 * temp - vdd), lambda init, cond, a, b, d: init + cond + a + 2 * b + 5 * d)

    names = ('x', 'y', 'z')
    models = {names[i]: prm(i) for i in prms}
    dev = M.DeviceMdl(models)
    c1, c2 = {'temp': 3.0, 'vdd': 1.5, 'hum': 40.0}, {'temp': 2.0, 'vdd': 1.25, 'hum': 0.0}
    order = [('temp', 'vdd', 'hum')[i] for i in conds]
    c1, c2 = {k: c1[k] for k in order}, {k: c2[k] for k in order}
    report = g.simulate(M.TestSpec([M.StrsSpec(c1, 4), M.MeasSpec({n: 2 for n in names}, c2)], 1, 2), dev, M.PhysTestEnv())
    vals, _ = lib.by_label(report)
    require(len(vals) == 12, '{} readings', len(vals))
    for (_, p, lo, c, d), v in vals.items():
        n, i = names.index(p), lo * 2 + d
        k = [2 * (m + n + 0.125 * i) for m in range(3)]
        j = 2 * (0.5 + 0.125 * i)
        want = 2 * (10 * n + 0.125 * i) + (7 * 2.0 - 1.25) + k[0] * 3.0 + 2 * (k[1] + 3 * j) * 1.5 + 5 * (k[2] * 40.0 + 3.0)
        require(lib.close(v, want), 'orders {}: {} of lot {} device {} reads {!r}, expected {!r}', case['order'], p, lo, d, v, want)
        res.step()
    res.trace()
    res.state(str(case))
    res.outcome(str(case))
    return res


def run_counts(case, res):
    """Numbers of devices, chips and lots that are left out are one."""
    layers, kind, given = case['counts']
    names = ('num_devs', 'num_chps', 'num_lots')[:given]
    full = dict(zip(('num_devs', 'num_chps', 'num_lots'), (2, 3, 2)[:given] + (1, 1, 1)[given:]))
    part = {k: full[k] for k in names}

    def rvs(start):
        return [lib.Fixed(start + n, 0.25) if on else None for n, on in enumerate(layers)]

    def lat(start):
        return M.LatentVar(*rvs(start), 2.0, None, kind)

    def prm():
        return M.DegPrmMdl({'w': M.DegMechMdl(lambda time, k: k * time, k=lat(1)), 'f': M.FailMechMdl(lambda time, k: k, k=lat(2), unitary_val=3)}, M.InitValMdl(init_val=lat(3)), M.CondShiftMdl(lambda temp, k: k * temp, k=lat(4)), None, None, own=lat(5))

    def dev():
        return M.DeviceMdl({'p': prm(), 'c': M.CircPrmMdl(lambda p, k: p * k, k=lat(6))})

    def env():
        return M.EnvVrtnMdl(*rvs(1), kind, 'temp')

    def state(make):
        def call(**n):
            n = dict(n)
            devs = n.pop('num_devs', 1)
            s = make({'p': devs, 'c': devs}, n)
            return {'init': s.init_prm_vals, 'mech': s.init_deg_mech_vals, 'lat': s.latent_var_vals}

        return call

    funcs = {
        'LatentVar.gen_latent_vals': lat(1).gen_latent_vals,
        'DegMechMdl.gen_latent_vals': M.DegMechMdl(lambda time, k: k * time, k=lat(1)).gen_latent_vals,
        'CondShiftMdl.gen_latent_vals': M.CondShiftMdl(lambda temp, k: k, k=lat(1)).gen_latent_vals,
        'CircPrmMdl.gen_latent_vals': M.CircPrmMdl(lambda temp, k: k, k=lat(1)).gen_latent_vals,
        'DegPrmMdl.gen_latent_vals': prm().gen_latent_vals,
        'DegPrmMdl.gen_init_mech_vals': prm().gen_init_mech_vals,
        'InitValMdl.gen_init_vals': M.InitValMdl(init_val=lat(3)).gen_init_vals,
        'EnvVrtnMdl.gen_env_vrtns': lambda **n: env().gen_env_vrtns(20.0, **n),
        'DeviceMdl.gen_init_state': state(lambda counts, n: dev().gen_init_state(counts, **n)),
        'gen_init_state': state(lambda counts, n: g.gen_init_state(dev(), counts, **n)),
        'TestSpec': lambda **n: lib.readings(g.simulate(M.TestSpec([M.StrsSpec({'temp': 4.0}, 3), M.MeasSpec({'p': n.get('num_devs', 1), 'c': n.get('num_devs', 1)}, {'temp': 2.0})], **{k: v for k, v in n.items() if k != 'num_devs'}), dev(), M.PhysTestEnv([env()]))),
    }
    for name, func in funcs.items():
        left, written = plain(func(**part)), plain(func(**full))
        require(left == written, '{} with only {} gives {}, with all counts {}', name, part, left, written)
        res.trace()
        res.step()
        res.outcome(name, given)
    res.state(str(case))
    return res


def plain(val):
    if isinstance(val, dict):
        return {k: plain(v) for k, v in val.items()}
    if isinstance(val, np.ndarray):
        return val.shape, val.tolist()
    return [str(v) for v in val] if isinstance(val, list) else val
