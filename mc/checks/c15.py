"""C15 - every parameter is provisioned with enough devices.

All assignments of device counts (absent, one, several) to all the parameters of a device, directly or through circuit
parameters, over one or two measurement steps are simulated with a generated state, and with given states of exactly the
needed and of more devices. Labels, values and times of the reports must agree with each other and with the closed form."""

import itertools
from datetime import timedelta

import numpy as np

from mc import lib
from mc.core import Result, require
from mc.lib import M, g

BOUNDS = {
    'quick': 'all 3^6 count assignments of one measurement step, 81 x 27 of two, 2 populations, 3 kinds of state, elapsed times; populations up to 260; circuits over subsets of 5 parameters; state generation alone for 3^5 counts x 4 populations',
    'thorough': 'all 4^6 count assignments of one measurement step, 243 x 81 of two, 2 populations, 3 kinds of state, elapsed times; populations up to 1025; circuits over subsets of 5 parameters; state generation alone for 4^5 counts x 9 populations',
}
CHUNK = 16
NAMES = ('p', 'q', 'r', 'c', 'd', 'temp')
DEPS = {'c': ('p',), 'd': ('p', 'r')}
DEG = ('p', 'q', 'r')


def cases(tier):
    deep = tier != 'quick'
    opts = (0, 1, 3) if not deep else (0, 1, 2, 4)
    for counts in itertools.product(opts, repeat=6):
        yield {'steps': [list(counts)], 'pop': 'dev' if sum(counts) % 2 else 'chip', 'stress': 1}
    one = [list(c) + [0] for c in itertools.product((0, 1, 3), repeat=5)]
    two = [c for c in one if deep or 0 in c[:2]]
    firsts = one if deep else [c for c in one if c[1] in (0, 1) and c[4] in (0, 3)]
    seconds = [c for c in two if (c[1] == 0 or deep) and c[2] != 1]
    for a, b in itertools.product(firsts, seconds):
        if deep or (sum(a) + sum(b)) % 3 == 0:
            yield {'steps': [a, b], 'pop': 'dev' if (a[0] + b[3]) % 2 else 'chip', 'stress': 1 + (a[0] + b[0]) % 2}
    # Tests without any measurement, without any stress, without any step
    for stress in (0, 1, 2):
        for pop in ('dev', 'chip'):
            yield {'steps': [], 'pop': pop, 'stress': stress}
            yield {'steps': [[2, 0, 0, 1, 0, 0]], 'pop': pop, 'stress': 0}
    # Large populations, in one of the places or all of them
    for big in (60, 260) if not deep else (17, 60, 129, 260, 1025):
        for at in range(6):
            for pop in ('dev', 'chip'):
                yield {'steps': [[big if n == at else 1 - n % 2 for n in range(6)]], 'pop': pop, 'stress': 1}
                yield {'steps': [[n % 2 for n in range(6)], [big if n == at else 0 for n in range(6)]], 'pop': pop, 'stress': 2}
    # Wide devices: circuits over every subset of five parameters, in groups
    subsets = [c for n in range(1, 6) for c in itertools.combinations('abcde', n)]
    for sub in subsets:
        for other in subsets if deep else subsets[:: 3 + len(sub) % 2]:
            for own, count, second in itertools.product((0, 1, 4), (1, 5), (0, 2, 7)):
                yield {'wide': [''.join(sub), ''.join(other)], 'own': own, 'count': count, 'second': second}
    for big in (60, 260):
        for at in range(5):
            for via in ('counts', 'report'):
                yield {'gen': [big if n == at else n % 2 for n in range(5)], 'lots': 1, 'chips': 2, 'via': via}
    pops = [(1, 1), (2, 3)] if not deep else list(itertools.product((1, 2, 3), repeat=2))
    for counts in itertools.product(opts, repeat=5):
        if any(counts):
            for lots, chips in pops:
                for via in ('counts', 'report'):
                    yield {'gen': list(counts), 'lots': lots, 'chips': chips, 'via': via}


def device(pop):
    def var(start, inc):
        if pop == 'dev':
            # One lot and chip: the i-th device always has the same value
            return M.LatentVar(lib.Fixed(start, inc))
        return M.LatentVar(None, lib.Fixed(start, inc), lib.Fixed(1, 0.5), 1)

    fail = lambda: M.FailMechMdl(lambda time, temp: temp * time / 100)  # noqa: E731
    return M.DeviceMdl(
        {
            'p': M.DegPrmMdl({'w': fail()}, M.InitValMdl(init_val=var(1, 0.1)), time_unit='h'),
            'c': M.CircPrmMdl(lambda p, k: p * k, k=var(2, 0.2)),
            'q': M.DegPrmMdl({'w': fail()}, M.InitValMdl(init_val=var(3, 0.3)), time_unit='h'),
            'd': M.CircPrmMdl(lambda r, p: r - p),
            'r': M.DegPrmMdl({'w': lib.mech('lin', a=var(1e-3, 1e-4))}, M.InitValMdl(init_val=var(5, 0.5)), time_unit='h'),
        }
    )


def needed(steps):
    need = {}
    for counts in steps:
        for name, n in zip(NAMES, counts):
            if n:
                need[name] = max(need.get(name, 0), n)
    for circ, prms in DEPS.items():
        for p in prms:
            if circ in need:
                need[p] = max(need.get(p, 0), need[circ])
    return need


def build(case):
    steps = []
    for n in range(max(len(case['steps']), case['stress'])):
        if n < case['stress']:
            steps.append(M.StrsSpec({'temp': 50 + n}, timedelta(hours=20)))
        if n < len(case['steps']):
            counts = {k: v for k, v in zip(NAMES, case['steps'][n]) if v}
            steps.append(M.MeasSpec(counts, {'temp': 30 + n}))
    return steps


def circuit(names):
    """The sum of the parameters, each weighted."""
    return eval(f"lambda {', '.join(names)}: " + ' + '.join(f'{10 ** "abcde".index(n)} * {n}' for n in names))


def run_wide(case, res):
    one, two = case['wide']
    prms = {'x': M.CircPrmMdl(circuit(one)), 'y': M.CircPrmMdl(circuit(two[::-1]))}
    for n, p in enumerate('abcde'):
        prms[p] = M.DegPrmMdl({'w': M.FailMechMdl(lambda time: 0 * time)}, M.InitValMdl(init_val=M.LatentVar(lib.Fixed(n + 1, 0.01))))
    counts = {'x': case['count']}
    if case['own']:
        counts = {'c': case['own'], **counts}
    steps = [M.MeasSpec(counts, {}), M.StrsSpec({}, 5, time_unit='h'), M.MeasSpec({'x': case['count'], 'a': 1}, {})]
    if case['second']:
        steps.insert(1, M.MeasSpec({'y': case['second'], 'e': 2}, {}))
    report = g.simulate(M.TestSpec(steps), M.DeviceMdl(prms), M.PhysTestEnv())
    res.trace()
    vals, _ = lib.by_label(report)
    want = {(i, n, 0, 0, d) for i, s in enumerate(steps) for n, c in getattr(s, 'measurements', {}).items() for d in range(c)}
    require(set(vals) == want, 'requested readings missing: {} extra: {}', sorted(want - set(vals)), sorted(set(vals) - want))
    for (i, name, _, _, d), v in vals.items():
        parts = {'x': one, 'y': two}.get(name, name)
        exact = sum((10 ** 'abcde'.index(p) if name in 'xy' else 1) * ('abcde'.index(p) + 1 + 0.01 * d) for p in parts)
        require(lib.close(v, exact, 1e-9), 'step {} {} of device {} reads {!r}, expected {!r}', i, name, d, v, exact)
        res.step()
    for name, circ in (('x', one), ('y', two)):
        if name == 'x' or case['second']:
            for p in circ:
                require(report.dev_counts[p] >= report.dev_counts[name], 'only {} devices of {} for {} of {}', report.dev_counts[p], p, report.dev_counts[name], name)
    res.state(str(sorted(case.items())))
    res.outcome(str(sorted(vals.items())))
    return res


def run(case):
    res = Result()
    if 'gen' in case:
        return run_gen(case, res)
    if 'wide' in case:
        return run_wide(case, res)
    lots, chips = (1, 1) if case['pop'] == 'dev' else (2, 2)
    steps = build(case)
    snap = [dict(getattr(s, 'measurements', {})) for s in steps]
    test = M.TestSpec(steps, chips, lots)
    base = g.simulate(test, device(case['pop']), M.PhysTestEnv())
    res.trace()
    stated(base, lots, chips, needed(case['steps']))
    want = set()
    for i, s in enumerate(steps):
        for name, num in getattr(s, 'measurements', {}).items():
            if name != 'temp':
                want |= {(i, name) + pos for pos in lib.positions((lots, chips, num))}
    vals, sensors = lib.by_label(base)
    require(set(vals) == want, 'requested readings missing: {} extra: {}', sorted(want - set(vals)), sorted(set(vals) - want))
    require(len(lib.summary(base)) == len(steps), 'summary has {} rows', len(lib.summary(base)))
    for key, v in vals.items():
        exact = value(case['pop'], key, steps)
        if exact is not None:
            require(lib.close(v, exact, 1e-9), '{} reads {!r}, expected {!r}', key, v, exact)
        res.step()
    require([dict(getattr(s, 'measurements', {})) for s in steps] == snap, 'counts of the test altered')
    res.outcome(str(sorted(vals.items())))

    need = needed(case['steps'])
    for extra in (0, 2):
        for hours in (0, 12.5):
            if extra and hours == 0 and len(case['steps']) > 1:
                continue
            dev = device(case['pop'])
            counts = {p: n + extra for p, n in need.items() if p != 'temp'}
            for p in ('p', 'q', 'r', 'c', 'd'):
                if extra:
                    counts.setdefault(p, 1)
            if not counts:
                counts = {'q': 1}
            given = dict(counts)
            elapsed = timedelta(hours=hours) if extra else hours
            state = g.gen_init_state(dev, counts, chips, lots, elapsed_time=elapsed)
            require(counts == given, 'counts {} altered to {}', given, counts)
            other = g.simulate(test, dev, M.PhysTestEnv(), state)
            res.trace()
            compare(base, other, timedelta(hours=hours), f'state of {given} starting at {elapsed}')
    res.state(str(case))
    return res


def stated(report, lots, chips, need):
    """The population that the report says it is about."""
    require((report.num_lots, report.num_chps) == (lots, chips), 'report states {} lots of {} chips', report.num_lots, report.num_chps)
    for prm, n in need.items():
        require(report.dev_counts.get(prm) == n, 'report states {} devices, needed are {}', report.dev_counts, need)


def compare(a, b, shift, what):
    ra, rb = lib.readings(a), lib.readings(b)
    require([r[:5] for r in ra] == [r[:5] for r in rb], '{}: labels differ {} {}', what, [r[:5] for r in ra][:9], [r[:5] for r in rb][:9])
    for x, y in zip(ra, rb):
        # Wear solved in arrays of other sizes may differ in the last digits of the solver
        tol = 3e-4 if x[1] in ('r', 'd') else 1e-12
        require(lib.close(x[6], y[6], tol), '{}: {} reads {!r}, generated automatically {!r}', what, x[:5], y[6], x[6])
        require(x[5] + shift == y[5], '{}: reading at {} instead of {}', what, y[5], x[5] + shift)
    sa, sb = lib.summary(a), lib.summary(b)
    require(len(sa) == len(sb), '{}: summary of {} rows instead of {}', what, len(sb), len(sa))
    for x, y in zip(sa, sb):
        for k in ('step name', 'step type', 'step number', 'duration'):
            require(x[k] == y[k], '{}: {} {} instead of {}', what, k, y[k], x[k])
        for k in ('start time', 'end time'):
            require(x[k] + shift == y[k], '{}: {} {} instead of {}', what, k, y[k], x[k] + shift)


def value(pop, key, steps):
    """Closed form of readings that need no solver."""
    step, prm, lo, c, d = key
    hot = [s for s in steps[:step] if isinstance(s, M.StrsSpec)]

    def var(start, inc):
        if pop == 'dev':
            return start + inc * d
        return (start + inc * (lo * 2 + c)) * (1 + 0.5 * lo)

    wear = hot[0].conditions['temp'] * 20 / 100 if hot else 0
    if prm == 'p':
        return var(1, 0.1) + wear
    if prm == 'q':
        return var(3, 0.3) + wear
    if prm == 'c':
        return (var(1, 0.1) + wear) * var(2, 0.2)
    return None


def run_gen(case, res):
    counts = {k: v for k, v in zip(NAMES, case['gen']) if v}
    lots, chips = case['lots'], case['chips']
    given = dict(counts)
    dev = device('chip')
    if case['via'] == 'counts':
        state = g.gen_init_state(dev, counts, chips, lots, elapsed_time=3)
    else:
        test = M.TestSpec([M.MeasSpec(counts, {'temp': 1})], chips, lots)
        report = M.SimReport(test)
        state = g.gen_init_state(dev, quantity_info=report, elapsed_time=timedelta(hours=3))
        stated(report, lots, chips, needed([case['gen'] + [0]]))
    require(counts == given, 'counts {} altered to {}', given, counts)
    require(state.elapsed == timedelta(hours=3), 'elapsed {}', state.elapsed)
    need = needed([case['gen'] + [0]])
    for prm in DEG:
        shape = np.shape(state.init_prm_vals[prm])
        require(shape[:2] == (lots, chips) and shape[2] >= need.get(prm, 1), '{} has shape {} for {}', prm, shape, given)
        require(np.shape(state.curr_prm_vals[prm]) == shape, 'current values of {} have another shape', prm)
        for m, v in state.init_deg_mech_vals[prm].items():
            require(np.shape(v) == shape, 'mechanism {} of {} has shape {}', m, prm, np.shape(v))
        for pos in lib.positions(shape):
            start, inc = {'p': (1, 0.1), 'q': (3, 0.3), 'r': (5, 0.5)}[prm]
            want = (start + inc * (pos[0] * chips + pos[1])) * (1 + 0.5 * pos[0])
            require(lib.close(float(state.init_prm_vals[prm][pos]), want), '{} {} starts at {!r}', prm, pos, float(state.init_prm_vals[prm][pos]))
            res.step()
    k = state.latent_var_vals['c']['k']
    require(np.shape(k)[:2] == (lots, chips) and np.shape(k)[2] >= need.get('c', 1), 'latents of c have shape {}', np.shape(k))
    res.trace()
    res.state(str(case))
    res.outcome(tuple(np.shape(state.init_prm_vals[p]) for p in DEG))
    return res
