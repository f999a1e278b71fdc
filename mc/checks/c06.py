"""C06 - measuring does not disturb the devices.

For every short test all placements of up to two extra measurement steps (of several kinds: subsets, all devices, other
conditions, sensors, circuit parameters, repeated objects), all removals of measurement steps and all orders of the
measurement steps taken at one instant are simulated. The readings of the untouched steps must be bit-identical."""

import itertools
from datetime import timedelta

import numpy as np

from mc import lib
from mc.core import Result, require
from mc.lib import M, g

BOUNDS = {
    'quick': '14 base tests of 1-3 phases, 8 kinds of extra measurement at every place (pairs of them for 1-2 phases), all subsets and all orders of measurement steps, given and generated states; 6 measurements of 7 devices in no order',
    'thorough': '14 base tests of 1-3 phases, all single and pairs of 8 kinds of extra measurements at every place, triples for 1-2 phases, all subsets and orders, given and generated states; 6 measurements of 7 devices in no order',
}
DIMS = (2, 2)
TOP = 3
PHASES = {'a': (1.0, 30), 'b': (3.0, 100)}
BASE = {'p': 2, 'q': 1, 'c': 2, 'f': 2, 'k': 2}
# kind -> (counts, conditions)
EXTRA = {
    'one': ({'p': 1}, {'temp': 1.0}),
    'all': ({'p': TOP, 'q': TOP, 'c': TOP, 'f': TOP, 'k': TOP}, {'temp': 1.0}),
    'hot': ({'q': 2, 'p': TOP}, {'temp': 50.0}),
    'circ': ({'c': 2}, {'temp': 9.0, 'other': 3.0}),
    'sens': ({'temp': 3}, {'temp': 7.0}),
    'none': ({}, {'temp': 2.0}),
    'bare': ({'k': 2, 'f': 1}, {}),
    'fail': ({'f': 3, 'temp': 1}, {'temp': 4.0}),
}


SMALL = tuple(EXTRA)
BIG = {'p': 5, 'q': 7, 'c': 4, 'f': 7, 'k': 6}
# Measurements of larger populations
EXTRA.update({f'b{n}': ({p: n for p in BIG}, {'temp': 1.0 + n}) for n in (1, 3, 4, 6, 7)}, bone=({'k': 1, 'p': 3}, {'temp': 2.0}))


class Uneven(M.Deterministic):
    """Values in no order."""

    def __init__(self, start, inc):
        super().__init__(start)
        self.start, self.inc = start, inc

    def sample(self, quantity=1):
        return self.start + self.inc * (np.arange(quantity) * 5 % 11 * 1.0)


def device(generated, big=False):
    def var(start, inc):
        if big:
            return M.LatentVar(Uneven(start, inc))
        # With a generated state the number of devices may change the draws, thus only vary lots and chips
        if generated:
            return M.LatentVar(None, lib.Fixed(start, inc), lib.Fixed(1, 0.5), 1)
        return M.LatentVar(lib.Fixed(start, inc))

    return M.DeviceMdl(
        {
            'p': M.DegPrmMdl(
                {'w': lib.mech('lin', a=var(1e-3, 1e-4))},
                M.InitValMdl(init_val=var(2, 0.1)),
                M.CondShiftMdl(lambda temp, k: k * (temp - 1), k=var(0.01, 0.001)),
                time_unit='h',
            ),
            'q': M.DegPrmMdl(
                {'w': lib.mech('pow', 'sca', a=var(0.02, 0.003)), 'x': lib.mech('mul', a=var(0.01, 0.001))},
                M.InitValMdl(init_val=var(5, 0.2)),
                M.CondShiftMdl(lambda temp: 1 + temp / 100, unitary_val=1),
                lambda init, cond, w, x, own: (init + w * own) * cond * x,
                own=var(1, 0.1),
                time_unit='h',
            ),
            'f': M.DegPrmMdl(
                {'w': M.FailMechMdl(lambda time, temp, lv: (temp > lv) * 3.0, lv=var(1.5, 0.2))},
                M.InitValMdl(init_val=var(1, 1)),
                time_unit='h',
            ),
            # A shift without conditions
            'k': M.DegPrmMdl({'w': lib.mech('lin', a=var(1e-3, 1e-4))}, None, M.CondShiftMdl(lambda k: k, k=var(0.5, 0.25)), time_unit='h'),
            'c': M.CircPrmMdl(lambda p, q, temp, k: p * k + q * temp, k=var(2, 0.3)),
        }
    )


def cases(tier):
    deep = tier == 'thorough'
    for n in (1, 2, 3):
        for seq in itertools.product(PHASES, repeat=n):
            seq = ''.join(seq)
            slots = range(2 * n + 2)
            for gen in (0, 1):
                for kind, at in itertools.product(SMALL, slots):
                    yield {'seq': seq, 'gen': gen, 'extra': [[at, kind]]}
            for keep in itertools.product((0, 1), repeat=n + 1):
                if any(keep) and not all(keep):
                    yield {'seq': seq, 'gen': 0, 'keep': list(keep)}
                    yield {'seq': seq, 'gen': 1, 'keep': list(keep)}
            if n <= 2 or deep:
                for (k1, a1), (k2, a2) in itertools.product(itertools.product(SMALL, slots), repeat=2):
                    if a1 <= a2 and (deep or a2 - a1 <= 2):
                        yield {'seq': seq, 'gen': (a1 + a2) % 2, 'extra': [[a1, k1], [a2, k2]]}
            if n == 1 and deep:
                for combo in itertools.product(itertools.product(SMALL, slots), repeat=3):
                    if combo[0][1] <= combo[1][1] <= combo[2][1]:
                        yield {'seq': seq, 'gen': 0, 'extra': [[a, k] for k, a in combo]}
    for seq in ('a', 'ab') + (('ba', 'aba') if deep else ()):
        slots = range(2 * len(seq) + 2)
        kinds = [k for k in EXTRA if k[0] == 'b' and k != 'bare']
        for k1, a1 in itertools.product(kinds, slots):
            yield {'seq': seq, 'gen': 0, 'big': 1, 'extra': [[a1, k1]]}
            for k2, a2 in itertools.product(kinds, slots):
                if a1 <= a2 and (deep or a2 - a1 <= 1):
                    yield {'seq': seq, 'gen': 0, 'big': 1, 'extra': [[a1, k1], [a2, k2]]}
        for keep in itertools.product((0, 1), repeat=len(seq) + 1):
            if any(keep) and not all(keep):
                yield {'seq': seq, 'gen': 0, 'big': 1, 'keep': list(keep)}
    for seq in ('a', 'b', 'ab', 'ba'):
        for order in itertools.permutations(range(len(GROUP))):
            for at in range(len(seq) + 1):
                yield {'seq': seq, 'gen': 0, 'order': list(order), 'at': at}
        for at in range(len(seq) + 1):
            for times in (2, 3, 9):
                yield {'seq': seq, 'gen': 0, 'repeat': times, 'at': at}


GROUP = ['all', 'hot', 'circ', 'bare']


def meas(kind):
    counts, conds = EXTRA[kind]
    return M.MeasSpec(dict(counts), dict(conds), kind)


def build(seq, extra=(), keep=None, group=None, at=0, repeat=0, base=BASE):
    """Returns the steps and the names of the steps whose readings count, by step number."""
    out, names = [], {}

    def add(step, name=None):
        if name is not None:
            names[len(out)] = name
        out.append(step)

    slot = 0
    for n in range(len(seq) + 1):
        for a, kind in extra:
            if a == slot:
                add(meas(kind))
        slot += 1
        if keep is None or keep[n]:
            if n == at and repeat:
                step = M.MeasSpec(dict(base), {'temp': 1.0})
                for i in range(repeat):
                    add(step, ('base', n))
            else:
                add(M.MeasSpec(dict(base), {'temp': 1.0}), ('base', n))
        if group and n == at:
            for i in group:
                add(meas(GROUP[i]), ('group', i))
        for a, kind in extra:
            if a == slot:
                add(meas(kind))
        slot += 1
        if n < len(seq):
            t, h = PHASES[seq[n]]
            add(M.StrsSpec({'temp': t}, timedelta(hours=h)))
    return out, names


def simulate(steps, names, gen, state, big=False):
    dev = device(gen, big)
    report = g.simulate(M.TestSpec(steps, DIMS[1], DIMS[0]), dev, M.PhysTestEnv(), None if gen else state)
    out = {}
    for step, prm, lo, c, d, t, v in lib.readings(report):
        if step in names:
            out.setdefault(names[step], []).append((prm, lo, c, d, str(t), repr(v)))
    return out


_REF = {}


def reference(key, *args, **kw):
    if key not in _REF:
        big = len(key) == 3 and key[2] == 'big'
        state = g.gen_init_state(device(0, big), {p: 7 if big else TOP for p in 'pqfck'}, DIMS[1], DIMS[0])
        steps, names = build(*args, **kw)
        _REF[key] = (simulate(steps, names, key[1], state, big), state)
    return _REF[key]


def run(case):
    res = Result()
    seq, gen = case['seq'], case['gen']
    if 'order' in case:
        ref, state = reference((seq, gen, 'g', case['at']), seq, group=list(range(len(GROUP))), at=case['at'])
        steps, names = build(seq, group=case['order'], at=case['at'])
    elif 'repeat' in case:
        ref, state = reference((seq, gen), seq)
        steps, names = build(seq, at=case['at'], repeat=case['repeat'])
    elif 'big' in case:
        ref, state = reference((seq, gen, 'big'), seq, base=BIG)
        steps, names = build(seq, case.get('extra', ()), case.get('keep'), base=BIG)
    else:
        ref, state = reference((seq, gen), seq)
        steps, names = build(seq, case.get('extra', ()), case.get('keep'))
    got = simulate(steps, names, gen, state, 'big' in case)
    res.trace()
    for name, rows in got.items():
        times = case.get('repeat', 1) if name == ('base', case.get('at')) else 1
        want = ref[name] * times
        for r, w in itertools.zip_longest(rows, want):
            require(r == w, 'step {} reads {} but {} without the change of the measurement steps', name, r, w)
            res.step()
        res.outcome(name, tuple(rows))
    require(len(got) == len(set(names.values())), 'steps without readings')
    res.state(sorted(case.items(), key=str))
    return res
