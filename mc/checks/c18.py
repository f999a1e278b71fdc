"""C18 - seeded randomness is reproducible.

All sequences of sampling requests, parameter changes and interleavings with other objects up to a length are run on equally
seeded random variables of every distribution, over a menu of seeds that includes 0; the streams must be identical, and equal
to the affine image of the standard stream. Complete simulations with seeded variables are rebuilt and rerun in this process
and in fresh processes with different hash seeds."""

import hashlib
import itertools
import json
import os
import subprocess
import sys

import numpy as np

from mc import core, lib
from mc.core import Result, require
from mc.lib import M, g

BOUNDS = {
    'quick': '9 seeds x 3 distributions x all histories of length 1-4 over 3 request sizes and 2 parameter changes (interleaved with a second object); 6 simulations rebuilt in this and 5 other processes with different hash seeds',
    'thorough': '9 seeds x 3 distributions x all histories of length 1-5 over 3 request sizes and 2 parameter changes (interleaved with a second object); 6 simulations rebuilt in this and 12 other processes with different hash seeds',
}
CHUNK = 8
SEEDS = [0, 1, 2, 7, 42, 1234, 65535, 2**31 - 1, 2**40]
DISTS = {
    'normal': (M.Normal, ('mu', 'sigma'), [(0, 1), (2.5, 0.3), (-4.0, 7.0)]),
    'uniform': (M.Uniform, ('start', 'stop'), [(0, 1), (2.0, 3.5), (-10.0, 4.0)]),
    'gamma': (M.Gamma, ('alpha', 'beta'), [(2, 1), (2, 0.25), (2, 10.0)]),
}
SIZES = (1, 2, 5)
OPS = [('draw', 1), ('draw', 2), ('draw', 5), ('set', 1), ('set', 2)]


def cases(tier):
    deep = tier != 'quick'
    for dist in DISTS:
        for seed in SEEDS:
            for n in range(1, 5 + deep):
                for pre in itertools.product(range(len(OPS)), repeat=n - 1):
                    if n < 4 or sum(pre) % 3 == seed % 3 or deep:
                        yield {'kind': 'stream', 'dist': dist, 'seed': seed, 'pre': list(pre)}
    for a, b in itertools.product(DISTS, repeat=2):
        for s1, s2 in itertools.product(SEEDS[:5], repeat=2):
            yield {'kind': 'pair', 'a': a, 'b': b, 'seeds': [s1, s2]}
    for dist in DISTS:
        yield {'kind': 'free', 'dist': dist}
        for seed in (0, 42):
            for size in (1000, 50000, 400000):
                yield {'kind': 'long', 'dist': dist, 'seed': seed, 'size': size}
        for params in ([0.5, 0.5], [3, 2], [7.5, 0.1]):
            yield {'kind': 'moments', 'dist': dist, 'params': params}
    for conf in range(6):
        yield {'kind': 'sim', 'conf': conf}
    hashes = ['0', '1', '2', '77', 'random'] + ([str(n) for n in (3, 4, 5, 99, 1000, 4294967295)] + ['random'] if deep else [])
    for h in hashes:
        yield {'kind': 'proc', 'hash': h}


def make(dist, params, seed):
    cls, names, _ = DISTS[dist]
    kw = dict(zip(names, params))
    return cls(**kw, test_seed=seed) if seed is not None else cls(**kw)


def image(dist, params, std):
    """The standard draw with the given parameters."""
    a, b = params
    if dist == 'normal':
        return a + b * std
    if dist == 'uniform':
        return a + (b - a) * std
    return std / b


def run(case):
    res = Result()
    globals()['run_' + case['kind']](case, res)
    res.state(str(case))
    return res


def run_stream(case, res):
    dist, seed = case['dist'], case['seed']
    _, names, menu = DISTS[dist]
    for last in range(3):
        ops = [OPS[o] for o in case['pre']] + [OPS[last]]
        one, two, std = make(dist, menu[0], seed), make(dist, menu[0], seed), make(dist, menu[0], seed)
        other = make(dist, menu[0], seed + 1)
        alone = make(dist, menu[0], seed + 1)
        cur = menu[0]
        mixed = []
        for kind, arg in ops:
            if kind == 'set':
                cur = menu[arg]
                for obj in (one, two):
                    for name, v in zip(names, cur):
                        setattr(obj, name, v)
                continue
            # The second object has draws of others in between
            a = one.sample(arg)
            mixed.append(other.sample(2))
            np.random.random(3)
            b = two.sample(arg)
            ref = std.sample(arg)
            require(np.shape(a) == (arg,), 'request of {} gives shape {}', arg, np.shape(a))
            require(np.array_equal(a, b), '{} with seed {} differs after {}: {} and {}', dist, seed, ops, a, b)
            require(np.allclose(a, image(dist, cur, ref), 1e-9, 1e-12), '{} {} with seed {} draws {}, expected {}', dist, cur, seed, a, image(dist, cur, ref))
            res.step()
        require(np.array_equal(np.concatenate(mixed), np.concatenate([alone.sample(2) for _ in mixed])), 'stream of another object disturbed')
        res.trace()
        res.outcome(dist, seed, tuple(np.round(a, 9)))


def run_pair(case, res):
    """Objects created and used in any order have their own streams."""
    s1, s2 = case['seeds']
    ref = []
    for d, s in ((case['a'], s1), (case['b'], s2)):
        obj = make(d, DISTS[d][2][1], s)
        ref.append(np.concatenate([obj.sample(k) for k in SIZES]))
    for order in set(itertools.permutations([0, 0, 0, 1, 1, 1])):
        objs = [make(case['a'], DISTS[case['a']][2][1], s1), make(case['b'], DISTS[case['b']][2][1], s2)]
        got, n = [[], []], [0, 0]
        for i in order:
            got[i].append(objs[i].sample(SIZES[n[i]]))
            n[i] += 1
        for i in (0, 1):
            require(np.array_equal(np.concatenate(got[i]), ref[i]), 'objects {} share a stream in order {}', case, order)
        res.trace()
        res.step(6)
    if s1 != s2 and case['a'] == case['b']:
        require(not np.array_equal(ref[0], ref[1]), 'seeds {} give the same stream', case['seeds'])
    res.outcome(str(case), tuple(np.round(ref[0], 9)))


def run_long(case, res):
    """Long streams, requested at once or in parts, are as reproducible and never start over."""
    dist, seed, size = case['dist'], case['seed'], case['size']
    one, two = (make(dist, DISTS[dist][2][1], seed) for _ in range(2))
    seen = []
    while sum(map(len, seen)) < 400000:
        a = one.sample(size)
        require(np.array_equal(a, two.sample(size)), '{} with seed {} differs after {} draws', dist, seed, sum(map(len, seen)))
        seen.append(a)
        res.step()
    every = np.concatenate(seen)
    repeated = len(every) - len(np.unique(every))
    require(repeated < 10, '{} with seed {}: {} of {} draws repeat others', dist, seed, repeated, len(every))
    res.trace()
    res.outcome('long', dist, size)


def run_free(case, res):
    """Unseeded variables are independent of each other, of seeded ones and of the global generator."""
    dist = case['dist']
    seen = []
    for _ in range(4):
        np.random.seed(5)
        obj = make(dist, DISTS[dist][2][1], None)
        seen.append(tuple(obj.sample(4)))
        make(dist, DISTS[dist][2][1], 0).sample(4)
    require(len(set(seen)) == 4, 'unseeded {} variables share a stream', dist)
    seeded = {tuple(make(dist, DISTS[dist][2][1], s).sample(4)) for s in SEEDS}
    require(not seeded & set(seen), 'unseeded {} variable follows a seed', dist)
    require(len(seeded) == len(SEEDS), 'seeds share a stream')
    np.random.seed(11)
    want = np.random.random(3)
    np.random.seed(11)
    make(dist, DISTS[dist][2][1], 3).sample(10)
    make(dist, DISTS[dist][2][1], None).sample(10)
    require(np.array_equal(np.random.random(3), want), 'sampling disturbs the global generator')
    # Deterministic variables are constant, for every seed
    for v in (0, 3, -2.5):
        for kw in ({}, {'test_seed': 0}, {'test_seed': 9}):
            d = M.Deterministic(v, **kw)
            require(list(d.sample(3)) == [v] * 3 and list(d.sample()) == [v], 'deterministic {} drawn as {}', v, d.sample(3))
            d.value = 8
            require(list(d.sample(2)) == [8, 8], 'changed value without effect')
    res.trace()


def run_moments(case, res):
    """The parameters have the documented meaning (fixed seed, thus no chance involved)."""
    dist, (a, b) = case['dist'], case['params']
    if dist == 'uniform':
        a, b = min(a, b), max(a, b) + 1
    obj = make(dist, (a, b), 3)
    x = obj.sample(40000)
    mean, sd = {'normal': (a, b), 'uniform': ((a + b) / 2, (b - a) / 12**0.5), 'gamma': (a / b, a**0.5 / b)}[dist]
    require(abs(np.mean(x) - mean) < 6 * sd / 200 and abs(np.std(x) / sd - 1) < 0.06, '{} {} has mean {} and deviation {}, expected {} and {}', dist, (a, b), np.mean(x), np.std(x), mean, sd)
    if dist == 'uniform':
        require(np.min(x) >= a and np.max(x) <= b, 'outside of the range')
    res.trace()


# Simulations with seeded variables everywhere
def simulation(conf):
    seed = iter(range(conf * 100, conf * 100 + 99))

    def nv(mu, sig):
        return M.Normal(mu, sig, test_seed=next(seed))

    def lat(mu):
        return M.LatentVar(nv(mu, mu / 50), nv(1, 0.02), nv(1, 0.02) if conf % 2 else None)

    # Many conditions per parameter: the order in which they are drawn must not depend on the process
    def wear(temp, vdd, time, a, humid, freq):
        return a * (temp + vdd * 3 + humid / 7 + freq * 0.1) * np.sqrt(time)

    def shift(freq, humid, temp, vdd, k):
        return k * (temp - vdd + humid * 2 - freq)

    dev = M.DeviceMdl(
        {
            'alpha': M.DegPrmMdl({'w': M.DegMechMdl(wear, a=lat(1e-4)), 'x': M.FailMechMdl(lambda time, freq, temp, lv: np.where(temp + freq > lv, 1, 0), lv=lat(100))}, M.InitValMdl(init_val=lat(5)), M.CondShiftMdl(shift, k=lat(1e-3)), time_unit='h'),
            'beta': M.DegPrmMdl({'w': M.DegMechMdl(wear, a=M.LatentVar(M.Gamma(4, 4000, test_seed=next(seed))))}, M.InitValMdl(init_val=M.LatentVar(M.Uniform(1, 2, test_seed=next(seed)))), M.CondShiftMdl(shift, k=lat(2e-3)), time_unit='s'),
            'gamma': M.CircPrmMdl(lambda beta, alpha, temp, freq, vdd, k: k * alpha / beta + temp - freq * vdd, k=lat(3)),
        }
    )
    env = M.PhysTestEnv(
        {c: M.EnvVrtnMdl(nv(0, 0.1), nv(0, 0.2), nv(0, 0.3)) for c in ('temp', 'vdd', 'humid', 'freq')},
        {'alpha': M.MeasInstrument('alpha', 5, nv(0, 0.01)), 'temp': M.MeasInstrument('temp', 4, nv(0, 0.1), (0, 200))},
    )
    conds = [{'temp': 80, 'vdd': 1.2, 'humid': 50, 'freq': 3}, {'freq': 2, 'humid': 20, 'vdd': 1, 'temp': 25}]
    m = M.MeasSpec({'alpha': 2, 'gamma': 3, 'temp': 2, 'beta': 1, 'freq': 1}, conds[conf % 2])
    s = M.StrsSpec(conds[1 - conf % 2], 30, time_unit='h')
    test = M.TestSpec([m, s, m, s, m], 1 + conf % 3, 1 + conf // 3, f'conf {conf}')
    state = g.gen_init_state(dev, {'alpha': 3, 'beta': 4, 'gamma': 3}, 1 + conf % 3, 1 + conf // 3) if conf in (2, 3) else None
    return g.simulate(test, dev, env, state)


def digest(conf):
    return hashlib.sha256(repr(lib.table_key(simulation(conf))).encode()).hexdigest()


def run_sim(case, res):
    first = simulation(case['conf'])
    np.random.seed(case['conf'])
    np.random.random(5)
    M.Normal(test_seed=4).sample(3)
    second = simulation(case['conf'])
    a, b = lib.table_key(first), lib.table_key(second)
    require(a == b, 'rebuilt simulation {} differs', case['conf'])
    vals = [r[6] for r in lib.readings(first)]
    require(len({repr(v) for v in vals}) > len(vals) * 0.8, 'the simulation is not stochastic')
    res.trace(2)
    res.step(len(vals))
    res.outcome(case['conf'], a)


def run_proc(case, res):
    env = dict(os.environ, PYTHONHASHSEED=case['hash'], VERIF_REPO=core.REPO, PYTHONPATH=core.VERIF)
    code = 'from mc.checks import c18; import json; print("RESULT" + json.dumps([c18.digest(c) for c in range(6)] + [c18.streams()]))'
    proc = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], capture_output=True, text=True, env=env, cwd=core.VERIF, timeout=100)
    line = [ln for ln in proc.stdout.splitlines() if ln.startswith('RESULT')]
    require(bool(line), 'process failed: {}', proc.stderr[-1500:])
    got = json.loads(line[0][6:])
    want = [digest(c) for c in range(6)] + [streams()]
    require(got == want, 'with hash seed {} the simulations {} differ from this process', case['hash'], [i for i, (x, y) in enumerate(zip(got, want)) if x != y])
    res.trace(6)
    res.step(6)
    res.outcome(tuple(got))


def streams():
    return [make(d, DISTS[d][2][1], s).sample(3).tolist() for d in DISTS for s in SEEDS]
