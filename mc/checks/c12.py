"""C12 - simulating changes none of its inputs; runs are independent of history.

All sequences of operations (simulations with and without a given state, state generations, partial iterations, use of the
returned reports, runs aborted by an exception) up to a length over one set of shared objects are executed; each result must
be the one fresh objects give and the shared objects must keep everything they publicly show. Separately, an exception is
injected at every single call of a user-supplied equation or distribution of every kind of run, followed by clean runs."""

import itertools
import multiprocessing as mp
from datetime import timedelta

import numpy as np

from mc import lib
from mc.core import Result, require
from mc.lib import M, g

BOUNDS = {
    'quick': 'operation sequences of length 1-3 over 12 operations; a fault (2 exception types) at every callback of 5 kinds of run, then 5 clean runs',
    'thorough': 'operation sequences of length 1-4 over 12 operations; a fault (2 exception types) at every callback of 5 kinds of run, then 5 clean runs; pairs of faults at every 4th callback',
}
CHUNK = 16


class Abort(Exception):
    pass


class Stop(KeyboardInterrupt):
    pass


class Hook:
    """Counts the calls of user-supplied code and raises at the chosen one."""

    def __init__(self):
        self.calls, self.at, self.exc = 0, None, None

    def hit(self):
        self.calls += 1
        if self.at is not None and self.calls == self.at:
            raise self.exc(f'injected at call {self.at}')


HOOK = Hook()


class Rv(lib.Fixed):
    def sample(self, quantity=1):
        HOOK.hit()
        return super().sample(quantity)


def wear(time, temp, a, v=1.5):
    HOOK.hit()
    return a * temp * v * np.sqrt(time)


def fail(time, temp, lv):
    HOOK.hit()
    return np.where(temp > lv, temp, 0)


def single(time, temp, lv):
    HOOK.hit()
    return temp if temp > lv else 0


def shift(temp, k, v=2):
    HOOK.hit()
    return k * temp * v


def comb(init, cond, w, own):
    HOOK.hit()
    return init + cond * own + w


def start(a):
    HOOK.hit()
    return a + 1


def circ(p, f, temp, k, v=2):
    HOOK.hit()
    return p * k + f * temp * v


class World:
    def __init__(self, scale=1, light=False):
        lat = lambda s, i: M.LatentVar(Rv(s * scale, i), Rv(1, 0.125), Rv(1, 0.25))  # noqa: E731
        self.dev = M.DeviceMdl(
            {
                'p': M.DegPrmMdl(
                    {'w': M.DegMechMdl(wear, a=lat(1e-3, 1e-4))}, M.InitValMdl(start, a=lat(1, 0.1)),
                    M.CondShiftMdl(shift, k=lat(0.01, 0.01)), comb, own=lat(1, 0.5), time_unit='h',
                ),
                'f': M.DegPrmMdl({'v': M.FailMechMdl(fail, lv=lat(40, 10)), 'x': M.FailMechMdl(single, lv=lat(60, 20))}, M.InitValMdl(start, a=lat(2, 0.1))),
                'c': M.CircPrmMdl(circ, k=lat(3, 0.5)),
            },
            'dev',
        )
        self.env = M.PhysTestEnv(
            {'temp': M.EnvVrtnMdl(Rv(0.0, 0.01), Rv(0.0, 0.1), Rv(0.5, 0.0))},
            {'p': M.MeasInstrument('p', 5, Rv(0.001, 0.001), (0, 100)), 'temp': M.MeasInstrument(error=Rv(-1, 0))},
        )
        ms = M.MeasSpec({'p': 2, 'temp': 1}, {'temp': 30}, 'first')
        st = M.StrsSpec({'temp': 60}, timedelta(hours=10), 'hot')
        self.tests = {
            'A': M.TestSpec([ms, st, M.MeasSpec({'c': 1, 'f': 2}, {'temp': 25}), st, ms], 2, 1, 'A', 'test a'),
            'B': M.TestSpec([st, M.StrsSpec({'temp': 90, 'v': 3}, timedelta(hours=1)), M.MeasSpec({'c': 3, 'p': 1}, {'temp': 35, 'v': 3})], 1, 2, 'B', 'test b'),
        }
        if light:
            # Only one stress phase each
            self.tests['A'] = M.TestSpec([ms, st, M.MeasSpec({'c': 1, 'f': 2, 'p': 1}, {'temp': 25})], 2, 1, 'A', 'test a')
            self.tests['B'] = M.TestSpec([st, M.MeasSpec({'c': 3, 'p': 1}, {'temp': 35})], 1, 2, 'B', 'test b')
        self.counts = {'c': 3, 'p': 2}
        at, exc, HOOK.at = HOOK.at, HOOK.exc, None
        self.state = g.gen_init_state(self.dev, {'c': 3, 'p': 4, 'f': 3}, 2, 1, elapsed_time=timedelta(hours=7))
        HOOK.at, HOOK.exc = at, exc


def arrays(v):
    if isinstance(v, dict):
        return tuple((k, arrays(x)) for k, x in v.items())
    return tuple(np.shape(v)), tuple(map(repr, np.ravel(v).tolist()))


def show_state(s):
    return tuple(arrays(v) for v in (s.curr_prm_vals, s.init_prm_vals, s.curr_deg_mech_vals, s.init_deg_mech_vals, s.latent_var_vals)) + (str(s.elapsed),)


def show_latents(mdl):
    out = []
    for var in mdl.latent_vars:
        lv = mdl.latent_var(var)
        out.append((var, lv.name, lv.vrtn_type, lv.deter_val, id(lv), id(lv.dev_vrtn_mdl), id(lv.chp_vrtn_mdl), id(lv.lot_vrtn_mdl), lv.dev_vrtn_mdl.start))
    return tuple(out)


def show(world):
    """Everything the shared objects publicly show."""
    out = []
    for name, test in world.tests.items():
        out.append((name, test.name, test.description, test.num_chps, test.num_lots, tuple(id(s) for s in test.steps)))
        for s in test.steps:
            out.append((s.name, tuple(s.conditions.items()), str(getattr(s, 'duration', '')), tuple(getattr(s, 'measurements', {}).items())))
    dev = world.dev
    out.append((dev.name, dev.time_unit, tuple(dev.prm_mdl_list)))
    for p in dev.prm_mdl_list:
        mdl = dev.prm_mdl(p)
        out.append((p, id(mdl), mdl.name, mdl.compute, tuple(mdl.compute_args), show_latents(mdl)))
        if hasattr(mdl, 'mech_mdl_list'):
            out.append((tuple(mdl.mech_mdl_list), mdl.time_unit, id(mdl.init_mdl), id(mdl.cond_mdl), mdl.cond_mdl.unitary, show_latents(mdl.init_mdl), show_latents(mdl.cond_mdl)))
            for m in mdl.mech_mdl_list:
                mech = mdl.mech_mdl(m)
                out.append((m, id(mech), mech.name, mech.unitary, mech.time_unit, mech.compute, show_latents(mech)))
    env = world.env
    var = env.vrtn_mdl('temp')
    out.append((env.name, id(env.meas_instm('p')), env.meas_instm('p').name, id(var), var.name, var.vrtn_type, id(var.dev_vrtn_mdl), id(var.chp_vrtn_mdl), id(var.batch_vrtn_mdl)))
    out.append(tuple(world.counts.items()))
    out.append(show_state(world.state))
    return out


def sim(world, test, state=False):
    return lib.table_key(g.simulate(world.tests[test], world.dev, world.env, world.state if state else None))


def op_simA(w):
    return sim(w, 'A')


def op_simB(w):
    return sim(w, 'B')


def op_stateA(w):
    return sim(w, 'A', True)


def op_gen(w):
    return show_state(g.gen_init_state(w.dev, w.counts, 2, 2))


def op_genReport(w):
    # The counts of a report of the test: only what the report is for may change
    return show_state(g.gen_init_state(w.dev, quantity_info=M.SimReport(w.tests['B'])))


def op_iter(w):
    it = iter(w.tests['A'])
    first = next(it)
    # Left unfinished, with a simulation of the same test in between
    return (first.name, sim(w, 'A'), next(it).name)


def op_samples(w):
    need = w.tests['B'].calc_samples_needed()
    out = tuple(sorted(need.items()))
    need['p'] = 50
    return out


def op_useReport(w):
    # A user works with the returned report; later runs must not notice
    r = g.simulate(w.tests['B'], w.dev, w.env)
    key = lib.table_key(r)
    r.convert_report_time('s')
    r.measurements['measured'] = -1.0
    r.test_summary.loc[0, 'temp'] = 1e9
    r.dev_counts['p'] = 77
    return key


def op_alone(w):
    lat = w.dev.prm_mdl('p').gen_latent_vals(2, 1, 1)
    env = w.env.gen_env_cond_vals({'temp': 10, 'v': 2}, {'p': 2, 'temp': 1}, None, w.dev, 'measure')
    return arrays(lat), arrays(env)


def op_other(w):
    # Other objects of the same names and shapes but other values
    return sim(World(1.5), 'A')


def aborted(op, at):
    def go(w):
        HOOK.calls, HOOK.at, HOOK.exc = 0, at, Abort
        try:
            op(w)
        except Abort:
            return 'aborted'
        finally:
            HOOK.at = None
        return 'not reached'

    return go


OPS = {
    'simA': op_simA,
    'simB': op_simB,
    'stateA': op_stateA,
    'gen': op_gen,
    'genReport': op_genReport,
    'iter': op_iter,
    'samples': op_samples,
    'useReport': op_useReport,
    'alone': op_alone,
    'other': op_other,
    'abortA': aborted(op_simA, 45),
    'abortState': aborted(op_stateA, 4),
}
RUNS = ('simA', 'simB', 'stateA', 'gen', 'genReport')
_FRESH, _CALLS = {}, {}


def _clean(op):
    """The result of an operation over fresh objects in a process that has done nothing else."""
    HOOK.calls = 0
    w = World()
    HOOK.calls = 0
    return OPS[op](w), HOOK.calls


def setup():
    ctx = mp.get_context('fork')
    with ctx.Pool(1, maxtasksperchild=1) as pool:
        for op in OPS:
            _FRESH[op], _CALLS[op] = pool.apply(_clean, (op,))


def fresh(op):
    return _FRESH[op]


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    for n in range(1, depth + 1):
        for seq in itertools.product(OPS, repeat=n):
            # Operations without effects of their own are only interesting between others
            yield {'seq': list(seq)}
    for op in RUNS:
        for k in range(1, _CALLS[op] + 2):
            yield {'fault': [[op, k, 'Abort']]}
            if k % 3 == 0:
                yield {'fault': [[op, k, 'Stop']]}
    if tier != 'quick':
        for (o1, o2) in itertools.product(RUNS, repeat=2):
            for k in range(2, _CALLS[o1], 4):
                yield {'fault': [[o1, k, 'Abort'], [o2, max(1, _CALLS[o2] - k), 'Abort']]}


def diff(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return f'{str(a)[:600]} instead of {str(b)[:600]}'


def run(case):
    res = Result()
    w = World()
    before = show(w)
    hist = []

    def step(op):
        got = OPS[op](w)
        hist.append(op)
        want = fresh(op)
        require(got == want, 'after {} over shared objects {} gives {}', hist[:-1], op, diff(got, want) if got != want else '')
        now = show(w)
        require(now == before, 'inputs changed by {}: {}', hist, diff(now, before) if now != before else '')
        res.step()
        res.outcome(op, tuple(hist[:-1]))

    HOOK.at = None
    if 'seq' in case:
        for op in case['seq']:
            step(op)
        res.state(tuple(case['seq']))
    else:
        for op, k, exc in case['fault']:
            HOOK.calls, HOOK.at, HOOK.exc = 0, k, {'Abort': Abort, 'Stop': Stop}[exc]
            try:
                OPS[op](w)
                require(HOOK.calls < k, 'the injected exception of call {} was swallowed', k)
            except (Abort, Stop):
                pass
            finally:
                HOOK.at = None
            hist.append(f'{op} aborted at call {k}')
        now = show(w)
        require(now == before, 'inputs changed by {}: {}', hist, diff(now, before) if now != before else '')
        for op in ('iter',) + RUNS:
            step(op)
        res.state(str(case['fault']))
    res.trace()
    return res
