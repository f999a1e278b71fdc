"""C13 - concurrent simulations over shared models do not interfere.

Two or three real threads simulate over shared objects under a controlled scheduler: only one runs at a time and control
changes exactly where the schedule says. Switch points are every executed source line of the package (sys.settrace) or every
call of user-supplied code. All schedules up to a preemption bound are executed; each thread's report must be the one it
gives alone."""

import os
import sys
import threading
from datetime import timedelta

import numpy as np

from mc import core, lib
from mc.core import Result, require
from mc.checks import c12
from mc.lib import M, g

BOUNDS = {
    'quick': '4 pairs of runs: one preemption at the first 2 executions of every source line; two preemptions at pairs of callback points of one pair (all first, every 15th second in turn); 3 threads with one preemption each at every 5th callback point',
    'thorough': '6 pairs of runs: one preemption at every executed source line; two preemptions at half of all pairs of callback points, and pairs of the first occurrence of source lines (stride 3); 3 threads',
}
ASSUMPTIONS = ['preemption inside of numpy, pandas and the interpreter is not modelled; switch points are source lines of the package and calls of user code']
CHUNK = 16
ROOT = os.path.join(os.path.realpath(core.REPO), 'gerabaldi') + os.sep


class Sched:
    """Hands one baton to one thread at a time. plan is a list of (thread, point number, next thread)."""

    def __init__(self, plan):
        self.plan = list(plan)
        self.cond = threading.Condition()
        self.turn = 0
        self.done = set()
        self.count = {}
        self.seen = {}
        self.progress = 0

    def start(self, me):
        self._wait(me)

    def _wait(self, me):
        with self.cond:
            while self.turn != me:
                last = self.progress
                if not self.cond.wait(timeout=3) and last == self.progress and self.turn not in self.done:
                    # The thread that should run is blocked by something this one holds: carry on
                    self.turn = me

    def point(self, me):
        self.progress += 1
        n = self.count[me] = self.count.get(me, 0) + 1
        if self.plan and self.plan[0][0] == me and self.plan[0][1] == n:
            nxt = self.plan.pop(0)[2]
            if nxt in self.done:
                return
            with self.cond:
                self.turn = nxt
                self.cond.notify_all()
            self._wait(me)
        elif self.turn != me:
            self._wait(me)

    def finish(self, me, order):
        with self.cond:
            self.done.add(me)
            rest = [t for t in order if t not in self.done]
            if rest:
                # The other one that was preempted first goes on, else the lowest
                self.turn = rest[0]
            self.cond.notify_all()


def tracer(sched, me, limit, job=None):
    seen = {}
    spread = None
    if limit == 'total':
        # Only counts how often each line runs
        seen, limit = _TOTAL.setdefault(job, {}), 1
    elif limit == 'spread':
        # The first, second, middle and last execution of each line: also those in later phases of the test
        spread = _TOTAL[job]

    def local(frame, event, arg):
        if event == 'line':
            if limit:
                # Only the first executions of each line, solver loops repeat the same lines hundreds of times
                key = (frame.f_code, frame.f_lineno)
                n = seen[key] = seen.get(key, 0) + 1
                if n not in (1, 2, spread.get(key, 0) // 2, spread.get(key, 0)) if spread is not None else n > limit:
                    return local
            sched.point(me)
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(ROOT):
            return local
        return None

    return glob


_LOCAL = threading.local()
_TOTAL = {}
LIMITS = {'line': 0, 'first': 1, 'few': 2, 'total': 'total', 'spread': 'spread'}


class CallbackHook:
    """Takes the place of the callback counter of C12: every call of user code is a possible switch point."""

    calls, at, exc = 0, None, None

    def hit(self):
        sched = getattr(_LOCAL, 'sched', None)
        if sched is not None:
            sched.point(_LOCAL.me)


def execute(jobs, plan, mode, names=()):
    """Run the jobs (callables) as threads under the plan; returns results and the number of points of each."""
    sched = Sched(plan)
    out, err = {}, {}

    def body(me):
        sched.start(me)
        try:
            if mode == 'call':
                _LOCAL.sched, _LOCAL.me = sched, me
            else:
                sys.settrace(tracer(sched, me, LIMITS[mode], names[me] if names else None))
            out[me] = jobs[me]()
        except BaseException as e:  # noqa: BLE001
            err[me] = e
        finally:
            sys.settrace(None)
            _LOCAL.sched = None
            sched.finish(me, range(len(jobs)))

    threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
    for t in threads:
        t.start()
    for t in threads:
        t.join(100)
        require(not t.is_alive(), 'simulations do not finish under schedule {}', plan)
    if err:
        raise core.Violation(f'schedule {plan} makes thread {min(err)} fail with {err[min(err)]!r}')
    return out, sched.count


# Jobs over a shared world
JOBS = {
    'simA': c12.op_simA,
    'simB': c12.op_simB,
    'stateA': c12.op_stateA,
    'gen': c12.op_gen,
    'iter': lambda w: [s.name for s in w.tests['A']],
    # Populations of the same shape with other wear, over several phases
    'simC': lambda w: c12.sim(w, 'C'),
    'simD': lambda w: c12.sim(w, 'D'),
}


def world():
    w = c12.World(light=True)
    h = lambda n: timedelta(hours=n)  # noqa: E731
    w.tests['C'] = M.TestSpec([M.StrsSpec({'temp': 60}, h(10)), M.StrsSpec({'temp': 90}, h(1)), M.MeasSpec({'p': 2, 'f': 2}, {'temp': 25})], 2, 1, 'C')
    w.tests['D'] = M.TestSpec([M.StrsSpec({'temp': 45}, h(30)), M.StrsSpec({'temp': 70}, h(5)), M.MeasSpec({'p': 2, 'f': 2}, {'temp': 35})], 2, 1, 'D')
    return w


PAIRS = [('simA', 'simA'), ('simA', 'simB'), ('stateA', 'stateA'), ('simB', 'gen'), ('gen', 'gen'), ('iter', 'simA')]
_ALONE, _POINTS = {}, {}


def setup():
    c12.HOOK = CallbackHook()
    for name in JOBS:
        _ALONE[name] = JOBS[name](world())
    for mode in ('line', 'call', 'first', 'few'):
        for pair in PAIRS:
            for name in pair:
                if (mode, name) not in _POINTS:
                    w = world()
                    _, count = execute([lambda: JOBS[name](w)], [], mode)
                    _POINTS[mode, name] = count.get(0, 0)
    for mode in ('total', 'spread'):
        for name in ('simC', 'simD'):
            w = world()
            _, count = execute([lambda: JOBS[name](w)], [], mode, [name])
            _POINTS[mode, name] = count.get(0, 0)


def cases(tier):
    deep = tier == 'thorough'
    for pair in PAIRS if deep else PAIRS[:4]:
        for first in (0, 1) if pair[0] != pair[1] else (0,):
            a, b = (pair[first], pair[1 - first])
            mode = 'line' if deep else 'few'
            pts = _POINTS[mode, a]
            size = 20
            for k in range(1, pts + 1, size):
                yield {'kind': 'pre1', 'jobs': [a, b], 'mode': mode, 'from': k, 'to': min(k + size, pts + 1)}
    for pair in (('simC', 'simD'), ('simD', 'simC'))[: 2 if deep else 1]:
        pts = _POINTS['spread', pair[0]]
        for k in range(1, pts + 1, 20):
            yield {'kind': 'pre1', 'jobs': list(pair), 'mode': 'spread', 'from': k, 'to': min(k + 20, pts + 1)}
    for pair in PAIRS if deep else PAIRS[:1]:
        for k in range(1, _POINTS['call', pair[0]] + 1):
            yield {'kind': 'pre2', 'jobs': list(pair), 'mode': 'call', 'k': k, 'stride': 2 if deep else 15}
    for k in range(1, _POINTS['call', 'simB'] + 1, 1 if deep else 5):
        yield {'kind': 'three', 'jobs': ['simB', 'simA', 'gen'], 'k': k}
    if deep:
        for pair in PAIRS[:2]:
            for k in range(1, _POINTS['first', pair[0]] + 1, 3):
                yield {'kind': 'pre2', 'jobs': list(pair), 'mode': 'first', 'k': k, 'stride': 3}


def check(names, out, plan):
    for i, name in enumerate(names):
        require(out[i] == _ALONE[name], 'schedule {}: {} in thread {} gives {}', plan, name, i, c12.diff(out[i], _ALONE[name]))


def run(case):
    res = Result()
    names = case['jobs']

    def go(plan, mode):
        w = world()
        before = c12.show(w)
        out, _ = execute([lambda n=n: JOBS[n](w) for n in names], plan, mode, names)
        check(names, out, plan)
        require(c12.show(w) == before, 'schedule {} changes the shared objects', plan)
        res.trace()
        res.step(len(plan) + len(names))
        res.state(tuple(names), mode, tuple(plan))
        res.outcome(tuple(names), len(plan))

    if case['kind'] == 'pre1':
        for k in range(case['from'], case['to']):
            go([(0, k, 1)], case['mode'])
    elif case['kind'] == 'pre2':
        k = case['k']
        for j in range(1 + k % case['stride'], _POINTS[case['mode'], names[1]] + 1, case['stride']):
            go([(0, k, 1), (1, j, 0)], case['mode'])
    else:
        k = case['k']
        for j in (1, 2, 5, 9, 14, 30):
            go([(0, k, 1), (1, j, 2)], 'call')
            go([(0, k, 2), (2, j, 1)], 'call')
            go([(0, k, 1), (1, j, 2), (2, 3, 0)], 'call')
    return res
