"""C16 - test specifications are built and iterated exactly as instructed.

All sequences of building operations up to a depth on two test specifications that share lists and step objects are run
against a list model; after every operation both tests, the lists handed in and the sample counts are compared. A grid of
groups and loop durations checks the number of repetitions and the warning."""

import itertools
from datetime import timedelta

from mc import lib
from mc.core import Result, require
from mc.lib import M, g
from gerabaldi.exceptions import UserConfigError

BOUNDS = {
    'quick': 'all operation sequences of length 1-4 over 21 operations from 4 starting points (last operation enumerated within); 17 groups x 24 loop durations x 4 notations; all interleavings of 2 (3) iterators of up to 4 (3) steps',
    'thorough': 'all operation sequences of length 1-5 over 21 operations from 4 starting points; 17 groups x 24 loop durations x 4 notations; all interleavings of 2 (3) iterators of up to 5 (4) steps',
}
CHUNK = 8


def H(hours):
    return timedelta(hours=hours)


class Spec:
    """List model of a test specification. share: the list a test is built from stays shared (a known finding); own: looping
    a test's own list repeats the growing list (a known finding)."""

    def __init__(self, steps=None, num_chps=1, num_lots=1, name='unspecified', description='none provided', share=False, own=False):
        self.steps = ([] if steps is None else steps) if share else list(steps or [])
        self.num_chps, self.num_lots, self.name, self.description, self.own = num_chps, num_lots, name, description, own

    def append_steps(self, steps, total=None, unit=None):
        arg = steps if isinstance(steps, list) else [steps]
        if total is None:
            self.steps.extend(list(arg))
            return
        total = total if isinstance(total, timedelta) else timedelta(**{{None: 'hours', 'h': 'hours'}.get(unit, unit): total})
        if not self.own or arg is not self.steps:
            want, verdict = loop_model(list(arg), total)
            self.steps.extend(want or [])
        else:
            verdict, t = loop_model(list(arg), total)[1], timedelta()
            if verdict != 'reject':
                while t < total:
                    self.steps.extend(list(arg))
                    t += sum((s.duration for s in arg if isinstance(s, M.StrsSpec)), timedelta())
                verdict = 'warn' if t % total else 'ok'
        if verdict == 'reject':
            raise UserConfigError
        if verdict == 'warn':
            raise UserWarning


class Steps:
    """The step objects, common to the real world and its models."""

    def __init__(self):
        self.s1, self.s2, self.s3 = M.StrsSpec({'temp': 1}, H(10), 's1'), M.StrsSpec({'temp': 2}, H(25), 's2'), M.StrsSpec({'v': 2}, timedelta(minutes=50), 's3')
        self.m1, self.m2 = M.MeasSpec({'p': 2, 'q': 1}, {'temp': 1}, 'm1'), M.MeasSpec({'q': 3, 'temp': 1}, {'temp': 3}, 'm2')


class World:
    """Two tests, and a list of the caller, over the real class or a model of it."""

    def __init__(self, start, make, steps=None):
        self.__dict__.update(vars(steps or Steps()))
        self.own = [self.s1, self.m1]
        if start == 0:
            self.tests = [make(), make()]
        elif start == 1:
            self.tests = [make(self.own, 2, 3, 'n', 'd'), make(self.own)]
        elif start == 2:
            first = make([self.m2, self.s2], name='first')
            self.tests = [first, make(first.steps)]
        else:
            self.tests = [make([]), make([self.m1])]

    def lists(self):
        return [[id(s) for s in t.steps] for t in self.tests] + [[id(s) for s in self.own]]


def loop_model(steps, total):
    """Appended steps, and whether the total is reported."""
    once = sum((s.duration for s in steps if isinstance(s, M.StrsSpec)), timedelta())
    if total == timedelta() or once == timedelta():
        return None, 'reject'
    reps = -(-total // once)
    return steps * reps, 'warn' if (once * reps) % total else 'ok'


def plain(i, pick):
    return lambda w: w.tests[i].append_steps(pick(w))


def plain_own(i, j):
    # The list of a test itself, or of the other one
    return lambda w: w.tests[i].append_steps(w.tests[j].steps)


def loop(i, pick, total, unit=None, src=None):
    def go(w):
        arg = pick(w) if src is None else w.tests[src].steps
        return w.tests[i].append_steps(arg, total, unit) if unit else w.tests[i].append_steps(arg, total)

    return go


def attempt(call):
    try:
        call()
    except UserConfigError:
        return 'reject'
    except UserWarning:
        return 'warn'
    return 'ok'


def mutate_list(w):
    w.own.append(w.m2)


OPS = {
    's1': plain(0, lambda w: w.s1),
    'm1': plain(0, lambda w: w.m1),
    'other m2': plain(1, lambda w: w.m2),
    'list': plain(0, lambda w: w.own),
    'other list': plain(1, lambda w: w.own),
    'new list': plain(0, lambda w: [w.m2, w.s2, w.m2]),
    'empty': plain(0, lambda w: []),
    'self': plain_own(0, 0),
    'from other': plain_own(0, 1),
    'other from': plain_own(1, 0),
    'mutate': mutate_list,
    'loop list': loop(0, lambda w: w.own, H(30)),
    'loop uneven': loop(0, lambda w: [w.s1, w.s2, w.m2], 50),
    'loop step': loop(1, lambda w: w.s3, 2.5, 'hours'),
    'loop shorter': loop(0, lambda w: [w.m1, w.s2], timedelta(hours=12.5)),
    'loop meas': loop(0, lambda w: w.m1, 10, 'h'),
    'loop meas list': loop(1, lambda w: [w.m1, w.m2], H(10)),
    'loop empty': loop(0, lambda w: [], 10, 'h'),
    'loop zero': loop(0, lambda w: w.own, 0, 'days'),
    'loop self': loop(0, None, H(20), None, 0),
    'loop other': loop(0, None, 1, 'days', 1),
}
NAMES = list(OPS)


def groups(w):
    tiny = M.StrsSpec({'temp': 1}, timedelta(microseconds=1), 'tiny')
    third = M.StrsSpec({'temp': 1}, timedelta(hours=1) / 3, 'third')
    tenth = M.StrsSpec({'temp': 1}, 0.1, 'tenth', 'h')
    return [
        w.s1, w.s2, w.s3, third, tenth, tiny, [w.s1], [w.s1, w.m1], [w.m1, w.s1], [w.s1, w.s1], [w.s1, w.m1, w.s2, w.m2], [w.s3, w.s3, w.s3], [tenth, w.m1, tenth],
        [w.m1, w.m2, w.s2], w.m1, [w.m1], [],
    ]


LOOPS = [0, 1, 2, 5, 9.999, 10, 10.001, 20, 25, 30, 35, 50, 70, 99.5, 100, 250, 1000, 0.1, 0.3, 0.5, 2.5, 1 / 3, 7 / 3, 1e-9]


def cases(tier):
    depth = 4 if tier == 'quick' else 5
    for n in range(depth):
        for start in range(4):
            for pre in itertools.product(range(len(NAMES)), repeat=n):
                yield {'start': start, 'pre': list(pre)}
    for n in range(0, depth + 1):
        for iters in (2, 3):
            if iters == 2 or n < depth:
                yield {'n': n, 'iters': iters}
    for grp in range(17):
        for dur in range(len(LOOPS)):
            yield {'group': grp, 'dur': dur}


ATTRS = {0: [(1, 1), (1, 1)], 1: [(2, 3), (1, 1)], 2: [(1, 1), (1, 1)], 3: [(1, 1), (1, 1)]}
TITLES = {1: [('n', 'd'), ('unspecified', 'none provided')], 2: [('first', 'none provided'), ('unspecified', 'none provided')]}
# Models in order of preference, the first without any finding
MODELS = (((False, False), None), ((False, True), 'C16-loop-own'), ((True, False), 'C16-shared-list'), ((True, True), 'C16-shared-list'))


def check(w, start, hist):
    """What holds of every test by itself, whatever its steps are."""
    for i, test in enumerate(w.tests):
        model = list(test.steps)
        seen = list(test)
        require(len(seen) == len(model) and all(a is b for a, b in zip(seen, model)), 'after {} iterating test {} yields {}', hist, i, [s.name for s in seen])
        need = {}
        for s in model:
            for p, n in getattr(s, 'measurements', {}).items():
                need[p] = max(n, need.get(p, 0))
        got = test.calc_samples_needed()
        require(got == need, 'after {} test {} needs {}, expected {}', hist, i, got, need)
        title = TITLES.get(start, [('unspecified', 'none provided')] * 2)[i]
        require((test.num_chps, test.num_lots) == ATTRS[start][i] and (test.name, test.description) == title, 'after {} the attributes of test {} have changed', hist, i)
    require(w.m1.measurements == {'p': 2, 'q': 1} and w.m2.measurements == {'q': 3, 'temp': 1} and w.s1.duration == H(10) and w.s3.duration == timedelta(minutes=50), 'steps altered after {}', hist)


def run(case):
    res = Result()
    if 'group' in case:
        return run_group(case, res)
    if 'iters' in case:
        return run_iter(case, res)
    for last in range(len(NAMES)):
        steps = Steps()
        w = World(case['start'], M.TestSpec, steps)
        models = [(World(case['start'], lambda *a, f=flags, **k: Spec(*a, **k, share=f[0], own=f[1]), steps), key) for flags, key in MODELS]
        good, first = models[0][0], None
        hist = []
        for op in case['pre'] + [last]:
            name = NAMES[op]
            if name in ('loop self', 'loop other', 'self') and max(len(t.steps) for t in w.tests) > 60:
                continue
            hist.append(name)
            got = attempt(lambda: OPS[name](w))
            left = []
            for m, key in models:
                verdict = attempt(lambda: OPS[name](m))
                if verdict == got and m.lists() == w.lists():
                    left.append((m, key))
                elif m is good:
                    first = (got, verdict, shown(w), shown(m))
            require(left, 'after {}: (outcome, expected outcome, steps, expected steps) are {}', hist, first)
            models = left
            res.step()
        if models[0][1]:
            res.finding(models[0][1])
        check(w, case['start'], hist)
        res.trace()
        res.state(case['start'], tuple(tuple(s.name for s in t.steps) for t in w.tests), len(w.own))
        res.outcome(tuple(len(t.steps) for t in w.tests))
    return res


def shown(w):
    return [[s.name for s in x] for x in (*(t.steps for t in w.tests), w.own)]


class Cursor:
    """Model of the known finding: all iterations over a test move one cursor."""

    def __init__(self, n):
        self.n, self.pos = n, None

    def start(self):
        self.pos = 0

    def next(self):
        if self.pos is None:
            return 'error'
        if self.pos < self.n:
            self.pos += 1
            return self.pos - 1
        self.pos = None
        return 'end'


def run_iter(case, res):
    """All interleavings of several iterators over one test, each of which also sees its end."""
    n, num = case['n'], case['iters']
    steps = [M.MeasSpec({'p': i + 1}, {'temp': i}, f's{i}') for i in range(n)]
    for order in interleavings(num, n + 1):
        test, cursor = M.TestSpec(list(steps)), Cursor(n)
        its = [None] * num
        got, bad = [[] for _ in range(num)], [[] for _ in range(num)]
        for i in order:
            if its[i] is None:
                its[i] = iter(test)
                cursor.start()
            bad[i].append(cursor.next())
            try:
                s = next(its[i])
                got[i].append(next((j for j, x in enumerate(steps) if x is s), 'unknown'))
            except StopIteration:
                got[i].append('end')
            except AttributeError:
                got[i].append('error')
            res.step()
        if got != [list(range(n)) + ['end']] * num:
            require(got == bad, 'iterators in schedule {} yield {}', order, got)
            res.finding('C16-shared-cursor')
        require(len(test.steps) == n and all(a is b for a, b in zip(test.steps, steps)), 'test changed by iterating')
        seen = list(test)
        require(len(seen) == n and all(a is b for a, b in zip(seen, steps)), 'later iteration yields {}', [s.name for s in seen])
        res.trace()
        res.state('iter', order)
    res.outcome(n, num)
    return res


def run_group(case, res):
    hours = LOOPS[case['dur']]
    total = timedelta(hours=hours)
    for form in ((total, None), (hours, 'h'), (hours, None), (hours * 3600, 's')):
        w = Steps()
        arg = groups(w)[case['group']]
        steps = list(arg) if isinstance(arg, list) else [arg]
        once = sum((s.duration for s in steps if isinstance(s, M.StrsSpec)), timedelta())
        if once and total / once > 5000:
            return res
        want, verdict = loop_model(steps, total)
        if form[1] == 's' and timedelta(seconds=form[0]) != total:
            continue
        test = M.TestSpec([w.m2])
        try:
            test.append_steps(arg, *form) if form[1] else test.append_steps(arg, form[0])
            got = 'ok'
        except UserConfigError:
            got = 'reject'
        except UserWarning:
            got = 'warn'
        require(got == verdict, 'looping {} for {}: {} instead of {}', [s.name for s in steps], form, got, verdict)
        model = [w.m2] + (want or [])
        require(len(test.steps) == len(model) and all(a is b for a, b in zip(test.steps, model)), 'looping {} for {} gives {} steps instead of {}', [s.name for s in steps], form, len(test.steps), len(model))
        if isinstance(arg, list):
            require(arg == steps, 'list altered')
        res.trace()
        res.step(len(model))
        res.outcome(len(model), verdict)
    res.state(str(case))
    return res


def interleavings(num, length):
    def rec(left):
        if not any(left):
            yield ()
            return
        for i in range(num):
            if left[i]:
                left[i] -= 1
                for rest in rec(left):
                    yield (i,) + rest
                left[i] += 1

    return rec([length] * num)
