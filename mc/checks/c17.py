"""C17 - reports survive conversion, export and reload.

All sequences of operations (convert to each unit, export in each unit with and without file, reload, refused units) up to a
length are applied to the reports of a menu of simulated tests; after every operation the report, the exported numbers and
the reloaded report are compared with the physical model of the original."""

import copy
import itertools
import json
import math
import os
import shutil
import tempfile
from datetime import timedelta

import pandas as pd

from mc import lib
from mc.core import Result, require
from mc.lib import M, g
from gerabaldi.exceptions import UserConfigError

BOUNDS = {
    'quick': 'all operation sequences of length 1-3 over 17 operations on 3 reports, length 1-2 on 9 reports, 22 sequences on one of 824 readings and 52 steps; 2-3 reports exported to one file in every order; 36 ways of naming a report; all pairs of 12 paths',
    'thorough': 'all operation sequences of length 1-4 over 17 operations on 3 reports, length 1-3 on 9 reports, 22 sequences on one of 824 readings and 52 steps; 2-4 reports exported to one file in every order; 36 ways of naming a report; all pairs of 12 paths',
}
CHUNK = 8
UNITS = {
    'days': 86400.0, 'd': 86400.0, 'hours': 3600.0, 'h': 3600.0, None: 3600.0, 'seconds': 1.0, 's': 1.0,
    'milliseconds': 1e-3, 'ms': 1e-3, 'microseconds': 1e-6, 'us': 1e-6,
}
OPS = (
    [('convert', u) for u in ('d', 'hours', None, 's', 'us')]
    + [('export', u) for u in ('days', 'h', None, 'seconds', 'ms', 'us')]
    + [('file', u) for u in ('d', None, 's', 'microseconds')]
    + [('bad convert', 'weeks'), ('bad export', 'minutes')]
)
# Where a report is written to, relative to the working directory; '#' is the absolute path of the working directory
PATHS = ('r.json', './s.json', 'a/r.json', 'a/b/c/r.json', './d/r', 'with space/r .json', 'a/../e/r.json', 'dot.dir/r', '\u00e9/\u4e2d.json', '#/r.json', '#/f/g/r.json', '#//h//r.json')
REPORTS = ('plain', 'sensors', 'elapsed', 'nomeas', 'short', 'long', 'odd', 'many', 'start')


def fx(start, inc):
    return M.LatentVar(lib.Fixed(start, inc))


def device(init=None, scale=1.0):
    return M.DeviceMdl(
        {
            'p': M.DegPrmMdl({'w': lib.mech('pow', a=fx(0.02 * scale, 0.003))}, M.InitValMdl(init_val=init or fx(1 / 3, 0.1)), time_unit='h'),
            'q': M.DegPrmMdl({'w': M.FailMechMdl(lambda time, temp: temp * time)}, M.InitValMdl(init_val=fx(-1e-7, 1e-9)), time_unit='h'),
            'c': M.CircPrmMdl(lambda p, q: p * 1e9 + q),
        }
    )


def make(name):
    meas = lambda c, t=25: M.MeasSpec(c, {'temp': t}, 'm')  # noqa: E731
    strs = lambda d, **kw: M.StrsSpec(dict(temp=90, **kw), d, 's')  # noqa: E731
    dev, env, state = device(), M.PhysTestEnv(), None
    if name == 'plain':
        test = M.TestSpec([meas({'p': 2}), strs(timedelta(hours=10)), meas({'p': 1, 'c': 2}), strs(timedelta(days=3)), meas({'q': 2})], 2, 2, 'Plain', 'a test')
    elif name == 'sensors':
        test = M.TestSpec([meas({'temp': 2, 'p': 1}), strs(timedelta(seconds=90), v=3.3), M.MeasSpec({'v': 1, 'temp': 1}, {'v': 1.5, 'temp': 30.25})], 1, 1, 'Sens "quoted"', 'unicode \u00e9\u4e2d\n')
    elif name == 'elapsed':
        test = M.TestSpec([strs(timedelta(hours=1.5)), meas({'p': 3}), meas({'p': 2})], 1, 1, 'E')
        state = g.gen_init_state(dev, {'p': 3, 'q': 1, 'c': 1}, elapsed_time=timedelta(days=2, seconds=1))
    elif name == 'nomeas':
        test = M.TestSpec([strs(timedelta(hours=7)), strs(timedelta(milliseconds=2), v=1)], 1, 1, 'No')
    elif name == 'short':
        test = M.TestSpec([meas({'p': 1}), strs(timedelta(microseconds=3)), meas({'p': 1}), strs(timedelta(milliseconds=5)), meas({'p': 1})], 1, 1, 'Short')
    elif name == 'long':
        test = M.TestSpec([meas({'p': 1})] + [s for n in range(4) for s in (strs(timedelta(days=3653 * (n + 1))), meas({'p': 2}))], 1, 1, 'Long')
    elif name == 'odd':
        # Extreme readings: infinite, not-a-number, huge, tiny, integral
        dev = device(M.LatentVar(lib.Cycle([math.inf, -math.inf, math.nan, 1e300, 5e-324, 123456789012345.0, 0.1])))
        test = M.TestSpec([meas({'p': 7}), M.MeasSpec({'q': 1}, {'temp': 1}, ' m\t'), M.StrsSpec({'temp': 2.5}, 1, '\u00e9 '), meas({'temp': 1}, 300)], 1, 1, '  Odd\tname ', '')
    elif name == 'start':
        # Everything at time zero
        test = M.TestSpec([meas({'p': 2, 'temp': 1}), meas({'c': 1})], 1, 2, 'Start')
    elif name == 'big':
        # Many readings of many devices, and many steps
        test = M.TestSpec([meas({'p': 33, 'temp': 20})] + [strs(timedelta(hours=n + 1)) for n in range(50)] + [meas({'p': 100, 'q': 1})], 2, 3, 'Big')
    else:
        test = M.TestSpec([s for n in range(12) for s in (strs(timedelta(hours=n + 1)), meas({'p': 2, 'temp': 1}))], 2, 1, 'Many')
    return g.simulate(test, dev, env, state)


def cases(tier):
    deep = tier != 'quick'
    for n in range(1, 4 + deep):
        for rep in REPORTS:
            if n > 2 + deep and rep not in ('plain', 'sensors', 'nomeas'):
                continue
            for pre in itertools.product(range(len(OPS)), repeat=n - 1):
                yield {'report': rep, 'pre': list(pre)}
    for pre in [()] + [(op,) for op in range(len(OPS))] + [(0, 11), (3, 4), (12, 2), (14, 14)]:
        yield {'report': 'big', 'pre': list(pre)}
    for names in itertools.product((None, 'N', ' n\t'), (None, 'D', ''), (None, 'T'), (None, 'd')):
        yield {'names': list(names)}
    for path in PATHS:
        for second in PATHS:
            yield {'paths': [path, second]}
    # Several reports exported to the same file one after the other
    for n in range(2, 4 + deep):
        for over in itertools.product(REPORTS, repeat=n):
            yield {'over': list(over)}


def num(v):
    return None if v is None or (isinstance(v, float) and math.isnan(v)) else v


def secs(t, unit):
    """Seconds of a time of a report, which is a timedelta or a number in the unit."""
    if isinstance(t, timedelta):
        return t.total_seconds()
    return float(t) * UNITS[unit]


class Model:
    """What a report must show, in seconds."""

    def __init__(self, report):
        self.name, self.desc = report.test_name, report.test_description
        self.rows = lib.readings(report)
        self.rows = [r[:5] + (r[5].total_seconds(), r[6]) for r in self.rows]
        self.summ = []
        for row in lib.summary(report):
            self.summ.append({k: v.total_seconds() if isinstance(v, timedelta) else num(v) for k, v in row.items()})
        self.meas_cols = set(report.measurements.columns)
        self.end = self.summ[-1]['end time']


def same_num(a, b):
    a, b = num(a), num(b)
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return lib.close(float(a), float(b), 1e-9, 0)


def same_time(a, b, unit_s):
    # Times are whole microseconds
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 6e-7


def check_report(report, model, unit, what):
    """unit: None while the times of the readings are timedeltas, else the unit of their numbers."""
    require(report.test_name == model.name and report.test_description == model.desc, '{}: name or description {!r} {!r}', what, report.test_name, report.test_description)
    rows = lib.readings(report)
    require(len(rows) == len(model.rows), '{}: {} readings instead of {}', what, len(rows), len(model.rows))
    for got, want in zip(rows, model.rows):
        require(got[:5] == want[:5], '{}: labels {} instead of {}', what, got[:5], want[:5])
        if unit is None:
            require(isinstance(got[5], timedelta), '{}: time {!r} is not a timedelta', what, got[5])
        else:
            require(not isinstance(got[5], timedelta), '{}: time {!r} is not a number', what, got[5])
        t = secs(got[5], None if unit is None else unit[0])
        require(same_time(t, want[5], 1), '{}: reading {} at {} s instead of {} s', what, got[:5], t, want[5])
        require(same_num(got[6], want[6]), '{}: reading {} is {!r} instead of {!r}', what, got[:5], got[6], want[6])
    check_summary(lib.summary(report), model, lambda t: t.total_seconds() if isinstance(t, timedelta) else None, what)


TIMES = ('duration', 'start time', 'end time')


def check_summary(summ, model, to_secs, what):
    require(len(summ) == len(model.summ), '{}: {} steps instead of {}', what, len(summ), len(model.summ))
    for got, want in zip(summ, model.summ):
        require(set(got) == set(want), '{}: columns {} instead of {}', what, sorted(got), sorted(want))
        for k, w in want.items():
            if k in TIMES:
                t = to_secs(got[k])
                require(t is not None and same_time(t, w, 1), '{}: {} is {!r} instead of {} s', what, k, got[k], w)
            else:
                require(same_num(got[k], w), '{}: {} is {!r} instead of {!r}', what, k, got[k], w)


def check_json(data, model, asked, what, current=None):
    # A plain export uses the unit the report is in: hours, until it is converted or loaded in another
    asked = asked or current or 'hours'
    require(data['Test Name'] == model.name and data['Description'] == model.desc, '{}: exported name {!r} {!r}', what, data['Test Name'], data['Description'])
    declared = data['Time Units'].lower()
    require(declared in UNITS, '{}: declares unit {!r}', what, declared)
    require(UNITS[declared] == UNITS[asked], '{}: export in {} declares {}', what, asked, declared)
    scale = UNITS[declared]

    def table(text):
        t = json.loads(text) if isinstance(text, str) else text
        return pd.DataFrame(t)

    meas = table(data['Measurements'])
    require(len(meas) == len(model.rows), '{}: {} exported readings instead of {}', what, len(meas), len(model.rows))
    for got, want in zip(meas.to_dict('records'), model.rows):
        labels = (int(got['step #']), got['param']) + tuple(None if num(got[c]) is None else int(got[c]) for c in ('lot #', 'chip #', 'device #'))
        require(labels == want[:5], '{}: exported labels {} instead of {}', what, labels, want[:5])
        require(same_time(float(got['time']) * scale, want[5], scale), '{}: exported time {!r} {} instead of {} s', what, got['time'], declared, want[5])
        require(same_num(got['measured'], want[6]), '{}: exported reading {!r} instead of {!r}', what, got['measured'], want[6])
    check_summary(table(data['Test Summary']).to_dict('records'), model, lambda t: float(t) * scale, what)


def run(case):
    res = Result()
    folder = tempfile.mkdtemp(prefix='mc17_')
    try:
        if 'names' in case:
            run_names(case['names'], folder, res)
            return res
        if 'paths' in case:
            run_paths(case['paths'], folder, res)
            return res
        if 'over' in case:
            run_over(case['over'], folder, res)
            return res
        for last in range(len(OPS)):
            run_one(case['report'], case['pre'] + [last], folder, res)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    return res


def run_names(names, folder, res):
    """A report has the name and description given to it, otherwise those of its test, also after a reload."""
    name, desc, tname, tdesc = names
    kw = {k: v for k, v in (('name', tname), ('description', tdesc)) if v is not None}
    test = M.TestSpec([M.MeasSpec({'p': 1}, {'temp': 1}), M.StrsSpec({'temp': 2}, timedelta(hours=1))], **kw)
    ran = g.simulate(test, device(), M.PhysTestEnv())
    require((ran.test_name, ran.test_description) == (test.name, test.description), 'report of {} is named {}', (test.name, test.description), (ran.test_name, ran.test_description))
    own = M.SimReport(test, name, desc)
    want = (name or test.name, desc or test.description)
    require((own.test_name, own.test_description) == want, 'report named {} instead of {}', (own.test_name, own.test_description), want)
    require((own.num_chps, own.num_lots, own.dev_counts) == (1, 1, {'p': 1}), 'report of {} chips, {} lots, {}', own.num_chps, own.num_lots, own.dev_counts)
    blank = M.SimReport(name=name, description=desc)
    require((blank.test_name, blank.test_description) == (name, desc), 'empty report named {}', (blank.test_name, blank.test_description))
    # The tables of one report put into the others
    for report in (own, blank):
        report.measurements, report.test_summary = ran.measurements.copy(), ran.test_summary.copy()
        file = f'{folder}/r.json'
        report.export_to_json(file, 'h')
        again = M.SimReport(file=file)
        require((again.test_name, again.test_description) == (report.test_name, report.test_description), 'reloaded as {}', (again.test_name, again.test_description))
        require(again.measurements['measured'].tolist() == ran.measurements['measured'].tolist(), 'readings lost')
        res.step()
    res.trace()
    res.state('names', tuple(names))
    res.outcome('names', want)


_MADE = {}


def run_paths(paths, folder, res):
    """A file is written exactly where asked, whatever was there before."""
    before = os.getcwd()
    os.chdir(folder)
    try:
        kept = {}
        for name, path in zip(('plain', 'sensors'), paths):
            path = path.replace('#', folder)
            if name not in _MADE:
                _MADE[name] = make(name)
            report = copy.deepcopy(_MADE[name])
            report.export_to_json(path)
            require(os.path.isfile(path), 'exporting to {} after {} wrote no such file', path, list(kept))
            kept[os.path.realpath(path)] = name
            for full, first in kept.items():
                check_report(M.SimReport(file=full), Model(_MADE[first]), None, f'report exported to {full}, then {path}')
            files = {os.path.realpath(os.path.join(d, f)) for d, _, fs in os.walk(folder) for f in fs}
            require(files == set(kept), 'exporting to {} wrote {}', path, sorted(files - set(kept)))
            res.step()
    finally:
        os.chdir(before)
    res.trace()
    res.state('paths', tuple(paths))
    res.outcome('paths', len(kept))



def run_over(names, folder, res):
    path = os.path.join(folder, 'same.json')
    for n, name in enumerate(names):
        if name not in _MADE:
            _MADE[name] = make(name)
        report = copy.deepcopy(_MADE[name])
        model = Model(report)
        what = f'reports {names[: n + 1]} exported to one file'
        report.export_to_json(path)
        with open(path) as f:
            check_json(json.load(f), model, None, what)
        check_report(M.SimReport(file=path), model, None, what + ' (reloaded)')
        res.step()
    res.trace()
    res.state('over', tuple(names))


def run_one(name, ops, folder, res):
    if name not in _MADE:
        _MADE[name] = make(name)
    report = copy.deepcopy(_MADE[name])
    model = Model(report)
    unit = None  # or (unit,)
    current = None  # what a plain export uses
    hist = []
    for n, op in enumerate(ops):
        kind, u = OPS[op]
        hist.append(f'{kind} {u}')
        what = f'report {name} after {hist}'
        if kind == 'convert':
            report.convert_report_time(u) if u else report.convert_report_time()
            unit = (u,)
            current = u or 'hours'
        elif kind == 'export':
            data = report.export_to_json(time_unit=u) if u else report.export_to_json()
            check_json(json.loads(json.dumps(data)), model, u, what, current)
        elif kind == 'file':
            # A folder that does not exist yet, at any depth
            path = os.path.join(folder, *[f'{name}{i}_{n}_{len(os.listdir(folder))}' for i in range(1 + n)], 'r.json')
            report.export_to_json(path, u) if u else report.export_to_json(file=path)
            with open(path) as f:
                check_json(json.load(f), model, u, what, current)
            current = u or current or 'hours'
            check_report(report, model, unit, what)
            loaded = M.SimReport(file=path)
            check_report(loaded, model, None, what + ' (reloaded)')
            # Carry on with the reloaded report in the rest of the history
            report, unit = loaded, None
        else:
            try:
                report.convert_report_time(u) if kind == 'bad convert' else report.export_to_json(time_unit=u)
                require(False, '{}: unit {} accepted', what, u)
            except UserConfigError:
                pass
        res.step()
        if n == len(ops) - 1:
            check_report(report, model, unit, what)
    res.trace()
    res.state(name, tuple(ops))
    res.outcome(name, str(unit), tuple(str(r[5]) for r in lib.readings(report))[:4])
