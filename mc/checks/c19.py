"""C19 - exporting to inference frameworks is faithful and side-effect free.

Variables: every combination of framework, variation type, defined layers, distribution per layer and deterministic value is
exported; the exported random variables are read back from the framework (number, family, parameters) and the exported
expression is evaluated at distinct values of them, against what the simulation samples. Histories: every sequence of
exports (either framework, repeated, failing), samplings and reassignments up to a length is run on one variable and, without
the exports, on an identically seeded twin: attributes and samples have to agree after every operation. Models: every small
model is exported with observations; centre and observations are compared with its equation."""

import itertools
import math

from mc import core
from mc.core import Result, require

core.load(True)
from mc import lib  # noqa: E402
import numpy as np  # noqa: E402
import gerabaldi.models as M  # noqa: E402

NEEDS_CBI = True
BOUNDS = {
    'quick': 'frameworks {pymc, pyro} x 2 variation types x 4 layer sets x 3 families per layer (+ a fixed layer) x 6 base values; '
    'all histories of 3 operations over 11 kinds x 4 variables; 96 models with 1-3 latents',
    'thorough': 'as quick, with all histories of 4 operations',
}
ASSUMPTIONS = ['PyMC and Pyro describe the distributions they are given correctly']
CHUNK = 4
LAYERS = ('dev', 'chp', 'lot')
FAMILIES = ('normal', 'uniform', 'gamma')
SETS = (('dev',), ('dev', 'chp'), ('dev', 'lot'), ('dev', 'chp', 'lot'))
BASES = (None, 0, 1, 2.5, -1.5, 1000)
PRM = {
    'normal': {'dev': (3.0, 0.5), 'chp': (1.25, 0.125), 'lot': (0.75, 0.25)},
    'uniform': {'dev': (1.0, 2.5), 'chp': (0.5, 1.5), 'lot': (0.25, 1.75)},
    'gamma': {'dev': (2.0, 4.0), 'chp': (3.0, 0.5), 'lot': (5.0, 2.0)},
}
VALS = {'dev': 3.0, 'chp': 7.0, 'lot': 11.0}


def make(family, layer, seed=5, name=None):
    if family is None:
        return None
    if family == 'fixed':
        return M.Deterministic(2.0)
    cls = {'normal': M.Normal, 'uniform': M.Uniform, 'gamma': M.Gamma}[family]
    return cls(*PRM[family][layer], name=name, test_seed=seed)


def variable(fams, vtype, base, name='var'):
    return M.LatentVar(*(make(f, la, 5 + i) for i, (f, la) in enumerate(zip(fams, LAYERS))), base, name, vtype)


def cases(tier):
    out = []
    for fw in ('pymc', 'pyro'):
        for layers in SETS:
            for vtype in ('scaling', 'offset'):
                for fams in itertools.product(FAMILIES, repeat=len(layers)):
                    out.append({'kind': 'var', 'fw': fw, 'type': vtype, 'layers': list(layers), 'fams': list(fams)})
    for fw in ('pymc', 'pyro'):
        for vtype in ('scaling', 'offset'):
            out.append({'kind': 'fixed', 'fw': fw, 'type': vtype})
    depth = 3 if tier == 'quick' else 4
    for start in range(len(STARTS)):
        for pre in itertools.product(range(len(OPS)), repeat=depth - 1):
            out.append({'kind': 'hist', 'start': start, 'pre': list(pre)})
    for fw in ('pymc', 'pyro'):
        for n in (1, 2, 3):
            for vtype in ('scaling', 'offset'):
                for layers in SETS:
                    for base in (None, 2.5):
                        out.append({'kind': 'mdl', 'fw': fw, 'n': n, 'type': vtype, 'layers': list(layers), 'base': base})
    return out


def run(case):
    res = Result()
    if case['kind'] == 'var':
        fams = [case['fams'][case['layers'].index(la)] if la in case['layers'] else None for la in LAYERS]
        for base in BASES:
            one_var(case['fw'], case['type'], fams, base, res)
    elif case['kind'] == 'fixed':
        one_fixed(case['fw'], case['type'], res)
    elif case['kind'] == 'hist':
        for last in range(len(OPS)):
            history(case['start'], case['pre'] + [last], res)
    else:
        one_mdl(case, res)
    return res


# --------------------------------------------------------------------------------------------------------------------
# What a framework was given: [(name, family, centre, spread)], and the exported quantity at given values of them
NAMED = {}


def named(fw, var, found, what):
    # An exported variable is found in the framework by its name, in Pyro if it is not computed from several
    if fw == 'pymc':
        require(NAMED['name'] == var.name, '{}: {} is exported as {}', what, var.name, NAMED['name'])
    elif len(found) == 1:
        require(found[0][0] == var.name, '{}: {} is exported as {}', what, var.name, found[0][0])


def read_pymc(export):
    import pymc
    import pytensor

    with pymc.Model() as mdl:
        ret = export()
    rvs = list(mdl.free_RVs)
    NAMED.update(name=next((n for n, v in mdl.named_vars.items() if v is ret), None))
    found = []
    for rv in rvs:
        op = type(rv.owner.op).__name__.lower()
        prms = [float(p.eval(mode='FAST_COMPILE') if not hasattr(p, 'data') else p.data) for p in rv.owner.op.dist_params(rv.owner)]
        family = next((f for f in FAMILIES if f in op), op)
        if family == 'gamma':
            prms = [prms[0], 1 / prms[1]]
        found.append((rv.name, family, *prms))

    def at(vals):
        expr = ret if ret not in mdl.observed_RVs else ret.owner.op.dist_params(ret.owner)[0]
        mode = pytensor.compile.Mode(linker='py', optimizer=None)
        fn = pytensor.function(rvs, expr, mode=mode, on_unused_input='ignore')
        return np.asarray(fn(*(np.array(vals[rv.name], dtype=rv.dtype) for rv in rvs)), dtype=float)

    def observed():
        return np.asarray(mdl.rvs_to_values[ret].eval() if hasattr(mdl.rvs_to_values[ret], 'eval') else mdl.rvs_to_values[ret].data)

    return found, at, observed


def read_pyro(export, out=None):
    import pyro
    import torch

    tr = pyro.poutine.trace(export).get_trace()
    found = []
    NAMED.clear()
    for name, node in tr.nodes.items():
        if node['type'] != 'sample' or node['is_observed']:
            continue
        d = node['fn']
        while hasattr(d, 'base_dist') and type(d).__name__ == 'Independent':
            d = d.base_dist
        family = type(d).__name__.lower()
        prms = {
            'normal': lambda: (d.loc, d.scale),
            'uniform': lambda: (d.low, d.high),
            'gamma': lambda: (d.concentration, d.rate),
        }[family]()
        found.append((name, family, *(float(p) for p in prms)))

    def at(vals):
        data = {n: torch.tensor(float(v), dtype=torch.float64) for n, v in vals.items()}
        tr2 = pyro.poutine.trace(pyro.poutine.condition(export, data=data)).get_trace()
        if out is not None:
            return np.asarray(tr2.nodes[out]['fn'].mean.detach(), dtype=float)
        return np.asarray(tr2.nodes['_RETURN']['value'].detach(), dtype=float)

    def observed():
        return np.asarray(tr.nodes[out]['value'].detach(), dtype=float)

    return found, at, observed


def read(fw, export, out=None):
    return read_pymc(export) if fw == 'pymc' else read_pyro(export, out)


def combine(vtype, vals):
    r = vals[0]
    for v in vals[1:]:
        r = r * v if vtype == 'scaling' else r + v
    return r


def expected(var_fams, vtype, base, prm=PRM):
    """What has to be found, per defined layer: family and parameters, and whether the spread is a known finding's."""
    out = []
    for la, fam in zip(LAYERS, var_fams):
        if fam is None:
            continue
        a, b = prm[fam][la]
        alt = None
        if la == 'dev' and base is not None and fam == 'normal':
            if vtype == 'scaling':
                alt = (fam, a * base, b) if abs(base) != 1 else None
                a, b = a * base, b * abs(base)
            else:
                a = a + base
        out.append((la, fam, a, b, alt))
    return out


def exportable(fams, vtype, base):
    neutral = 1 if vtype == 'scaling' else 0
    return base is None or base == neutral or fams[0] == 'normal'


def same(got, want):
    return got[0] == want[0] and all(lib.close(x, y, 1e-6, 1e-9) for x, y in zip(got[1:], want[1:]))


def match(found, fams, vtype, base, what, res):
    """Assigns the exported random variables to the layers. Returns name -> layer."""
    todo = list(found)
    names = {}
    require(len({f[0] for f in found}) == len(found), '{}: names of the exported variables {} are not unique', what, found)
    for la, fam, a, b, alt in expected(fams, vtype, base):
        hit = next((f for f in todo if same(f[1:], (fam, a, b))), None)
        if hit is None and alt is not None:
            hit = next((f for f in todo if same(f[1:], alt)), None)
            if hit is not None:
                res.finding('C19-unscaled-spread')
        require(hit is not None, '{}: exported {}, without the {} layer {}', what, found, la, (fam, a, b))
        todo.remove(hit)
        names[hit[0]] = la
    require(not todo, '{}: exported {} besides the defined layers', what, todo)
    return names


def image(var):
    """Everything visible of a variable."""
    out = [var.name, var.vrtn_type, var.deter_val]
    for la in LAYERS:
        m = getattr(var, f'{la}_vrtn_mdl')
        out.append((type(m).__name__, sorted((k, repr(v)) for k, v in vars(m).items() if k != '_generator')))
    return out


def layers_of(var):
    return [getattr(var, f'{la}_vrtn_mdl') for la in LAYERS]


def draw(var):
    return var.gen_latent_vals(2, 3, 2).tolist()


def try_export(fw, var):
    """Export that has to fail: whatever was defined in the framework before is of no interest."""
    try:
        if fw == 'pymc':
            import pymc

            with pymc.Model():
                var.cbi_export(fw)
        else:
            import pyro

            pyro.poutine.trace(lambda: var.cbi_export(fw)).get_trace()
    except Exception as e:
        return e
    return None


def one_var(fw, vtype, fams, base, res):
    what = f'{fw} {vtype} layers {fams} base {base}'
    var, twin = variable(fams, vtype, base), variable(fams, vtype, base)
    before, objs = image(var), layers_of(var)
    for again in range(2):
        if exportable(fams, vtype, base):
            found, at, _ = read(fw, lambda: var.cbi_export(fw))
            names = match(found, fams, vtype, base, what, res)
            named(fw, var, found, what)
            got = at({n: VALS[la] for n, la in names.items()})
            want = combine(vtype, [VALS[la] for la in names.values()])
            require(got.shape == () and lib.close(float(got), want, 1e-6), '{}: exported expression gives {} instead of {}', what, got, want)
            res.outcome(fw, vtype, tuple(sorted(names.values())), got.item())
            res.state(fw, vtype, tuple(sorted(names)), tuple(found))
        else:
            # No centre to move: the value simulated with cannot be expressed, thus refused
            err = try_export(fw, var)
            require(isinstance(err, NotImplementedError), '{}: export gave {} instead of being refused', what, repr(err))
            res.outcome('refused')
        require(all(a is b for a, b in zip(objs, layers_of(var))), '{}: export replaced a layer', what)
        require(image(var) == before, '{}: export changed the variable from {} to {}', what, before, image(var))
        require(draw(var) == draw(twin), '{}: export changed the samples of the variable', what)
        res.step(2)
        res.trace()


def one_fixed(fw, vtype, res):
    """Variables and layers without a distribution cannot be inferred and are refused."""
    for base in (0, 2.5):
        for fams in ((None, None, None), (None, 'normal', None), ('fixed', None, None), ('normal', 'fixed', None), ('normal', None, 'fixed')):
            var, twin = variable(fams, vtype, base), variable(fams, vtype, base)
            before = image(var)
            err = try_export(fw, var)
            require(err is not None, '{} {} {}: export of a fixed value was not refused', fw, vtype, fams)
            if fams[0] is None:
                require(type(err).__name__ == 'UserConfigError', '{} {} {}: export raised {}', fw, vtype, fams, repr(err))
            require(image(var) == before and draw(var) == draw(twin), '{} {} {}: failed export changed the variable', fw, vtype, fams)
            res.step()
            res.trace()
            res.state(fw, vtype, fams, base)
    for name in ('PyMC', 'stan', '', None):
        var, twin = variable(('normal', 'normal', None), vtype, 2.5), variable(('normal', 'normal', None), vtype, 2.5)
        before = image(var)
        err = try_export(name, var) if name is not None else None
        if name is not None:
            require(isinstance(err, NotImplementedError), 'unknown framework {} gave {}', name, repr(err))
        require(image(var) == before and draw(var) == draw(twin), 'failed export changed the variable')
        res.step()


# --------------------------------------------------------------------------------------------------------------------
STARTS = (
    (('normal', None, None), 'scaling', None),
    (('normal', 'normal', 'normal'), 'scaling', 2.5),
    (('normal', 'uniform', None), 'offset', -1.5),
    (('uniform', None, 'gamma'), 'scaling', 2.5),
)
OPS = (
    ('export', 'pymc'),
    ('export', 'pyro'),
    ('export', 'stan'),
    ('sample',),
    ('name', 'other'),
    ('layer', 'chp', 'normal'),
    ('layer', 'chp', None),
    ('layer', 'lot', 'gamma'),
    ('layer', 'lot', None),
    ('type',),
    ('base',),
)


def history(start, ops, res):
    fams, vtype, base = STARTS[start]
    var, twin = variable(fams, vtype, base), variable(fams, vtype, base)
    fams, hist = list(fams), []
    for op in (OPS[o] for o in ops):
        hist.append(op)
        res.step()
        if op[0] == 'export':
            if op[1] == 'stan' or not exportable(fams, vtype, base):
                require(isinstance(try_export(op[1], var), NotImplementedError), 'history {}: export not refused', hist)
            else:
                found, at, _ = read(op[1], lambda: var.cbi_export(op[1]))
                names = match(found, fams, vtype, base, f'history {hist}', res)
                named(op[1], var, found, f'history {hist}')
                got = float(at({n: VALS[la] for n, la in names.items()}))
                require(lib.close(got, combine(vtype, [VALS[la] for la in names.values()]), 1e-6), 'history {}: exported expression gives {}', hist, got)
        elif op[0] == 'sample':
            require(draw(var) == draw(twin), 'history {}: samples differ from those without exports', hist)
        else:
            for i, v in enumerate((var, twin)):
                if op[0] == 'name':
                    v.name = op[1]
                elif op[0] == 'layer':
                    setattr(v, f'{op[1]}_vrtn_mdl', make(op[2], op[1], 9))
                elif op[0] == 'type':
                    v.vrtn_type = 'offset' if vtype == 'scaling' else 'scaling'
                else:
                    v.deter_val = 4.0 if base is None else None
            if op[0] == 'layer':
                fams[LAYERS.index(op[1])] = op[2]
            elif op[0] == 'type':
                vtype = 'offset' if vtype == 'scaling' else 'scaling'
            elif op[0] == 'base':
                base = 4.0 if base is None else None
        require(image(var) == image(twin), 'history {}: the variable is {}, without exports {}', hist, image(var), image(twin))
        res.state(tuple(fams), vtype, base, var.name)
    require(draw(var) == draw(twin), 'history {}: samples differ from those without exports', hist)
    res.trace()
    res.outcome(start, tuple(hist))


# --------------------------------------------------------------------------------------------------------------------
def eqn1(time, temp, a):
    return a * temp + time


def eqn2(time, temp, a, b):
    return a * temp * time - b


def eqn3(time, temp, a, b, c):
    return (a + b * temp) * time + c


EQNS = {1: eqn1, 2: eqn2, 3: eqn3}


def one_mdl(case, res):
    fw, n, vtype, base = case['fw'], case['n'], case['type'], case['base']
    lats, fams_of = {}, {}
    for i, var in enumerate('abc'[:n]):
        # The first latent has the layers of the case, the others fewer and of other families
        fams = [('normal', 'uniform', 'gamma')[(i + j) % 3] if la in case['layers'] and (i == 0 or j <= 3 - i) else None for j, la in enumerate(LAYERS)]
        b = base if fams[0] == 'normal' else None
        fams_of[var] = (fams, b)
        lats[var] = variable(fams, vtype, b, None)
    mdl = M.DegMechMdl(EQNS[n], 'out', 0, 'h', **lats)
    before = {v: (image(lats[v]), layers_of(lats[v])) for v in lats}
    time, temp, out = np.array([1.0, 2.0, 4.0]), np.array([3.0, 5.0, 2.0]), np.array([0.5, 0.25, 8.0])
    if fw == 'pyro':
        import torch

        obs = {'time': torch.tensor(time), 'temp': torch.tensor(temp), 'out': torch.tensor(out)}
    else:
        obs = {'time': time, 'temp': temp, 'out': out}
    keys = list(obs)
    for _ in range(2):
        found, at, observed = read(fw, lambda: mdl.export_to_cbi(fw, obs), 'out')
        vals, want, left = {}, {}, list(found)
        for i, var in enumerate(lats):
            fams, b = fams_of[var]
            mine = [f for f in left if f[0] == var or f[0].startswith(var + '_')]
            left = [f for f in left if f not in mine]
            names = match(mine, fams, vtype, b, f'{fw} model latent {var}', res)
            for name, la in names.items():
                vals[name] = VALS[la] + i * 0.5
            want[var] = combine(vtype, [VALS[la] + i * 0.5 for la in names.values()])
        require(not left, '{}: unexpected random variables {}', fw, left)
        centre = np.broadcast_to(at(vals), out.shape)
        exp = EQNS[n](time, temp, **want)
        require(all(math.isclose(x, y, rel_tol=1e-5) for x, y in zip(centre, exp)), '{}: exported model is centred at {} instead of {}', case, centre, exp)
        require(np.allclose(observed(), out), '{}: observations {} instead of {}', case, observed(), out)
        require(list(obs) == keys, '{}: observations changed to {}', case, list(obs))
        for v in lats:
            require(mdl.latent_var(v) is lats[v] and image(lats[v]) == before[v][0], '{}: export changed latent {}', case, v)
        res.trace()
        res.step(n)
        res.outcome(fw, tuple(float(x) for x in centre))
        res.state(tuple(found))
