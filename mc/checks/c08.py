"""C08 - latent variation layers combine and are shared by level.

All histories of layer, base value, type and name assignments up to a depth are applied to a real LatentVar built in every
possible way; after each history the sampled arrays of several population shapes are decoded into the unique draws of
each layer. Whole simulations then show the latents of every place in a model (initial value, mechanism, conditional
shift, parameter, circuit) with the same structure, unchanged through the test."""

import itertools

import numpy as np

from mc import lib
from mc.core import Result, require
from mc.lib import M, g

BOUNDS = {
    'quick': '24 constructions x all assignment histories of length 0-3 over 12 operations, 3 shapes; 27 population shapes x layer subsets in simulations, one object for several layers; with variables and models of their own or shared',
    'thorough': '24 constructions x all assignment histories of length 0-4 over 12 operations, 4 shapes; 64 population shapes x layer subsets in simulations, one object for several layers; with variables and models of their own or shared',
}
CHUNK = 4
LAYERS = ('dev', 'chp', 'lot')
OPS = ['dev+', 'dev-', 'chp+', 'chp-', 'lot+', 'lot-', 'scaling', 'offset', 'base+', 'base0', 'base-', 'name']
BASE = 0.5
# (lots, chips, devs)
SHAPES = [(1, 1, 1), (2, 3, 2), (3, 1, 2), (1, 2, 3)]


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    starts = []
    for dev, chp, lot, base, kind in itertools.product((1, 0), (0, 1), (0, 1), (0, 1, 2), ('scaling', 'offset')):
        if dev or base:
            starts.append([dev, chp, lot, base, kind])
    for n in range(depth):
        for start in starts:
            if n == 0:
                yield {'start': start, 'pre': [], 'deeper': 0}
            for pre in itertools.product(range(len(OPS)), repeat=n):
                # The last operation is enumerated inside of the case
                yield {'start': start, 'pre': list(pre), 'deeper': 1}
    top = 3 if tier == 'quick' else 4
    for dims in itertools.product(range(1, top + 1), repeat=3):
        for sub in itertools.product((0, 1), repeat=3):
            for kind in ('scaling', 'offset'):
                yield {'dims': list(dims), 'layers': list(sub), 'kind': kind}
                # The same variables and models used in several places of the device
                for shared in (1, 2):
                    if any(sub):
                        yield {'dims': list(dims), 'layers': list(sub), 'kind': kind, 'shared': shared}
    # One distribution object used for several layers of a variable still makes the draws of each layer
    for dims in itertools.product((1, 2, 3), (1, 2), (1, 2, 3)):
        for one in ('dev chp', 'dev lot', 'chp lot', 'dev chp lot'):
            for sub in itertools.product((0, 1), repeat=3):
                for kind in ('scaling', 'offset'):
                    if sub[0] and all(sub[LAYERS.index(k)] for k in one.split()):
                        yield {'one': one, 'layers': list(sub), 'kind': kind, 'dims': list(dims)}
    for dims in ([1, 1, 40], [12, 2, 1], [2, 15, 3], [1, 1, 300], [1, 280, 1], [260, 1, 1], [40, 3, 2]):
        # There are only so many primes for the layers of a product
        for kind in ('scaling', 'offset') if max(dims) <= 40 else ('offset',):
            yield {'dims': dims, 'layers': [1, 1, 1], 'kind': kind}


def tokens(layer, kind):
    if kind == 'offset':
        step = {'dev': 1, 'chp': 10000, 'lot': 10000**2}[layer]
        return (step * n for n in itertools.count(1))
    # Disjoint prime ranges: devices from 5000, chips from 1000, lots below 1000
    return lib.primes({'dev': 5000, 'chp': 1000, 'lot': 11}[layer])


class Both(M.Deterministic):
    """Draws fresh tokens suitable for the type the variable has at the time of the draw."""

    def __init__(self, layer, model, names):
        super().__init__(0)
        self.layer, self.model, self.src = layer, model, {k: tokens(layer, k) for k in ('scaling', 'offset')}
        names.append(self)

    def sample(self, quantity=1):
        src = self.src[self.model['kind']]
        return np.array([next(src) for _ in range(quantity)], dtype=float)


def decode(val, kind, base):
    """The (dev, chp, lot) tokens of a value, None for a layer without any."""
    if kind == 'offset':
        n = val - (base or 0)
        require(n == round(n), 'value {!r} is not a sum of base {} and draws', val, base)
        n = round(n)
        return n % 10000 or None, n // 10000 % 10000 or None, n // 10000**2 or None
    n = val / (base or 1)
    require(n == round(n), 'value {!r} is not a product of base {} and draws', val, base)
    n = round(n)
    out = {'dev': None, 'chp': None, 'lot': None}
    k = 2
    while n > 1:
        if n % k == 0:
            layer = 'dev' if k >= 5000 else 'chp' if k >= 1000 else 'lot'
            require(out[layer] is None, 'value {!r} contains two {} draws', val, layer)
            out[layer] = k
            n //= k
        else:
            k += 1
            if k * k > n:
                k = n
    return out['dev'], out['chp'], out['lot']


def check(vals, dims, model, where, seen):
    """The array has the structure the model describes; seen collects all the draws, which may never be reused."""
    vals = np.asarray(vals)
    require(vals.shape == tuple(dims), '{}: shape {} for {}', where, vals.shape, dims)
    base = {0: None, 1: BASE, 2: 0}[model['base']]
    if base == 0 and model['kind'] == 'scaling':
        require(not np.any(vals), '{}: product with base 0 is {}', where, vals)
        return
    lots, chips = {}, {}
    for pos in lib.positions(dims):
        dev, chp, lot = decode(float(vals[pos]), model['kind'], base)
        for layer, tok in zip(LAYERS, (dev, chp, lot)):
            require(
                (tok is not None) == bool(model[layer]),
                '{}: value {!r} at {} {} a {} draw, but that layer is {}defined ({})',
                where, float(vals[pos]), pos, 'contains' if tok else 'lacks', layer, '' if model[layer] else 'un', model,
            )
        if dev is not None:
            require(('dev', dev) not in seen, '{}: device draw {} used twice', where, dev)
            seen.add(('dev', dev))
        require(chips.setdefault(pos[:2], chp) == chp, '{}: devices of chip {} differ in their chip draw', where, pos[:2])
        require(lots.setdefault(pos[:1], lot) == lot, '{}: chips of lot {} differ in their lot draw', where, pos[:1])
    for layer, draws in (('chp', chips), ('lot', lots)):
        if model[layer]:
            for tok in draws.values():
                require((layer, tok) not in seen, '{}: {} draw {} shared by several of them', where, layer, tok)
                seen.add((layer, tok))


def apply(var, model, op, rvs):
    op = OPS[op]
    if op in ('scaling', 'offset'):
        model['kind'] = op
        var.vrtn_type = op
    elif op.startswith('base'):
        model['base'] = {'+': 1, '0': 2, '-': 0}[op[-1]]
        var.deter_val = {'+': BASE, '0': 0, '-': None}[op[-1]]
    elif op == 'name':
        var.name = 'renamed'
    else:
        layer = op[:3]
        model[layer] = int(op[3] == '+')
        setattr(var, layer + '_vrtn_mdl', Both(layer, model, rvs) if op[3] == '+' else None)


def build(start, rvs):
    model = dict(zip(('dev', 'chp', 'lot', 'base', 'kind'), start))
    rv = {k: Both(k, model, rvs) if model[k] else None for k in LAYERS}
    var = M.LatentVar(rv['dev'], rv['chp'], rv['lot'], {0: None, 1: BASE, 2: 0}[model['base']], None, model['kind'])
    return var, model


class Atoms(M.Deterministic):
    """Every draw is a different power of two (to be added) or prime (to be multiplied), so values tell their draws."""

    def __init__(self, src):
        super().__init__(0)
        self.src = src

    def sample(self, quantity=1):
        return np.array([next(self.src) for _ in range(quantity)], dtype=float)


def atoms(val, kind):
    val = round(val)
    if kind == 'offset':
        return frozenset(k for k in range(53) if val >> k & 1)
    out = [k for k in range(2, 2000) if val % k == 0 and all(k % m for m in range(2, k))]
    require(np.prod(out, dtype=float) == val, 'value {} contains a draw twice', val)
    return frozenset(out)


def run_one(case, res):
    """Layers that share one distribution object."""
    dims, kind = tuple(case['dims']), case['kind']
    defined = dict(zip(LAYERS, case['layers']))
    src = (2**k for k in range(50)) if kind == 'offset' else iter(lib.primes(2))
    same = Atoms(src)
    rvs = [(same if k in case['one'].split() else Atoms(src)) if defined[k] else None for k in LAYERS]
    var = M.LatentVar(*rvs, None, None, kind)
    vals = var.gen_latent_vals(dims[2], dims[1], dims[0])
    res.step()
    res.trace()
    sets = {pos: atoms(float(vals[pos]), kind) for pos in lib.positions(dims)}
    for pos, mine in sets.items():
        require(len(mine) == sum(case['layers']), 'value {} at {} has {} draws, not one per layer', vals[pos], pos, len(mine))
        for other, theirs in sets.items():
            if other < pos:
                want = defined['lot'] * (pos[0] == other[0]) + defined['chp'] * (pos[:2] == other[:2])
                require(len(mine & theirs) == want, 'devices {} and {} share {} draws, not {}', other, pos, len(mine & theirs), want)
    res.state(str(case))
    res.outcome(case['one'], dims, tuple(vals.ravel()))
    return res


def run(case):
    res = Result()
    if 'one' in case:
        return run_one(case, res)
    if 'dims' in case:
        return run_sim(case, res)
    tails = [()] if not case['deeper'] else [(op,) for op in range(len(OPS))]
    for tail in tails:
        rvs = []
        var, model = build(case['start'], rvs)
        hist = tuple(case['pre']) + tail
        for op in hist:
            apply(var, model, op, rvs)
            res.step()
        res.state(tuple(sorted(model.items())))
        if not model['dev'] and not model['base']:
            # Not a valid variable at this point
            continue
        where = f"after {[OPS[o] for o in hist]} from {case['start']}"
        seen = {}
        for shape in (SHAPES[0], SHAPES[1 + sum(hist) % 3], SHAPES[2]):
            lots, chips, devs = shape
            fresh = set()
            check(var.gen_latent_vals(devs, chips, lots), shape, model, where, fresh)
            for tok in fresh:
                require(seen.setdefault(tok, shape) == shape, '{}: draw {} reused in a later sample', where, tok)
        res.trace()
        res.outcome(tuple(sorted(model.items())), hist)
    return res


def run_sim(case, res):
    lots, chips, devs = dims = tuple(case['dims'])
    kind = case['kind']
    model = dict(zip(LAYERS, case['layers']))
    model.update(kind=kind, base=1)

    def latent(base=True):
        # One variable per place; every one has its own draws
        rv = [Both(k, model, []) if model[k] else None for k in LAYERS]
        return M.LatentVar(*rv, BASE if base else None, None, kind)

    if case.get('shared'):
        one = latent()
        latent = lambda: one  # noqa: E731
    still = lambda: {'w': M.FailMechMdl(lambda time: 0 * time)}  # noqa: E731
    parts = {
        'i': (still(), M.InitValMdl(init_val=latent())),
        'm': ({'w': M.FailMechMdl(lambda time, lat: lat + 0 * time, lat=latent())},),
        's': (still(), None, M.CondShiftMdl(lambda temp, lat: lat + 0 * temp, lat=latent())),
        'o': (still(), None, None, lambda init, cond, w, lat: lat + 0 * init),
    }
    prms = {p: M.DegPrmMdl(*parts[p], **({'lat': latent()} if p == 'o' else {})) for p in parts}
    prms['c'] = M.CircPrmMdl(lambda i, lat: lat + 0 * i, lat=latent())
    if case.get('shared') == 2:
        # Other parameters with the same parts, and the whole parameter under another name
        prms.update({p + '2': M.DegPrmMdl(*parts[p]) for p in 'ims'}, o2=prms['o'], c2=prms['c'])
    dev = M.DeviceMdl(prms)
    given = sum(case['dims']) % 2
    names = tuple(prms)
    seen = {}
    state = g.gen_init_state(dev, {p: devs for p in names}, chips, lots) if given else None
    steps = [M.MeasSpec({p: devs for p in names}, {'temp': 20})]
    for n in range(3):
        steps += [M.StrsSpec({'temp': 10 * n}, 5, time_unit='h'), M.MeasSpec({p: devs for p in names}, {'temp': 20 + n})]
    report = g.simulate(M.TestSpec(steps, chips, lots), dev, M.PhysTestEnv(), state)
    vals, _ = lib.by_label(report)
    res.trace()
    for p in names:
        per_step = [np.array([vals[(s, p) + pos] for pos in lib.positions(dims)]).reshape(dims) for s in (0, 2, 4, 6)]
        if p[0] == 'm':
            require(not np.any(per_step[0]), 'degraded before any stress: {}', per_step[0])
            per_step = per_step[1:]
        fresh = set()
        check(per_step[0], dims, model, f'latents of parameter {p}', fresh)
        if case.get('shared'):
            for tok in fresh:
                require(seen.setdefault(tok, p) == p, 'parameters {} and {} use the same draw {}', seen.get(tok), p, tok)
        for later in per_step[1:]:
            require(np.array_equal(later, per_step[0]), 'latents of {} change during the test: {} to {}', p, per_step[0], later)
        res.step(len(per_step))
        res.outcome(p, tuple(per_step[0].ravel()))
    res.state(str(case))
    return res
