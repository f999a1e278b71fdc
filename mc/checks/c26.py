"""C26 - names are only labels.

A device with two degraded parameters, a circuit parameter, mechanisms, latents, conditions, environment models and instruments
is built from templates. Each role gets every name of a vocabulary that was taken from the implementation itself (the parts
of its attribute, method and argument names) and of a list of odd names; every pair of roles whose names cannot be confused
in any equation also gets the same name. The readings have to be those of the canonical names, under the new labels."""

import inspect
import itertools
import keyword

from mc import lib
from mc.core import Result, require
from mc.lib import M, g

BOUNDS = {
    'quick': 'each of 20 roles x 445 parts of the names in the implementation and 17 odd names; all unambiguous pairs of roles with 11 pairs of similar names and with 9 common names',
    'thorough': 'each of 20 roles x 445 parts of the names in the implementation and 17 odd names, 2 shapes; all unambiguous pairs of roles with 11 pairs of similar names and with all these names',
}
ASSUMPTIONS = ['reserved: time, init, cond, the columns of the summary and the arguments of the constructors']
CHUNK = 32
# role -> canonical name. x is a parameter, w a condition and r an instrument that no equation uses
ROLES = {
    'P1': 'p', 'P2': 'q', 'P3': 'x', 'C': 'c', 'M1': 'ma', 'M2': 'mb', 'M3': 'mc', 'LM': 'la', 'LN': 'ln', 'LS': 'ls', 'LO': 'lo', 'LC': 'lc', 'LI': 'li',
    'T': 'tk', 'V': 'vk', 'W': 'wk', 'LP': 'lq', 'LX': 'lx', 'LY': 'ly', 'LZ': 'lz',
}  # fmt: skip
# Arguments of one equation, and keys of one table, have to differ
SCOPES = [
    {'T', 'LM', 'LX'}, {'V', 'LN'}, {'T', 'V', 'LS'}, {'M1', 'M2', 'LO', 'LZ'}, {'P1', 'P2', 'T', 'LC', 'LY'}, {'LI'}, {'P1', 'P2', 'P3', 'C', 'T', 'V', 'W'}, {'M3', 'T', 'LP'},
]  # fmt: skip
LATENTS = {'LM', 'LN', 'LS', 'LO', 'LC', 'LI', 'LP', 'LX', 'LY', 'LZ'}
RESERVED = {'time', 'init', 'cond', 'duration'}
# Roles whose names appear in no equation can have any name
FREE = {'P3', 'W'}
ODD = ['V th', 'a-b', '1', '\u00e9', 'None', 'x.y', 'step #', 'param', 'measured', 'nan', 'lot #', 'init_val', 'A', 'a_very_long_name_' * 8, '_', '__', 'value']
# What people call such things
DOMAIN = 'temp temperature vdd voltage volt humidity rh vth current delay freq nbti hci tddb em amp a k n e exp t T v c0 p0 i j x y mean std fail failed age'.split()
COMMON = ['s', 'temp', 'p', 'lot', 'time_unit', 'meas', 'name', 'vals', 'x']
# Names that are easily taken for each other
SIMILAR = [('a', 'A'), ('a', 'a_'), ('a', '_a'), ('ab', 'a_b'), ('a1', 'a01'), ('x', 'x_mdl'), ('x', 'latent_x'), ('temp', 'temp_var'), ('x' * 70 + '1', 'x' * 70 + '2'), ('a', 'aa'), ('na', 'an')]
SHAPES = ((1, 2, 2), (2, 2, 1))


# The parts of the names that the implementation used for anything a model could collide with when this was written. Verbs are
# left out: a name such as set could meet a private helper of later versions.
VOCABULARY = '''
    AttributeError CondShiftMdl DataFrame DegMechMdl DegPrmMdl Deterministic EnvVrtnMdl FailMechMdl FileNotFoundError InitValMdl
    InvalidTypeError KeyError LatentVar MAP MeasInstrument MeasSpec MissingParamError NotImplementedError Path Series SimState
    StopIteration StrsSpec TIME TIME_UNIT TIME_UNIT_MAP TypeError UNIT UNIT_MAP UserConfigError UserWarning ValueError _batch_vrtns
    _c_instm _c_mdl _chp_vrtns _curr_step _dev_vrtns _dist_type _error _generator _latent_la _latent_lc _latent_li _latent_lo
    _latent_ls _lot_vrtns _ma_mdl _max_equiv_time _mb_mdl _op _p_instm _p_mdl _precision _q_mdl _range _temp_instm _temp_var _unitary
    _wind_var _x_instm _x_mdl all alpha annotations api arg arg_vals args args_dict array array_computable array_compute base base_val
    base_vals batch batch_vrtn batch_vrtn_mdl batch_vrtns best beta broadcast broadcast_shapes c c_instm c_mdl capitalize cbi cbi_dist
    cbi_export cbi_form centre chip chp chp_vrtn chp_vrtn_mdl chp_vrtns chps circ circ_vals class computable cond cond_mdl cond_shift
    cond_shift_eqn cond_shift_mdl cond_shifted cond_shifted_vals cond_vals conditions conds counts cpy curr curr_deg curr_deg_mech
    curr_deg_mech_vals curr_prm curr_prm_vals curr_step data data_dir deepcopy deg deg_mech deg_mech_mdls deg_mech_vals deg_val
    deg_vals degraded degraded_prm degraded_prm_vals depend depend_conds dependencies depends depends_conds description deter
    deter_val dev dev_counts dev_dim dev_dim_size dev_mdl dev_time dev_time_unit dev_vrtn dev_vrtn_mdl dev_vrtns devs dict dim
    dim_size dims dir dist dist_params dist_type doc dtype duration e elapsed elapsed_time env env_cond env_cond_vals env_name
    env_vrtns eq eqn equal equiv equiv_strs equiv_strs_time equiv_strs_times equiv_time equiv_times error ex f f_args file float for
    for_duration for_numpy for_pymc for_pyro form framework fromkeys full full_like ge generator geomspace greater gt hasattr hash
    high i info init init_deg init_deg_mech init_deg_mech_vals init_mdl init_mech init_mech_vals init_prm init_prm_vals init_state
    init_subclass init_val init_val_eqn init_val_mdl init_vals instm instms int integer issubclass items iter json key keys la latent
    latent_la latent_lc latent_li latent_lo latent_ls latent_vals latent_var latent_var_vals latent_vars latents lc le len less li
    like lims list lo logger lot lot_vrtn lot_vrtn_mdl lot_vrtns lots low lower ls lt ma ma_mdl max max_equiv max_equiv_time mb mb_mdl
    mdl mdl_list mdl_name mdl_prm mdl_prm_list mdls meas meas_cpy meas_dims meas_instm meas_instms meas_lims meas_times meas_vals
    measured measurements mech mech_deg mech_deg_vals mech_eqn mech_mdl mech_mdl_list mech_mdls mech_vals min module msg mu name
    ndarray ne needed new next no no_cond no_cond_shift np num num_chps num_devs num_lots num_samples number numeric numeric_dtype
    numpy observed op operation opts p p_instm p_mdl pd pre pre_deg pre_deg_vals precision prm prm_list prm_mdl prm_mdl_list prm_mdls
    prm_name prm_vals prms pymc pyro q q_mdl quantity range reduced reduced_size report report_json report_time required required_prms
    res residue rng rtrn rtrn_type samples samples_needed seed self sensor sensor_vals sequential sequential_steps shape shapes shift
    shift_eqn shift_mdl shifted shifted_vals sigma size sizeof slots spec start state step steps stop str strs strs_conds strs_cpy
    strs_dims strs_time strs_times subclass subclasshook sum summary summary_info summary_report super super_opts t table target
    target_framework tc temp temp_instm temp_var test test_description test_info test_name test_seed test_spec test_summary time
    time_unit timedelta times true true_vals type types unit unitary unitary_val units val val_eqn val_mdl vals value values var
    var_vals vars vrtn vrtn_mdl vrtn_type vrtns warn weakref where wind wind_var x x_instm x_mdl zeros zeros_like
'''.split()


def taken(role):
    """Arguments of the constructors that receive the latents of a role."""
    cls = {'LM': M.DegMechMdl, 'LN': M.FailMechMdl, 'LS': M.CondShiftMdl, 'LO': M.DegPrmMdl, 'LC': M.CircPrmMdl, 'LI': M.InitValMdl, 'LP': M.FailMechMdl, 'LX': M.DegMechMdl, 'LY': M.CircPrmMdl, 'LZ': M.DegPrmMdl}[role]
    names = set()
    for c in cls.__mro__:
        if '__init__' in vars(c):
            names |= set(inspect.signature(c.__init__).parameters)
    return names


def allowed(role, name):
    if role in FREE:
        if role == 'W' and name in RESERVED:
            return False
        return name not in ('step name', 'step type', 'step number', 'start time', 'end time')
    if keyword.iskeyword(name) or not name.isidentifier() or name in RESERVED:
        return False
    return role not in LATENTS or name not in taken(role)


def distinct(names):
    return all(len({names[r] for r in scope}) == len(scope) for scope in SCOPES)


def cases(tier):
    vocab = VOCABULARY + DOMAIN
    shapes = (0,) if tier == 'quick' else (0, 1)
    for role in ROLES:
        for name in dict.fromkeys(vocab + ODD):
            if allowed(role, name) and distinct({**ROLES, role: name}):
                for shape in shapes:
                    yield {'names': {role: name}, 'shape': shape}
    for a, b in itertools.combinations(ROLES, 2):
        for name in COMMON if tier == 'quick' else dict.fromkeys(COMMON + vocab):
            if allowed(a, name) and allowed(b, name) and distinct({**ROLES, a: name, b: name}):
                yield {'names': {a: name, b: name}, 'shape': (len(name) + len(a)) % 2}
    for a, b in itertools.permutations(ROLES, 2):
        for one, two in SIMILAR if tier == 'quick' and not {a, b} - LATENTS else SIMILAR[::2] if tier == 'quick' else SIMILAR:
            if allowed(a, one) and allowed(b, two) and distinct({**ROLES, a: one, b: two}):
                yield {'names': {a: one, b: two}, 'shape': (len(one) + len(a)) % 2}
    # All latents, and all mechanisms and parameters, with one name
    for name in COMMON if tier == 'quick' else dict.fromkeys(COMMON + vocab):
        for group in (LATENTS - {'LX', 'LY', 'LZ'}, {'M1', 'M3', 'P1'}, {'M1', 'M3', 'P1', 'LS', 'LN'}, {'LM', 'LS', 'LC', 'P2', 'M3'}, {'LN', 'P1', 'M1'}):
            if all(allowed(r, name) for r in group) and distinct({**ROLES, **{r: name for r in group}}):
                yield {'names': {r: name for r in sorted(group)}, 'shape': 0}


def lat(start, inc=0.125):
    return M.LatentVar(lib.Fixed(start, inc))


def eqn(args, expr, n):
    """An equation over the names of the given roles: the expression uses a, b, c ... for them."""
    scope = {}
    values = ', '.join(args)
    exec(f'f = lambda {values}: (lambda {", ".join("abcdefg"[: len(args)])}: {expr})({values})', scope)
    return scope['f']


def build(n):
    p1 = M.DegPrmMdl(
        {
            n['M1']: M.DegMechMdl(eqn(['time', n['T'], n['LM'], n['LX']], 'c * b * a * d', n), time_unit='h', **{n['LM']: lat(0.001, 0.0001), n['LX']: lat(1, 0.5)}),
            n['M2']: M.FailMechMdl(eqn(['time', n['V'], n['LN']], 'b * c + a', n), time_unit='h', **{n['LN']: lat(2)}),
        },
        M.InitValMdl(eqn([n['LI']], 'a * 2', n), **{n['LI']: lat(5)}),
        M.CondShiftMdl(eqn([n['T'], n['V'], n['LS']], 'c * a - b', n), **{n['LS']: lat(0.5)}),
        eqn(['init', 'cond', n['M1'], n['M2'], n['LO'], n['LZ']], 'a + b + c * e + f * d', n),
        **{n['LO']: lat(7), n['LZ']: lat(3, 0.25)},
    )
    p2 = M.DegPrmMdl({n['M3']: M.FailMechMdl(eqn(['time', n['T'], n['LP']], 'b + c', n), **{n['LP']: lat(1)})}, M.InitValMdl(init_val=lat(4)))
    p3 = M.DegPrmMdl({'m': M.FailMechMdl(lambda time: 0.5)}, M.InitValMdl(init_val=lat(9)))
    dev = M.DeviceMdl({n['P1']: p1, n['P2']: p2, n['P3']: p3, n['C']: M.CircPrmMdl(eqn([n['P1'], n['P2'], n['T'], n['LC'], n['LY']], 'a * b * e + c * d', n), **{n['LC']: lat(3), n['LY']: lat(1, 0.5)})})
    env = M.PhysTestEnv(
        {n['T']: M.EnvVrtnMdl(None, lib.Fixed(0.5, 0.25)), n['W']: M.EnvVrtnMdl(lib.Fixed(1, 1), None, lib.Fixed(2, 0), 'scaling')},
        {n['P1']: M.MeasInstrument('m', 6), n['T']: M.MeasInstrument('t', None, lib.Fixed(0.25, 0.5)), n['P3']: M.MeasInstrument('r', None, None, (0, 9.375)), n['C']: M.MeasInstrument('c', 3)},
    )
    meas = {n['P1']: 2, n['P2']: 1, n['T']: 2, n['C']: 2, n['P3']: 2, n['W']: 1, n['V']: 1}
    steps = [
        M.MeasSpec(dict(meas), {n['T']: 3.0, n['V']: 1.5, n['W']: 4.0}),
        M.StrsSpec({n['T']: 7.0, n['V']: 2.5, n['W']: 1.0}, 20),
        M.MeasSpec(dict(meas), {n['W']: 2.0, n['T']: 1.0, n['V']: 0.5}),
    ]
    return dev, env, steps


def observe(names, shape):
    lots, chips, extra = SHAPES[shape]
    n = {**ROLES, **names}
    dev, env, steps = build(n)
    report = g.simulate(M.TestSpec(steps, chips, lots), dev, env)
    back = {n[r]: r for r in ('P1', 'P2', 'P3', 'C', 'T', 'V', 'W')}
    require(set(report.measurements['param']) == set(back), 'names {}: readings of {}', names, sorted(set(report.measurements['param'])))
    rows = [(r[0], back[r[1]]) + r[2:5] + (str(r[5]), repr(r[6])) for r in lib.readings(report)]
    summ, conds = [], {n[r]: r for r in 'TVW'}
    for row in lib.summary(report):
        summ.append({conds.get(k, k): str(v) for k, v in row.items()})
    return rows, summ


_REF = {}


def run(case):
    res = Result()
    shape, names = case['shape'], case['names']
    if shape not in _REF:
        _REF[shape] = observe({}, shape)
    rows, summ = observe(names, shape)
    want_rows, want_summ = _REF[shape]
    for got, want in itertools.zip_longest(rows, want_rows):
        require(got == want, 'names {}: reading {} instead of {}', names, got, want)
        res.step()
    require(summ == want_summ, 'names {}: summary {} instead of {}', names, summ, want_summ)
    res.trace()
    res.state(str(sorted(names.items())), shape)
    res.outcome(str(rows))
    return res
