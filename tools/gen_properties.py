"""Writes /verif/properties.jsonl (kept as code so that the wording is easy to maintain)."""
import json
import pathlib

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': observe, 'hook_needed': None,
        },
    })


SIM, DEV, ENV = 'gerabaldi/sim.py', 'gerabaldi/models/devices.py', 'gerabaldi/models/phys_envs.py'
SPEC, REP, RV = 'gerabaldi/models/test_specs.py', 'gerabaldi/models/reports.py', 'gerabaldi/models/random_vars.py'
ST, HLP, MIN = 'gerabaldi/models/states.py', 'gerabaldi/helpers.py', 'gerabaldi/math/minimize.py'
CKS, CKE, CKM = ('gerabaldi/cookbook/test_specs.py', 'gerabaldi/cookbook/test_envs.py',
                 'gerabaldi/cookbook/mech_mdls.py')

prop('C01', 'The report timeline mirrors the executed test',
     "For every test, the report's summary has exactly one row per step, in execution order, with that step's name, type, "
     'number, requested conditions and duration; start and end times are contiguous, begin at the initial state\'s elapsed '
     'time and advance only by stress durations. Every reading carries the number of the measurement step that took it and '
     'the elapsed time at that step, in step order.',
     ['inputs', 'histories'], 'all sequences of stress and measurement steps (names, conditions, durations), initial elapsed times, population sizes',
     'tests run three fixed step sequences and look at single cells of the tables; no test checks the whole timeline for arbitrary sequences',
     [SIM, REP, SPEC], [('step loop and summary rows', SIM), ('add_summary_report / add_measurements', REP)],
     ['SimReport.test_summary', 'SimReport.measurements'], [('elapsed', 'stress time so far', 'gerabaldi/models/states.py:SimState')])

prop('C02', 'Each requested reading appears exactly once, on the right device label',
     'Each measurement step adds exactly one reading per requested (parameter, lot, chip, device), labelled from 0, and exactly '
     'the requested number of unlabelled sensor readings per requested environmental condition. The reading under a label is '
     'that physical device\'s own value: a label means the same device throughout a test, whichever subset each step measures.',
     ['inputs', 'histories'], 'all population shapes, parameter sets and per-step device counts',
     'tests use one shape with two cells inspected; mislabelling (transposed chip/lot, wrong subset) is invisible to them',
     [REP, SIM, DEV], [('format_measurements index construction', REP), ('device-dimension truncation', DEV)],
     ['SimReport.measurements'])

prop('C03', 'Wear accumulates through equivalent stress time',
     'After any sequence of stress phases each device\'s degradation equals its mechanism equation evaluated at (time needed to '
     'reach its prior degradation under the current conditions) + (duration of the phase), with equivalent times resolved to '
     'about 0.01 % and 0.001 of the mechanism\'s time unit. Consequently splitting a phase of a mechanism that changes strictly '
     'with time, or measuring in between, does not change the outcome, and mechanisms and parameters accumulate independently.',
     ['inputs', 'histories'], 'all stress sequences over a menu of conditions and durations, mechanism shapes and device latents',
     'tests check two consecutive phases of one linear/log law; order-dependent accumulation errors need longer mixed histories',
     [SIM, DEV, MIN], [('calc_equiv_strs_times then calc_deg_vals', SIM), ('equivalent time search', DEV), ('Brent search', MIN)],
     ['SimReport.measurements'], [('curr_deg_mech_vals', 'degradation per mechanism and device', 'gerabaldi/models/states.py:SimState')])

prop('C04', 'Stress that cannot explain existing wear leaves it unchanged',
     'If the conditions of a phase could never produce the degradation a device already has (below a threshold, or saturating '
     'lower), that device\'s degradation is unchanged by the phase while other devices and mechanisms degrade normally, and '
     'later phases continue from the kept value. A mechanism that grows with time never loses magnitude in any history, beyond the resolution of equivalent times.',
     ['inputs', 'histories'], 'all sequences of reachable and unreachable phases for thresholded and saturating mechanisms over mixed populations',
     'no test contains a threshold or saturating mechanism; the riverbed demo checks only row counts',
     [DEV, MIN], [('no-degradation mask in calc_deg_vals', DEV), ('upper bound of the search', DEV)], ['SimReport.measurements'])

prop('C05', 'Hard failures latch',
     'Once a hard-failure mechanism has tripped for a device, its value stays the failed value through all later steps whatever '
     'the conditions. Until then it is judged in each phase only on that phase\'s own conditions and duration, separately for '
     'each device and mechanism.',
     ['inputs', 'histories'], 'all phase sequences around the trip level, unitary values and populations',
     'one unit test calls the method once; a latch must hold over every later history',
     [DEV, SIM], [('FailMechMdl.calc_deg_vals', DEV)], ['SimReport.measurements'])

prop('C06', 'Measuring does not disturb the devices',
     'Adding, removing, repeating or reordering measurement steps, with any conditions and device subsets, never changes what '
     'the other measurement steps of the same test read, when environment and instruments are noise-free.',
     ['histories', 'inputs'], 'all placements of extra measurement steps in all short stress/measure sequences',
     'tests never compare two tests that differ only in measurements',
     [SIM, DEV], [('_sim_meas_step reads state only', SIM)], ['SimReport.measurements'])

prop('C07', 'Time units are only notation',
     'The same physical durations give the same readings and report times whichever supported unit, alias or timedelta they '
     'are written in, and a model written in a given unit receives its time in that unit, the unit named closest to the '
     'mechanism (mechanism, else parameter, else device, else hours) applying. The chosen unit never changes whether or how '
     'much a device degrades, up to the resolution of equivalent times.',
     ['inputs', 'configurations'], 'all unit names for durations, all assignments of units to mechanism/parameter/device, durations from sub-second to years',
     'tests use one unit per scenario and short durations; none compares the same physical test across units',
     [HLP, DEV, SIM, SPEC], [('_convert_time', HLP), ('propagate_time_unit / set_time_unit', DEV), ('duration added in mechanism unit', SIM)],
     ['SimReport.measurements', 'StrsSpec.duration'])

prop('C08', 'Latent variation layers combine and are shared by level',
     'A sampled latent value is the base value combined (product or sum, by variation type) with one draw per device, one per '
     'chip shared by all devices of the chip, and one per lot shared by all its chips. A layer that is not defined, or is '
     'removed, has no effect, also after the variation type or layers are reassigned in any order; the value then stays fixed '
     'for the device through the test. A variable or model used in several places is drawn anew in each.',
     ['histories', 'configurations'], 'all sequences of layer/type/base assignments and all population shapes',
     'tests try four configurations and one reassignment',
     [DEV], [('LatentVar.__setattr__', DEV), ('LatentVar.gen_latent_vals', DEV)], ['LatentVar.gen_latent_vals', 'gen_init_state(...).latent_var_vals'])

prop('C09', 'Environmental variation layers are shared by level and redrawn per step',
     'The condition a device sees is the requested value combined (sum or product) with one batch draw for the whole step, one '
     'chip draw shared by all devices and parameters of that chip, and one device draw of its own; sensors of a condition share '
     'the batch draw and have their own remaining draws. Undefined or removed layers, and conditions without a variation '
     'model, have no effect, also after reassignment, and each step draws anew; a variation model given for several conditions '
     'applies to each.',
     ['histories', 'configurations'], 'all layer configurations and reassignment sequences, population shapes, condition/parameter dependency patterns',
     'tests sample a handful of seeded values for one environment',
     [ENV, SIM], [('EnvVrtnMdl.gen_*_vrtns', ENV), ('gen_env_cond_vals', ENV)], ['PhysTestEnv.gen_env_cond_vals', 'values passed to user equations'])

prop('C10', 'An instrument reading is clip(round(true + error))',
     'A reading equals the true value plus one fresh error draw per value, then rounded to the configured significant figures, '
     'then limited to the measurable range, each stage only if configured; zero, infinite and not-a-number values pass '
     'through rounding. The result has the type, order and length of the input, which is left unchanged, and a parameter without '
     'instrument is read exactly.',
     ['inputs', 'configurations'], 'all combinations of precision, error and range over a value grid spanning signs and decades, all container types',
     'tests use a dozen values of one instrument',
     [ENV], [('MeasInstrument.measure', ENV), ('PhysTestEnv.meas_instm', ENV)], ['MeasInstrument.measure', 'SimReport.measurements'])

prop('C11', 'A device is unaffected by its neighbours and by equation style',
     'A device\'s readings depend only on its own latent values, conditions and models: they are the same whichever other '
     'devices, chips, lots, parameters or mechanisms are simulated with it, including alone, and whatever conditions, variation '
     'models, instruments or sensors are present that its models do not use. An equation that handles arrays '
     'and the same equation written for single values give the same readings.',
     ['inputs', 'configurations'], 'all population shapes and subsets of parameters/mechanisms; vectorised vs per-sample equations at every place an equation can be given',
     'tests fix one population per scenario and one style per equation',
     [DEV, HLP, MIN], [('array compute with per-sample fallback', DEV), ('_loop_compute', HLP), ('elementwise search', MIN)], ['SimReport.measurements'])

prop('C12', 'Simulating changes none of its inputs; runs are independent of history',
     'A simulation leaves the test, device model, environment, initial state and counts it was given unchanged. Any sequence of '
     'simulations and state generations over shared objects, including runs aborted by an exception in a user-supplied equation '
     'or distribution at any call, gives each time the same report as fresh objects would.',
     ['histories', 'fault_sequences'], 'all sequences of runs over shared objects; every callback at which a run can be aborted',
     'tests run each object once or twice and never after an aborted run',
     [SIM, SPEC, ST, DEV], [('deepcopy of the initial state', SIM), ('test iteration', SPEC), ('SimState copies', ST)], ['SimReport', 'TestSpec.steps', 'SimState arrays'])

prop('C13', 'Concurrent simulations over shared models do not interfere',
     'Simulations that share test, device model and environment objects but run '
     'interleaved in several threads each give the report they give when run alone.',
     ['schedules'], 'all interleavings at user-callback granularity of two or three runs, up to a preemption bound',
     'no test runs anything concurrently',
     [SPEC, SIM, DEV], [('TestSpec.__iter__', SPEC), ('per-run SimState and SimReport', SIM)], ['SimReport'])

prop('C14', 'Conditional shifts and circuit parameters follow the current device state',
     'A degradable parameter reads as its parameter equation applied to its current degraded value and its conditional shift '
     'at the measurement\'s conditions, and a circuit parameter as its equation applied to the same device\'s current degraded '
     'parameters, its own latents and its chip\'s conditions, for every lot, chip and measured device. Both reflect the '
     'measurement conditions of that step only.',
     ['inputs', 'histories'], 'all population shapes, measured counts of circuit and underlying parameters, and stress/measure sequences',
     'tests measure circuit parameters for one square population (2x2x2) where axis mix-ups cancel',
     [DEV, SIM], [('calc_cond_shifted_vals', DEV), ('calc_circ_vals', DEV)], ['SimReport.measurements'])

prop('C15', 'Every parameter is provisioned with enough devices',
     'Whatever a test measures (all, some or none of the parameters, directly or only through circuit parameters, in any '
     'counts per step), every device parameter is simulated for at least as many devices as needed and the caller\'s counts '
     'are not altered. Supplying a pre-generated initial state with at least those devices gives the same report as '
     'letting the simulator generate it, starting at the state\'s elapsed time. The report of a generated population states its '
     'lots, chips and devices per measured or required parameter.',
     ['inputs', 'configurations'], 'all measurement count assignments over device parameter sets; all sufficiently large initial states',
     'tests always measure every parameter, with matching initial states',
     [SIM, DEV, SPEC], [('gen_init_state', SIM), ('DeviceMdl.gen_init_state', DEV), ('calc_samples_needed', SPEC)], ['SimReport', 'SimState'])

prop('C16', 'Test specifications are built and iterated exactly as instructed',
     'A test consists of exactly the appended steps in order; looped appending repeats the whole group the least number of '
     'times whose stress time reaches the requested duration, reports (after appending) when the total is not a whole multiple '
     'of it, and rejects zero durations and groups without stress without appending anything. Iteration yields every step once, '
     'also when iterations overlap, and building one test never alters another or the lists it was built from; the needed '
     'sample count of a parameter is its maximum over the steps.',
     ['histories', 'inputs'], 'all sequences of construction, append and iteration operations over a menu of steps and durations',
     'tests use five appends on one object',
     [SPEC], [('append_steps', SPEC), ('__iter__', SPEC), ('calc_samples_needed', SPEC)], ['TestSpec.steps', 'iteration', 'calc_samples_needed()'],
     [('steps', 'ordered test steps', SPEC)])

prop('C17', 'Reports survive conversion, export and reload',
     'Any sequence of time conversions, exports and reloads of a report preserves the physical times, durations, readings '
     '(to about 1e-9 relative), labels, step table, name and description: exported numbers are in the unit the export '
     'declares (without a named unit, the one the report was last converted to or loaded in, and hours otherwise), and a reloaded report shows the same data. Exporting does not change the report, creates missing folders, and '
     'an unknown unit is rejected leaving the report unchanged.',
     ['histories', 'inputs'], 'all operation sequences over units and aliases; readings over many decades, including infinite ones',
     'the only test exports once per unit and looks at the unit label',
     [REP, HLP], [('export_to_json', REP), ('convert_report_time', REP), ('file constructor', REP), ('_convert_time', HLP)], ['SimReport', 'exported JSON'],
     [('time_unit', 'unit of a converted report', REP)])

prop('C18', 'Seeded randomness is reproducible',
     'Random variables given the same seed, whatever its value, produce the same stream for the same requests in any process, '
     'different objects never share a stream, and parameters changed later take effect on later samples. A simulation whose random '
     'variables are all seeded yields the identical report when rebuilt and rerun, in any process.',
     ['inputs', 'histories', 'configurations'], 'all seeds in a range, distributions, request sequences, and interpreter hash seeds',
     'tests use a few non-zero seeds in one process',
     [RV, DEV], [('generator construction', RV), ('dependency ordering', DEV)], ['RandomVar.sample', 'SimReport'])

prop('C19', 'Exporting to inference frameworks is faithful and side-effect free',
     'Exporting a latent variable or model to PyMC or Pyro gives distributions with the same centre and layer structure (product '
     'or sum of exactly the defined layers) that simulation samples from, under the name of the variable, and leaves the variable, its layers and its subsequent '
     'samples unchanged, also when repeated or when the export fails.',
     ['configurations', 'histories', 'fault_sequences'], 'all layer configurations, base values, distributions, frameworks and repeated/failed export sequences',
     'no test exports a latent variable at all',
     [DEV, RV], [('LatentVar.cbi_export', DEV), ('get_cbi_form', RV)], ['exported objects', 'RandomVar parameters'])

prop('C20', 'Logger configuration keeps one handler of each kind',
     'After any sequence of logger configuration calls there is at most one stream and one file handler, each the most recently '
     'supplied (or the default if none was), calls without a handler leave the handlers alone, and the level is the last one '
     'supplied; each message is therefore emitted once per configured output.',
     ['histories'], 'all sequences of configuration calls over handler kinds (including subclasses) and levels',
     'there is no test of logger configuration',
     [HLP], [('configure_logger', HLP)], ["logging.getLogger('gerabaldi')"], [('handlers', 'attached handlers', HLP)])

prop('C21', 'Ill-formed configurations are rejected with the documented error',
     'Unknown time units, zero stress durations, loops without stress or duration, latent variables without value or '
     'distribution, unknown variation types, unnamed single models, missing device counts and measurements of undefined '
     'parameters are always rejected with the package\'s own exception type, in whatever context they appear, and leave the '
     'objects involved usable and unchanged; well-formed neighbours of these are accepted.',
     ['inputs', 'configurations'], 'all placements of one defect in otherwise valid configurations',
     'tests trigger a few of the errors on fresh objects and never look at the object afterwards',
     [SPEC, DEV, ENV, SIM, REP, HLP], [('constructor and setter validation', DEV), ('_convert_time', HLP), ('MissingParamError', SIM)], ['raised exceptions', 'object state afterwards'])

prop('C22', 'The bounded minimiser finds the minimum of every element',
     'For element-wise unimodal functions the minimiser returns, for every element of the array independently, a point inside '
     'the bounds within the requested precision of the true minimiser (including at the bounds), in linear or logarithmic '
     'search, with the shape of its first argument, given enough iterations and bounds further apart than the precision. A function '
     'that is constant between the bounds resolves to the upper bound, one with a flat minimum to a point of it.',
     ['inputs'], 'all combinations of a grid of minima, curve shapes, bounds, precisions and array shapes',
     'it is only exercised indirectly for two equations',
     [MIN], [('minimize', MIN)], ['gerabaldi.math.minimize'])

prop('C23', 'Cookbook models deliver the standard tests and environments they describe',
     'The HTOL builder always yields a test that starts and ends with room-condition measurements, stresses for exactly the '
     'requested total duration at the requested voltage and temperature with stress-condition measurements at exactly the '
     'requested interval, and uses the requested sample, chip and lot counts, rejecting intervals that do not divide the '
     'duration. The ideal environment adds no variation or error, the NBTI model follows the empirical power law of JEP122H '
     'with latents drawn per device, and every call of a cookbook function yields an independent '
     'model.',
     ['inputs', 'histories'], 'all interval/duration/count/temperature/voltage combinations on a grid; sequences of calls with mutation in between',
     'tests build two HTOL tests and spot-check',
     [CKS, CKE, CKM], [('htol', CKS), ('ideal_env', CKE), ('jedec_nbti_mdl', CKM)], ['TestSpec.steps', 'SimReport'])

prop('C24', 'Optional packages are only needed by the features that use them',
     'Whatever subset of the optional packages (pymc, pyro, torch) is missing, the package imports, every feature that does not '
     'need a missing package works and gives the same results as with all of them installed, and every feature that does need one '
     'fails with an ImportError that names the package to install - the first time and every later time, whatever was called '
     'before.',
     ['configurations', 'histories'], 'all subsets of missing packages x all orders of the dependent features',
     'tests run with everything installed',
     [HLP, DEV, RV], [('_on_demand_import', HLP), ('LatentVar.cbi_export', DEV), ('get_cbi_form', RV)], ['raised exceptions', 'SimReport'])

prop('C25', 'Equivalent notations of a model give identical results',
     'Ways of writing the same model are interchangeable: a component given alone under its name or in a dictionary, environment '
     'models and instruments as list or dictionary, parts left out or their neutral defaults written out (initial value 0, no '
     'conditional shift, sum of the mechanisms, no variation, ideal instruments), a fixed value as base value, degenerate '
     'distribution or product with neutral layers, any kind of callable as equation, and any order of mechanisms, parameters, '
     'conditions, latents and arguments all lead to identical readings.',
     ['configurations'], 'all pairs of equivalent notations of the parts of a model over a set of tests',
     'tests write every model in one way only',
     [DEV, ENV, SIM], [('constructors', DEV), ('PhysTestEnv', ENV)], ['SimReport.measurements'])

prop('C26', 'Names are only labels',
     'Replacing the name of a parameter, circuit parameter, mechanism, latent variable, condition, environment model or instrument '
     'consistently by any other (except the reserved arguments time, init and cond, the columns of the summary and the arguments of '
     'the constructors), including words that the implementation uses itself and names that another part of the model has too '
     'wherever no equation or table could confuse them, changes no reading, only the labels.',
     ['configurations'], 'all roles x all names of a vocabulary; all unambiguous pairs of roles with a common name',
     'tests use a handful of harmless names',
     [DEV, ENV, SIM], [('attribute-based lookup of models', DEV), ('PhysTestEnv.meas_instm', ENV)], ['SimReport'])

pathlib.Path('/verif/properties.jsonl').write_text(''.join(json.dumps(p) + '\n' for p in P))
