"""Driver of C24, runs in a process of its own: python -m mc.optional '<json>' with the packages that are missing, how they
are missing, and the operations to perform in order. Prints one JSON list of [operation, outcome, detail]."""

import importlib.abc
import json
import sys


class Broken(importlib.abc.MetaPathFinder):
    def __init__(self, names, exc):
        self.names, self.exc = names, exc

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in self.names:
            raise self.exc(f'cannot load {name}')
        return None


def main():
    from mc import core

    job = json.loads(sys.argv[1])
    kinds = {'absent': ModuleNotFoundError, 'import': ImportError, 'system': SystemError}
    sys.meta_path.insert(0, Broken(job['missing'], kinds[job['how']]))
    g = core.load(full=True)
    import gerabaldi.models as M
    from mc import lib

    def var(chip, name='x'):
        return M.LatentVar(M.Normal(2, 0.5, test_seed=3), M.Normal(1, 0.1, test_seed=4) if chip else None, name=name)

    def simulate():
        mech = M.DegMechMdl(lambda time, temp, a: a * temp * time, a=M.LatentVar(lib.Fixed(0.01, 0.01), M.Deterministic(2)))
        dev = M.DeviceMdl({'p': M.DegPrmMdl({'m': mech}, M.InitValMdl(init_val=M.LatentVar(M.Normal(5, 1, test_seed=1)))), 'c': M.CircPrmMdl(lambda p, temp: p * temp)})
        env = M.PhysTestEnv({'temp': M.EnvVrtnMdl(M.Normal(0, 1, test_seed=5))}, {'p': M.MeasInstrument('p', 5)})
        test = M.TestSpec([M.MeasSpec({'p': 2, 'c': 1, 'temp': 1}, {'temp': 30}), M.StrsSpec({'temp': 60}, 10), M.MeasSpec({'p': 2}, {'temp': 30})], 2)
        rep = g.simulate(test, dev, env)
        rep.convert_report_time('s')
        return repr(lib.table_key(rep)) + str(len(rep.export_to_json(time_unit='s')['Measurements']))

    def cook():
        test = g.cookbook.htol({'p': 1}, num_chps_override=1, num_lots_override=1)
        dev = M.DeviceMdl({'p': M.DegPrmMdl({'m': g.cookbook.jedec_nbti_mdl()})})
        return len(g.simulate(test, dev, g.cookbook.ideal_env()).measurements)

    def sample():
        return [float(v) for d in (M.Normal, M.Gamma, M.Uniform) for v in d(test_seed=9).sample(2)] + var(1).gen_latent_vals(2, 2, 1).ravel().tolist()

    def pymc(fn):
        import pymc

        with pymc.Model():
            fn()
        return 'exported'

    def in_model(fn):
        # The framework itself can only be used if it is there
        return pymc(fn) if 'pymc' not in job['missing'] else str(fn())

    def model(framework):
        mdl = M.CircPrmMdl(lambda x, temp: x * temp, 'c', x=var(0))
        if framework == 'pyro' and 'torch' not in job['missing']:
            import torch

            obs = {'c': torch.tensor([1.0]), 'temp': torch.tensor([1.0])}
        else:
            obs = {'c': [1.0], 'temp': 1.0}
        return mdl.export_to_cbi(framework, obs)

    ops = {
        'simulate': simulate,
        'cook': cook,
        'sample': sample,
        'pymc-dist': lambda: in_model(lambda: M.Normal(1, 2, name='d').get_cbi_form('pymc')),
        'pymc-var': lambda: in_model(lambda: var(0).cbi_export('pymc')),
        'pymc-layers': lambda: in_model(lambda: var(1).cbi_export('pymc')),
        'pymc-model': lambda: in_model(lambda: model('pymc')),
        'pyro-dist': lambda: str(type(M.Normal(1.0, 2.0, name='d').get_cbi_form('pyro'))),
        'pyro-var': lambda: str(type(var(0).cbi_export('pyro'))),
        'pyro-layers': lambda: str(type(var(1).cbi_export('pyro'))),
        'pyro-model': lambda: str(type(model('pyro'))),
    }
    out = []
    for op in job['ops']:
        try:
            out.append([op, 'ok', str(ops[op]())])
        except Exception as e:
            out.append([op, type(e).__name__, str(e)])
    print('\nRESULT' + json.dumps(out))


if __name__ == '__main__':
    main()
