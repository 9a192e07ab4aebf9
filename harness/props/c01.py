"""C01: the reconstruction is the algorithm of spec/Reconstruct.tla."""
from harness.lib import R, RV, RM, IM, call, quiet, laid, layout_of
from harness import gens

TRACE = 'T_Reconstruct'
MODELS = [dict(module='MC_Reconstruct', cfg='MC_Reconstruct.cfg',
               cfg_thorough='MC_Reconstruct_T.cfg', emit=True, workers=4),
          dict(module='MC_Quotient', cfg='MC_Quotient.cfg', cfg_thorough='MC_Quotient_T.cfg', workers=4)]
ASSUMPTIONS = ['comparison tolerance 1e-7 relative to the largest weight',
               'CPU implementation only (no GPU in the sandbox)']


def gen(rng, tier, beh):
    cases = []
    small = beh['MC_Reconstruct']
    n_small = 150 if tier == 'quick' else 4000
    for b in rng.sample(small, min(n_small, len(small))):
        cases.append(dict(raw=[[float(x) for x in r] for r in b['raw']], xp=b['xp'],
                          iters=[0, 1, 3], order='C', src='tlc'))
    n_rand = 120 if tier == 'quick' else 1500
    for k in range(n_rand):
        big = rng.random() < .25
        nprof = rng.randint(1, 14 if big else 5)
        nbins = rng.randint(1, 40 if big else 9)
        nparts = rng.choice([1, 2, 3]) if rng.random() < .2 else rng.randint(4, 160 if big else 25)
        raw, rk = gens.waterfall(rng, nprof, nbins)
        xp, xk = gens.coords(rng, nparts, nprof, nbins)
        its = sorted({0, 1, 2, rng.randint(3, 8)})
        cases.append(dict(raw=raw, xp=xp, iters=its if rng.random() < .8 else [rng.randint(0, 12)],
                          order=rng.choice('CF'), src=rk + '/' + xk))
    # large ones: many particles, profiles, bins, iterations
    for k in range(8 if tier == 'quick' else 80):
        nprof, nbins, nparts, its = [(8, 40, 6000, [0, 2]), [(130, 40, 300, [1, 3]), (150, 450, 200, [0, 2])][(k // 4) % 2], (3, 900, 4000, [1, 3]),
                                     (4, 12, 60, [1, 110, 260])][k % 4]
        raw, rk = gens.waterfall(rng, nprof, nbins)
        xp, xk = gens.coords(rng, nparts, nprof, nbins, rng.choice(['uniform', 'orbit', 'orbit']))
        cases.append(dict(raw=raw, xp=xp, iters=its, order=rng.choice('CF'), src='large ' + rk + '/' + xk,
                          modes=['run'] if k % 4 != 3 else ['run', 'hybrid']))
    # crowds: many particles on few trajectories, given to the specification with their numbers
    for k in range(4 if tier == 'quick' else 40):
        nprof, nbins, kinds = rng.randint(2, 4), rng.randint(3, 8), rng.randint(2, 12)
        raw, rk = gens.waterfall(rng, nprof, nbins)
        xp, xk = gens.coords(rng, kinds, nprof, nbins, 'uniform')
        xp = [list(x) for x in sorted({tuple(x) for x in xp})]
        mult = [rng.choice([1, 3, 300, 2000]) for _ in xp]
        mult[rng.randrange(len(xp))] = rng.choice([40000, 70000, 140000])
        cases.append(dict(raw=raw, xp=xp, mult=mult, iters=[0, 2], order='C', src='crowd ' + rk, seed=rng.randrange(10 ** 6)))
    # single precision: few iterations, so that rounding stays rounding
    for k in range(20 if tier == 'quick' else 200):
        nprof, nbins = rng.randint(2, 6), rng.randint(3, 20)
        raw, rk = gens.waterfall(rng, nprof, nbins)
        xp, xk = gens.coords(rng, rng.randint(10, 200), nprof, nbins, rng.choice(['uniform', 'orbit', 'crowded']))
        cases.append(dict(raw=raw, xp=xp, iters=[0, 1, 2], order='C', src='single ' + rk + '/' + xk, single=True))
    return cases


def execute(case):
    import numpy as np
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.utils.tomo_config import AppConfig
    obs = []
    single = case.get('single')
    loud = dict(verbose=True) if sum(case['iters']) % 5 == 1 else {}
    for mode in case.get('modes', ['run', 'hybrid']):
        for it in case['iters']:
            raw = laid(np.array(case['raw'], dtype=float), layout_of(case))
            mult = case.get('mult') or [1] * len(case['xp'])
            kind = np.repeat(np.arange(len(mult)), mult)
            if case.get('mult'):
                np.random.RandomState(case['seed']).shuffle(kind)
            xp = laid(np.array(case['xp'])[kind] if case.get('mult') else case['xp'], layout_of(case, 1))
            tomo = Tomography(raw, xp)
            with quiet():
                (AppConfig.set_single_precision if single else AppConfig.set_double_precision)()
                try:
                    if single:
                        tomo = Tomography(raw, xp)
                    out, res = call(tomo.run if mode == 'run' else tomo.run_hybrid, niter=it, **loud)
                finally:
                    AppConfig.set_double_precision()
            o = dict(mode=mode, niter=it, outcome=out)
            if out == 'ok':
                res = np.asarray(res)
                first = res
                o['uneven'] = '0.0'
                if case.get('mult') and len(res) == len(kind):
                    first = res[np.unique(kind, return_index=True)[1]]
                    o['uneven'] = R(np.abs(res - first[kind]).max())
                o.update(w=RV(first), rec=RM(tomo.recreated), diff=RV(tomo.diff))
            obs.append(o)
    return dict(raw=RM(case['raw']), xp=case['xp'], mult=case.get('mult') or [], maxiter=max(case['iters']),
                rtol='2e-4' if single else '1e-7', atol='2e-5' if single else '1e-12', obs=obs)
