"""C02: finished reconstructions are self-consistent, at realistic sizes."""
from harness.lib import RV, RM, IM, call, quiet, laid, layout_of
from harness import gens

TRACE = 'T_Result'
MODELS = [dict(module='MC_Reconstruct', cfg='MC_Reconstruct.cfg',
               cfg_thorough='MC_Reconstruct_T.cfg', workers=4)]
ASSUMPTIONS = ['tolerance 1e-7 on normalised profiles and discrepancies']


def gen(rng, tier, beh):
    cases = []
    sizes = ([(3, 5, 12)] * 30 + [(10, 30, 300)] * 16 + [(20, 60, 2500)] * 4
             + [(1, 1, 1), (1, 7, 4), (6, 1, 5)])
    if tier == 'thorough':
        sizes = sizes * 8 + [(50, 120, 15000)] * 3
    for (p, b, n) in sizes:
        nprof = rng.randint(max(1, p // 2), p)
        nbins = rng.randint(max(1, b // 2), b)
        nparts = rng.randint(max(1, n // 2), n)
        raw, rk = gens.waterfall(rng, nprof, nbins)
        xp, xk = gens.coords(rng, nparts, nprof, nbins,
                             rng.choice(['uniform', 'orbit', 'orbit', 'crowded', 'static']))
        a, z = rng.randint(0, 3), rng.randint(4, 25)
        order = [a, z, a, 0, z] if n < 1000 else [a, z, a]
        perm = list(range(nparts))
        rng.shuffle(perm)
        cases.append(dict(raw=raw, xp=xp, runs=order, perm=perm,
                          mode=rng.choice(['run', 'run', 'hybrid']) if n < 400 else 'run',
                          kind=rk + '/' + xk))
    return cases


def execute(case):
    import numpy as np
    from longitudinal_tomography.tomography.tomography import Tomography
    tomo = Tomography(laid(case['raw'], layout_of(case)), laid(case['xp'], layout_of(case, 1)))
    runs = []

    def one(t, it, kind, back=None):
        with quiet():
            out, res = call(t.run if case['mode'] == 'run' else t.run_hybrid, niter=it)
        o = dict(niter=it, outcome=out, kind=kind)
        if out == 'ok':
            w = np.asarray(res, dtype=float)
            if back is not None:
                w2 = np.empty_like(w)
                w2[back] = w
                w = w2
            o.update(w=RV(w), rec=RM(t.recreated), diff=RV(t.diff))
        runs.append(o)

    for it in case['runs']:
        one(tomo, it, 'plain')
    perm = np.array(case['perm'])
    tomo = Tomography(np.array(case['raw']), laid(np.array(case['xp'])[perm], layout_of(case, 2)))
    one(tomo, case['runs'][0], 'permuted', perm)
    return dict(raw=RM(case['raw']), xp=case['xp'], runs=runs, rtol='1e-7', stol='1e-9')
