"""C04: multi-bunch reconstruction against Reconstruct.tla (masked, shifted)."""
from harness.lib import RV, RM, call, quiet, laid, layout_of
from harness import gens

TRACE = 'T_Multi'
MODELS = [dict(module='MC_Multi', cfg='MC_Multi.cfg', emit=True, workers=4)]
ASSUMPTIONS = ['shifted particles stay inside the waterfall (outside of it the routine '
               'has no defined meaning)', 'hybrid runs are judged when no particle sits on a cut']


def gen(rng, tier, beh):
    cases = []
    small = beh['MC_Multi']
    for b in rng.sample(small, min(len(small), 150 if tier == 'quick' else 2500)):
        cases.append(dict(raw=[[float(v) for v in r] for r in b['raw']], xp=b['xp'],
                          centers=b['c'], cutl=b['l'], cutr=b['r'], iters=[0, 1, 3]))
    for k in range(110 if tier == 'quick' else 1200):
        nprof, nbins = rng.randint(1, 5), rng.randint(4, 24)
        nparts = rng.randint(1, 30)
        nb = rng.choice([1, 2, 3, 4, 1, 2, 3, 4, 7, 12])
        # particle coordinates of a template bunch, and centres keeping them inside
        width = rng.randint(1, max(1, nbins // max(1, nb)))
        lo = rng.randint(0, 3) if rng.random() < .5 else 0
        lo = min(lo, nbins - width)
        xp = [[rng.randint(lo, lo + width - 1) for _ in range(nprof)] for _ in range(nparts)]
        centers, cutl, cutr = [], [], []
        for b in range(nb):
            c = rng.randint(-lo, nbins - lo - width)
            centers.append(c)
            kind = rng.random()
            if kind < .4:
                l, r = 0, nbins
            elif kind < .8:
                l = max(0, c + lo - rng.randint(0, 2))
                r = min(nbins, c + lo + width + rng.randint(-1, 2))
            else:
                l = rng.randint(0, nbins - 1)
                r = rng.randint(l + 1, nbins)
            if r <= l:
                l, r = 0, nbins
            cutl.append(l)
            cutr.append(r)
        raw, _ = gens.waterfall(rng, nprof, nbins)
        cases.append(dict(raw=raw, xp=xp, centers=centers, cutl=cutl, cutr=cutr,
                          iters=sorted({0, 1, 2, rng.randint(3, 7)})))
    # many particles, bunches, profiles, iterations; single precision
    for k in range(12 if tier == 'quick' else 120):
        single = k % 2 == 1
        nprof, width, nparts, nb, its = [(6, 12, 3000, 5, [0, 2]), (100, 9, 200, 2, [1, 3]),
                                         (3, 8, 60, 9, [1, 40, 120])][(k // 2) % 3]
        if single:
            nprof, nparts, its = min(nprof, 6), min(nparts, 200), [0, 1, 2]
        # room around each bunch, so that no particle lies on a cut
        nbins = nb * (width + 2) + rng.randint(0, 9)
        xp = [[min(width - 1, max(0, int(rng.gauss(width / 2, width / 5)))) for _ in range(nprof)] for _ in range(nparts)]
        raw, _ = gens.waterfall(rng, nprof, nbins)
        centers = [1 + b * (width + 2) for b in range(nb)]
        rng.shuffle(centers)
        # some bunches with narrower cuts: each has particles of its own
        narrow = [rng.choice([0, 0, 1, 2, 3]) if k % 4 in (0, 1) else 0 for c in centers]
        cases.append(dict(raw=raw, xp=xp, centers=centers, cutl=[c - 1 + w for c, w in zip(centers, narrow)],
                          cutr=[c + width - w for c, w in zip(centers, narrow)],
                          iters=its, single=single, modes=['run'] if not single and nparts > 100 or any(narrow) else ['run', 'hybrid']))
    return cases


def execute(case):
    import numpy as np
    from longitudinal_tomography.tomography.tomography_multibunch import Tomography as TomographyMultiBunch
    from longitudinal_tomography.tomography.tomography import Tomography
    raw, xp = laid(case['raw'], layout_of(case)), laid(case['xp'], layout_of(case, 1))
    obs = []
    nb = len(case['centers'])
    from longitudinal_tomography.utils.tomo_config import AppConfig
    single = case.get('single')
    (AppConfig.set_single_precision if single else AppConfig.set_double_precision)()
    for mode in case.get('modes', ['run', 'hybrid', 'hybrid2']):
        for it in case['iters']:
            cls = Tomography if mode == 'hybrid2' else TomographyMultiBunch
            t = cls(raw, xp)
            cuts = list(zip(case['cutl'], case['cutr']))
            with quiet():
                if mode == 'run':
                    out, res = call(t.run, list(case['centers']), list(case['cutl']),
                                    list(case['cutr']), niter=it)
                elif mode == 'hybrid':
                    out, res = call(t.run_hybrid, list(case['centers']), cuts, niter=it)
                else:
                    out, res = call(t.run_hybrid_multi, list(case['centers']), cuts, niter=it)
            o = dict(mode=mode, niter=it, outcome=out, hassplit=False, split=[])
            if out == 'ok':
                if mode == 'hybrid2':
                    w = np.asarray(res).reshape(-1)
                else:
                    w = np.asarray(t.weight_combined).reshape(-1)
                    if len(t.weight_split) != nb or not np.array_equal(
                            np.concatenate([np.asarray(v) for v in t.weight_split]), w):
                        raise AssertionError('weight_split is not weight_combined split by bunch')
                    o.update(hassplit=True, split=RM(np.asarray(t.diff_split)))
                o.update(w=RV(w), rec=RM(t.recreated), diff=RV(t.diff))
            obs.append(o)
    AppConfig.set_double_precision()
    return dict(raw=RM(case['raw']), xp=case['xp'], centers=case['centers'],
                cutl=case['cutl'], cutr=case['cutr'], maxiter=max(case['iters']),
                rtol='2e-4' if single else '1e-7', obs=obs)
