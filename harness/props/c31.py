"""C31: macroparticles drawn from a density."""
import math
from harness.lib import R, RV, RM, IM, IV, call, quiet

TRACE = 'T_Sampling'
MODELS = [dict(module='MC_Sampling', cfg='MC_Sampling.cfg', cfg_thorough='MC_Sampling_T.cfg', emit=True, workers=4)]
ASSUMPTIONS = ['equally spaced axes with at least two centres, non-negative density',
               'frequencies are accepted within 6.5 standard deviations']


def gen(rng, tier, beh):
    b = list(beh['MC_Sampling'])
    rng.shuffle(b)
    b = b[:160] if tier == 'quick' else b[:3000]
    cases = [dict(kind='small', bs=b[k:k + 20], seed=rng.randrange(10 ** 6)) for k in range(0, len(b), 20)]
    return cases + [dict(kind='big', seed=rng.randrange(10 ** 6)) for _ in range(30 if tier == 'quick' else 300)]


def one(rng, d, thr, n=None):
    import numpy as np
    from longitudinal_tomography.data import data_treatment as dt
    d = np.array(d, dtype=float)
    if rng.random() < .2:
        d = np.asfortranarray(d)
    nx, ny = d.shape
    tb, eb = rng.choice([1e-9, .5, -2.0]), rng.choice([1e3, 1.0, -4e4])
    t = rng.uniform(-3, 3) * tb + np.arange(nx) * tb
    e = rng.uniform(-8, 8) * eb + np.arange(ny) * eb
    n = n or rng.choice([1, 7, 300, 3000, 3000])
    given = [t.copy(), e.copy(), d.copy()]
    np.random.seed(rng.randrange(10 ** 6))
    with quiet():
        a = (rng.choice([n, n, float(n), n + .7]),) + (() if thr is None else (thr,))
        out, res = call(dt.density_to_macro, t, e, d, *a)
    rec = dict(outcome=out, exact=thr == .5, t=RV(t), e=RV(e), d=RM(given[2]), n=n, thr=R(1e-5 if thr is None else thr),
               same=all(np.array_equal(x, y) for x, y in zip(given, (t, e, d))), nt=0, ne=0, dt=[], de=[], outside=0,
               count=IM(np.zeros((nx, ny))), quad=[0] * 4, tstrip=[0] * 4, estrip=[0] * 4)
    if out == 'ok':
        x, y = np.asarray(res[0], dtype=float), np.asarray(res[1], dtype=float)
        keep = slice(0, 60)
        rec.update(nt=int(x.size), ne=int(y.size), dt=RV(x[keep]), de=RV(y[keep]))
        if x.shape == y.shape:
            u, v = (x - t[0]) / (t[1] - t[0]) + .5, (y - e[0]) / (e[1] - e[0]) + .5
            i, j = np.floor(u).astype(int), np.floor(v).astype(int)
            good = (i >= 0) & (i < nx) & (j >= 0) & (j < ny)
            count = np.zeros((nx, ny), dtype=int)
            np.add.at(count, (i[good], j[good]), 1)
            fu, fv = u - i, v - j
            q = 2 * (fu >= .5) + (fv >= .5)
            rec.update(outside=int((~good).sum()), count=IM(count), quad=IV(np.bincount(q.astype(int), minlength=4)),
                       tstrip=IV(np.bincount(np.clip(fu * 4, 0, 3).astype(int), minlength=4)),
                       estrip=IV(np.bincount(np.clip(fv * 4, 0, 3).astype(int), minlength=4)))
    return rec


def execute(case):
    import random
    import numpy as np
    rng = random.Random(case['seed'])
    if case['kind'] == 'small':
        return [one(rng, b['d'], float(b['thr'])) for b in case['bs']]
    recs = []
    for _ in range(4):
        nx, ny = rng.randint(2, 9), rng.randint(2, 9)
        kind = rng.choice(['gauss', 'random', 'sparse', 'equal'])
        d = np.zeros((nx, ny))
        for i in range(nx):
            for j in range(ny):
                u, v = (i - nx * .45) / nx * 5, (j - ny * .4) / ny * 5
                d[i, j] = {'gauss': math.exp(-(u * u + v * v) / 2), 'random': rng.random(),
                           'sparse': rng.random() * (rng.random() < .2), 'equal': 1.0}[kind]
        if d.sum() == 0:
            d[0, -1] = 1.0
        if rng.random() < .15:          # one full cell, the others faint: together they still get their share
            d = np.array([[rng.uniform(1e-7, 4.9e-7) for _ in range(12)] for _ in range(12)])
            d[rng.randrange(12), rng.randrange(12)] = 1.0
            recs.append(one(rng, d, rng.choice([0.0, 1e-9]), 3 * 10 ** 6))
            continue
        recs.append(one(rng, d * rng.choice([1, 1 / d.sum(), 1e7]), rng.choice([None, 0.0, .01, .05, rng.uniform(0, .4)])))
    return recs
