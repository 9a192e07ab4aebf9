"""C09: removal of lost particles."""
from harness.lib import R, RM, IM, call, quiet

TRACE = 'T_Lost'
MODELS = [dict(module='MC_Lost', cfg='MC_Lost.cfg', emit=True, workers=4)]
ASSUMPTIONS = ['coordinates are finite']
BATCH = 150


def gen(rng, tier, beh):
    tables = [b['xp'] for b in beh['MC_Lost']]
    if tier == 'quick':
        tables = rng.sample(tables, 1500)
    cases = [dict(tables=[dict(xp=t, nb=3, f=0) for t in tables[k:k + BATCH]])
             for k in range(0, len(tables), BATCH)]
    edge = lambda nb: [-1e-9, 0.0, -0.0, nb - 1e-9, float(nb), nb + 1e-9, nb - 1.0, .5, -.5, -.999999, nb - .5]
    for k in range(12 if tier == 'quick' else 80):
        ts = []
        for _ in range(20):
            nb, n, p = rng.randint(1, 40), rng.randint(1, 25), rng.randint(1, 8)
            bad = rng.choice([0, .02, .1, .5])
            ts.append(dict(nb=nb, f=1, xp=[[rng.choice(edge(nb)) if rng.random() < bad
                                            else rng.uniform(0, nb - 1e-6) for _ in range(n)] for _ in range(p)]))
        cases.append(dict(tables=ts))
    for n, p in [(4000, 5), (300, 100), (1500, 12)] * (1 if tier == 'quick' else 5):
        nb, bad = rng.choice([100, 205]), rng.choice([0, 1e-4, .01])
        cases.append(dict(tables=[dict(nb=nb, f=1, xp=[[rng.choice(edge(nb)) if rng.random() < bad
                                                        else rng.uniform(0, nb - 1e-6) for _ in range(n)] for _ in range(p)])]))
    return cases


def execute(case):
    import numpy as np
    from longitudinal_tomography.tracking import particles
    recs = []
    for k, t in enumerate(case['tables']):
        xp = np.array(t['xp'], dtype=float if (t['f'] or k % 2) else np.int32)
        # distinct energies, so that a permutation would show
        yp = (np.arange(xp.size).reshape(xp.shape) + .25).astype(float)
        if k % 3 == 0:
            xp, yp = np.asfortranarray(xp), np.asfortranarray(yp)
        x0, y0 = xp.copy(), yp.copy()
        r = dict(nb=t['nb'], xp=RM(xp), yp=RM(yp))
        with quiet():
            fo, f = call(particles.filter_lost, xp, yp, t['nb'])
            to, tt = call(particles.ready_for_tomography, xp, yp, t['nb'])
        r.update(fout=fo, tout=to,
                 unchanged=bool(np.array_equal(x0, xp) and np.array_equal(y0, yp)))
        if fo == 'ok':
            r.update(fx=RM(f[0]), fy=RM(f[1]), lost=int(f[2]))
        else:
            r['ferr'] = f[0]
        if to == 'ok':
            r.update(tx=IM(tt[0]), ty=IM(tt[1]), intdtype=bool(tt[0].dtype.kind == 'i' and tt[1].dtype.kind == 'i'))
        else:
            r['terr'] = tt[0]
        recs.append(r)
    return recs
