"""C12: raw samples to frames, baseline."""
from harness.lib import R, RV, IV, IM, call, quiet

TRACE = 'T_Frames'
MODELS = [dict(module='MC_Frames', cfg='MC_Frames.cfg', cfg_thorough='MC_Frames_T.cfg', emit=True, workers=4)]
ASSUMPTIONS = ['the share of the profile used for the baseline holds at least one sample']
BATCH = 60


def gen(rng, tier, beh):
    layouts = [b['f'] for b in beh['MC_Frames'] if b['kind'] == 'layout']
    big = []
    for _ in range(400 if tier == 'quick' else 1500):
        n, ln = rng.randint(1, 12), rng.randint(1, 40)
        sl = rng.randint(0, ln - 1)
        se = rng.choice([0, rng.randint(0, ln - 1 - sl), rng.randint(0, ln - 1 - sl), ln - 1 - sl, ln - sl])
        big.append(dict(n=n, len=ln, skip=min(rng.choice([0, n - 1, n, rng.randrange(n), rng.randrange(n)]), n), sl=sl, se=se, rebin=rng.choice([0, 1, 1, 1, 2, 7])))
    for _ in range(3 if tier == 'quick' else 30):
        n, ln = rng.choice([(100, 60), (20, 500), (150, 40)])
        sl = rng.choice([0, rng.randrange(ln // 2)])
        big.append(dict(n=n, len=ln, skip=rng.choice([0, n // 2, rng.randrange(n)]), sl=sl, se=rng.choice([0, rng.randrange(ln // 3)]), rebin=rng.choice([1, 3])))
    # every small layout is tried without surplus; the larger ones also with one
    layouts = layouts + big
    cases = []
    for k in range(0, len(layouts), BATCH):
        cases.append(dict(kind='layout', fs=layouts[k:k + BATCH], seed=rng.randrange(10 ** 6)))
    for _ in range(12 if tier == 'quick' else 100):
        cases.append(dict(kind='baseline', seed=rng.randrange(10 ** 6)))
    return cases


def execute(case):
    import random
    import numpy as np
    from longitudinal_tomography.utils.tomo_input import Frames
    from longitudinal_tomography.compat.fortran import calc_baseline
    rng = random.Random(case['seed'])
    recs = []
    if case['kind'] == 'baseline':
        for _ in range(12):
            n, nb = rng.randint(1, 5), rng.randint(20, 130)
            wf = np.array([[rng.choice([0, rng.uniform(-2, 9)]) for _ in range(nb)] for _ in range(n)])
            ref = rng.randrange(n)
            pct = rng.choice([None, .05, .05, .1, .25, 1.0, .5, rng.uniform(.05, 1), -.01, 1.01, 5])
            out, res = call(calc_baseline, wf, ref, *([] if pct is None else [pct]))
            recs.append(dict(kind='baseline', row=RV(wf[ref]), pct=R(.05 if pct is None else pct), outcome=out,
                             mro=[] if out == 'ok' else res, got=R(res) if out == 'ok' else '0'))
        return recs
    for f in case['fs']:
        extra = 0 if f['len'] <= 4 else rng.choice([0] * 9 + [1, -1, f['len'], -f['len'], 3])
        size = f['n'] * f['len']
        if size + extra < 0:
            extra = 0
        raw = rng.sample(range(10 * (size + extra) + 1), size + extra)
        if rng.random() < .3:       # counts that need more than single precision
            raw = [x + 2 ** 25 for x in raw]
        forms = [list, np.array, lambda x: np.array(x, dtype=float), lambda x: np.repeat(np.array(x), 2)[::2]]
        given = rng.choice(forms)(raw)
        fr = Frames(f['n'], f['len'], f['skip'], f['sl'], f['se'], f['rebin'], 1e-9)
        prior = rng.sample(range(10 * size + 1), size)
        fr.raw_data = list(prior)
        out, res = call(fr.to_waterfall, given)
        rec = dict(kind='layout', f=f, extra=extra, outcome=out, mro=[] if out == 'ok' else res,
                   nprofs=int(fr.nprofs()), nbins=int(fr.nbins()), raw=raw, prior=prior,
                   wf=IM(res) if out == 'ok' else [])

        def assign():
            fr.raw_data = given
        sout, sres = call(assign)
        if rng.random() < .5 and fr.raw_data is not None and len(fr.raw_data):
            fr.raw_data[0] += 1       # the property hands out copies
        after = IV(given)
        if sout == 'ok' and rng.random() < .5 and len(given):
            given[rng.randrange(len(given))] += 1000      # and keeps one
        rec.update(setter=sout, settermro=[] if sout == 'ok' else sres, stored=IV(fr.raw_data),
                   rawafter=after)
        recs.append(rec)
    for bad in (None, 3, 2.5):
        fr = Frames(1, 3, 0, 0, 0, 1, 1e-9)
        out, res = call(fr.to_waterfall, bad)

        def assign():
            fr.raw_data = bad
        sout, sres = call(assign)
        recs.append(dict(kind='layout', f=dict(n=1, len=3, skip=0, sl=0, se=0, rebin=1), extra=-3, outcome=out,
                         mro=[] if out == 'ok' else res, nprofs=int(fr.nprofs()), nbins=int(fr.nbins()), raw=[], wf=[],
                         setter=sout, settermro=[] if sout == 'ok' else sres, prior=[], rawafter=[],
                         stored=[] if fr.raw_data is None else [1]))
    return recs
