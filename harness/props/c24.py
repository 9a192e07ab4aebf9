"""C24: automatic cuts, cutting, filtering of profiles."""
import math
from harness.lib import R, RM, IM, call

TRACE = 'T_Cuts'
MODELS = [dict(module='MC_Cuts', cfg='MC_Cuts.cfg', cfg_thorough='MC_Cuts_T.cfg', emit=True, workers=8)]
ASSUMPTIONS = ['the margin is not negative and profiles have at least two bins']


def gen(rng, tier, beh):
    b = beh['MC_Cuts']
    rng.shuffle(b)
    b = b[:1500] if tier == 'quick' else b[:20000]
    cases = [dict(kind='small', bs=b[k:k + 150], seed=rng.randrange(10 ** 6)) for k in range(0, len(b), 150)]
    cases += [dict(kind='big', seed=rng.randrange(10 ** 6)) for _ in range(40 if tier == 'quick' else 400)]
    return cases


def cuts(wf, thr, mg, default_margin=False):
    import numpy as np
    from longitudinal_tomography.data import pre_process
    k = {}
    if thr is not None:
        k['threshold'] = thr
    if not default_margin:
        k['margin'] = mg
    w0 = np.array(wf, dtype=float)
    out, res = call(pre_process.get_cuts, wf, **k)
    l, r = (int(res[0]), int(res[1])) if out == 'ok' else (0, 0)
    return dict(kind='cuts', outcome=out, mro=[] if out == 'ok' else res, w=RM(w0), thr='none' if thr is None else R(thr),
                mg=mg, exact=bool(thr is not None and float(thr).is_integer() and (w0 == w0.astype(int)).all()), left=l, right=r, after=RM(np.array(wf, dtype=float)))


def cut(wf, l, r):
    import numpy as np
    from longitudinal_tomography.data import pre_process
    w0 = np.array(wf, dtype=float)
    out, res = call(pre_process.cut_waterfall, wf, l, r)
    return dict(kind='cut', outcome=out, mro=[] if out == 'ok' else res, w=RM(w0), l=int(l), r=int(r),
                got=RM(res) if out == 'ok' else [], after=RM(np.array(wf, dtype=float)))


def filt(rng, wf):
    import numpy as np
    from longitudinal_tomography.data import pre_process
    w0 = np.array(wf, dtype=float)
    n = len(wf)
    hx, hy = rng.choice([(0, 0), (1, 1), (1, 1), (1, 0), (0, 1)])
    x = np.array([[rng.randint(0, 9) for _ in range(n)] for _ in range(3)])
    y = np.array([[rng.randint(0, 9) for _ in range(n)] for _ in range(3)])
    k = {}
    if hx:
        k['xp'] = x.copy()
    if hy:
        k['yp'] = y.copy()
    rec = rng.choice([None, 0, n - 1, rng.randrange(n)])
    if rec is not None:
        k['rec_prof'] = rec
    out, res = call(pre_process.filter_profiles, wf, **k)
    d = dict(kind='filter', outcome=out, mro=[] if out == 'ok' else res, w=RM(w0), hasx=bool(hx), hasy=bool(hy),
             hasrec=rec is not None, rec=rec or 0, x=IM(x), y=IM(y), got=[], nout=0, gx=[], gy=[], grec=0,
             after=RM(np.array(wf, dtype=float)))
    if out == 'ok':
        res = res if isinstance(res, (tuple, list)) else (res,)
        res = list(res)
        d['nout'] = len(res)
        d['got'] = RM(res.pop(0))
        if hx and len(res) > 1:
            d['gx'], d['gy'] = IM(res.pop(0)), IM(res.pop(0))
        if rec is not None and res:
            d['grec'] = int(res.pop(0))
    return d


def execute(case):
    import random
    import numpy as np
    rng = random.Random(case['seed'])
    recs = []
    if case['kind'] == 'small':
        for b in case['bs']:
            w = np.array(b['w'], dtype=rng.choice([float, float, int]))
            g = rng.choice([w, w, w.tolist(), tuple(map(tuple, w.tolist())), np.asfortranarray(w)])
            recs.append(cuts(g, None if b['thr'] == 'none' else float(b['thr']), b['mg']))
            recs.append(cut(rng.choice([w, w.tolist()]), rng.randint(-1, w.shape[1]), rng.randint(-w.shape[1] - 1, w.shape[1] + 1)))
            if w.sum() > 0:
                recs.append(filt(rng, w))
        return recs
    for _ in range(6):
        n, nb = rng.choice([(rng.randint(1, 10), rng.choice([8, 30, 64, 100, 150]))] * 25 + [(100, 60), (5, 1000)])
        cen, wid = rng.uniform(-2, nb + 2), rng.uniform(1, nb / 5)
        kind = rng.choice(['peak', 'peak', 'two', 'noise', 'step', 'spike', 'flat'])
        w = np.zeros((n, nb))
        for i in range(n):
            for j in range(nb):
                g = math.exp(-.5 * ((j - cen - .3 * i) / wid) ** 2)
                if kind == 'two':
                    g += .8 * math.exp(-.5 * ((j - cen / 2) / wid) ** 2)
                if kind == 'step':
                    g = float(j > cen)
                if kind == 'spike':
                    g = float(j == int(cen) % nb)
                if kind == 'flat':
                    g = 1.0
                w[i, j] = g * 5 + (rng.uniform(0, .2) if kind != 'flat' and rng.random() < .9 else 0)
            if rng.random() < .3:
                w[i] = [rng.uniform(0, .1) for _ in range(nb)]
        w = w * rng.choice([1, 1, 1e-6, 1e5])
        thr = rng.choice([None, None, w.max() * n * rng.uniform(.01, .6), 0.0])
        default = rng.random() < .3
        mg = 20 if default else rng.choice([0, 0, 1, 3, 10, 20, nb, nb // 2])
        if rng.random() < .25:
            # ADC counts on a high pedestal: the differences are exact in double precision only
            w = np.floor(w / w.max() * 999) + 2.0 ** rng.choice([26, 30, 40])
            thr = None if thr is None else float(rng.randint(0, 300 * n))
        r1 = cuts(rng.choice([w, w, w.tolist(), np.asfortranarray(w)]), thr, mg, default)
        recs.append(r1)
        if r1['outcome'] == 'ok':
            recs.append(cut(w, r1['left'], r1['right']))
        recs.append(cut(w, rng.randint(-1, nb), rng.randint(-nb - 1, nb + 1)))
        recs.append(filt(rng, w))
    return recs
