"""C23: beam-quality figures."""
import math
from harness.lib import R, RV, RM, call

TRACE = 'T_Quality'
MODELS = [dict(module='MC_Quality', cfg='MC_Quality.cfg', cfg_thorough='MC_Quality_T.cfg', emit=True, workers=4)]
ASSUMPTIONS = ['axes are equally spaced; the image has positive total; fractions strictly between 0 and 100 have a value, those outside are refused']


def gen(rng, tier, beh):
    b = [x['d'] for x in beh['MC_Quality']]
    rng.shuffle(b)
    b = b[:400] if tier == 'quick' else b
    cases = [dict(kind='small', ds=b[k:k + 50], seed=rng.randrange(10 ** 6)) for k in range(0, len(b), 50)]
    return cases + [dict(kind='big', seed=rng.randrange(10 ** 6)) for _ in range(24 if tier == 'quick' else 200)]


def one(rng, d, exact=False):
    import numpy as np
    from longitudinal_tomography.data import post_process as pp
    d = np.array(d, dtype=float)
    n, m = d.shape
    tw, ew = rng.choice([1e-9, 2.5e-9, 1.0]), rng.choice([1e3, 2.0, 4.5e4])
    t = (np.arange(n) - rng.choice([0, n / 2, n / 2 - .3, -5])) * tw
    e = (np.arange(m) - rng.choice([0, m / 2, m / 2 - .3, 9])) * ew
    en = rng.uniform(1.0, 3.0) * .94e9
    mass = .938272e9
    fr = [90.0] + [rng.choice([1.0, 10.0, 39.0, 50.0, 68.27, 80.0, 95.0, 99.0, rng.uniform(.5, 99.5)]) for _ in range(4)]
    if exact:
        fr = [90.0] + rng.sample([12.5, 25.0, 50.0, 62.5, 75.0, 87.5], 4)
    s1, s2 = rng.uniform(0, 10), rng.uniform(0, 1e6)
    g = rng.choice([d.copy(), np.asfortranarray(d), d.T.copy().T])

    def run():
        r = pp.post_process(g, t, e, en, mass)
        return dict(rms=R(pp.emittance_rms(g, t, e)), pprms=R(r['emittance_rms']), e90=R(pp.emittance_90(g, t, e)),
                    pp90=R(r['emittance_90']), dpp=R(pp.rms_dpp(g.sum(0), e, en, mass)), ppdpp=R(r['rms_dp/p']),
                    frac=[R(pp.emittance_fractional(g, t, e, fraction=f)) for f in fr],
                    rms2=R(pp.emittance_rms(s1, s2)), dpp2=R(pp.rms_dpp(s2, en, mass)))
    # shares that are not a percentage are refused
    bad = [call(pp.emittance_fractional, g, t, e, fraction=f) for f in
           (rng.choice([-1e-9, -5.0, -100.0]), rng.choice([100 + 1e-9, 100.5, 101.0, 900.0]))]
    out, res = call(run)
    rec = dict(refused=all(o != 'ok' and 'ValueError' in r for o, r in bad), outcome=out, mro=[] if out == 'ok' else res, d=RM(d), after=RM(g), t=RV(t), e=RV(e), en=R(en), mass=R(mass),
               fracs=RV(fr), exact=exact, s1=R(s1), s2=R(s2), rms='0', pprms='0', e90='0', pp90='0', dpp='0', ppdpp='0',
               frac=['0'] * len(fr), rms2='0', dpp2='0')
    if out == 'ok':
        rec.update(res)
    return rec


def execute(case):
    import random
    import numpy as np
    rng = random.Random(case['seed'])
    if case['kind'] == 'small':
        return [one(rng, d) for d in case['ds']]
    recs = []
    for _ in range(2):
        # cells and shares without rounding: a cumulated share meets the fraction exactly
        n, m, k = rng.randint(2, 5), rng.randint(2, 5), rng.choice([16, 64])
        d = np.zeros(n * m)
        for _ in range(k):
            d[rng.randrange(n * m) if rng.random() < .5 else rng.randrange(min(4, n * m))] += 1
        recs.append(one(rng, d.reshape(n, m) / rng.choice([1, k, 4]), True))
    for _ in range(4):
        n, m = rng.randint(2, 14), rng.randint(2, 14)
        kind = rng.choice(['gauss', 'random', 'sparse', 'equal', 'ring'])
        d = np.zeros((n, m))
        for i in range(n):
            for j in range(m):
                u, v = (i - n * .55) / n * 5, (j - m * .4) / m * 5
                r2 = u * u + v * v
                d[i, j] = {'gauss': math.exp(-r2 / 2), 'random': rng.random(), 'sparse': rng.random() * (rng.random() < .15),
                           'equal': 1.0, 'ring': math.exp(-(r2 - 3) ** 2)}[kind]
        if d.sum() == 0:
            d[n // 2, m // 2] = 1
        recs.append(one(rng, d * rng.choice([1, 1 / d.sum(), 1e6])))
    return recs
