"""C28: fit of the synchronous bin."""
import math
from harness.lib import R, RV, call, quiet
from harness import gens

TRACE = 'T_Fit'
MODELS = [dict(module='MC_Fit', cfg='MC_Fit.cfg', cfg_thorough='MC_Fit_T.cfg', emit=True, workers=8)]
ASSUMPTIONS = ['RF voltages constant over the measurement, phase difference of the RF systems a single number',
               'both bunch edges (and the bins their tangents use) lie inside the reference profile']


def gen(rng, tier, beh):
    b = [x['p'] for x in beh['MC_Fit']]
    rng.shuffle(b)
    b = b[:300] if tier == 'quick' else b
    cases = [dict(kind='small', ps=b[k:k + 40], seed=rng.randrange(10 ** 6)) for k in range(0, len(b), 40)]
    cases += [dict(kind='big', seed=rng.randrange(10 ** 6)) for _ in range(40 if tier == 'quick' else 400)]
    return cases


def one(rng, prof, shift_by):
    import warnings
    import numpy as np
    from longitudinal_tomography.data import data_treatment, pre_process
    from longitudinal_tomography.data.profiles import Profiles
    from longitudinal_tomography.tracking.machine import Machine
    warnings.simplefilter('ignore')
    nb = len(prof)
    n = rng.randint(2, 5)
    kw = gens.machine_kwargs(rng, nprofiles=n, nbins=nb, vrf1dot=0.0, vrf2dot=0.0)
    kw['vrf2dot'] = 0.0
    kw['machine_ref_frame'] = rng.choice([0, 0, kw['beam_ref_frame']])
    ref = kw['beam_ref_frame']
    m = Machine(**kw)
    wf = np.array([[rng.uniform(0, 5) for _ in range(nb)] for _ in range(n)])
    wf[ref] = prof
    given = wf.copy()
    out, res = call(pre_process.fit_synch_part_x, given, m)
    turn = ref * m.dturns
    d = dict(outcome=out, mro=[] if out == 'ok' else res, p=RV(wf[ref]), pafter=RV(given[ref]),
             m=dict(v1=R(m.vrf1_at_turn[0]), v2=R(m.vrf2_at_turn[0]), phi0=R(m.phi0[turn]), hr=R(m.h_ratio),
                    phi12=R(np.ravel(m.phi12)[0]), h=R(m.h_num), omega=R(m.omega_rev0[turn]), dt=R(m.dtbin)),
             fit='0', low='0', up='0', others='same', hasshift=False, shift=0, sfit='0', slow='0', sup='0')
    if out != 'ok':
        return d
    d.update(fit=R(res[0]), low=R(res[1]), up=R(res[2]))
    with quiet():
        p = Profiles(m, kw['dtbin'], wf.copy())
    for f in (data_treatment.fit_synch_part_x, pre_process.fit_synch_part_x):
        o, r = call(f, p)
        if o != 'ok' or not np.allclose(r, res, rtol=1e-12, atol=0):
            d['others'] = 'differ'
    if shift_by:
        wf2 = np.array([[rng.uniform(0, 5) for _ in range(nb)] for _ in range(n)])
        moved = np.zeros(nb)
        moved[max(0, shift_by):nb + min(0, shift_by)] = prof[max(0, -shift_by):nb - max(0, shift_by)]
        scale = rng.choice([1.0, 1e-3, 37.0])
        wf2[ref] = moved * scale
        o, r = call(pre_process.fit_synch_part_x, wf2, m)
        if o == 'ok':
            d.update(hasshift=True, shift=shift_by, sfit=R(r[0]), slow=R(r[1]), sup=R(r[2]))
        else:
            d.update(hasshift=True, shift=shift_by, sfit='NaN')
    return d


def execute(case):
    import random
    import numpy as np
    rng = random.Random(case['seed'])
    if case['kind'] == 'small':
        recs = []
        for b in case['ps']:
            left, right = rng.choice([(4, 4), (2, 4), (4, 3), (2, 3), (1, 2)])
            p = np.array([0.] * left + [float(x) for x in b] + [0.] * right)
            recs.append(one(rng, p, rng.choice([0, 1, -1]) if left + right == 8 else 0))
        return recs
    recs = []
    for _ in range(8):
        nb = rng.choice([30, 57, 80, 120])
        wid = rng.uniform(nb / 30, nb / 8)
        cen = rng.uniform(3.2 * wid + 4, nb - 3.2 * wid - 5)
        kind = rng.choice(['gauss', 'parab', 'flat', 'noisy', 'skew'])
        p = np.zeros(nb)
        for j in range(nb):
            u = (j - cen) / wid
            if kind in ('gauss', 'noisy'):
                p[j] = math.exp(-.5 * u * u)
            elif kind == 'parab':
                p[j] = max(0, 1 - (u / 2) ** 2) ** 1.5
            elif kind == 'flat':
                p[j] = 1 / (1 + math.exp(6 * (abs(u) - 2)))
            else:
                p[j] = math.exp(-.5 * u * u) * (1 + .3 * math.tanh(u))
            if kind == 'noisy':
                p[j] = max(0, p[j] + rng.uniform(-.02, .02))
        p *= rng.choice([1, 1e-3, 1e4])
        room_l, room_r = int(cen - 3 * wid) - 4, int(nb - cen - 3 * wid) - 5
        s = rng.randint(-max(0, room_l), max(0, room_r)) if kind != 'noisy' else 0
        if s:
            # what is pushed out of the profile must be negligible
            p[p < 1e-3 * p.max()] = 0
        recs.append(one(rng, p, s))
    return recs
