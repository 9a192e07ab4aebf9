"""C29: analysis of the phase-space image (moments, densities, contours, clipping)."""
import math
from harness import gens
from harness.lib import R, RV, RM, IV, call, machine_args

TRACE = 'T_Analysis'
MODELS = [dict(module='MC_Analysis', cfg='MC_Analysis.cfg', cfg_thorough='MC_Analysis_T.cfg', emit=True, workers=4)]
ASSUMPTIONS = ['square images with non-negative cells; one RF harmonic of constant voltage; contours closed and inside the '
               'image; the energy axis contains zero']


def gen(rng, tier, beh):
    b = [x['d'] for x in beh['MC_Analysis']]
    rng.shuffle(b)
    b = b[:200] if tier == 'quick' else b[:2000]
    cases = [dict(kind='small', ds=b[k:k + 50], seed=rng.randrange(10 ** 6)) for k in range(0, len(b), 50)]
    n = 1 if tier == 'quick' else 8
    for kind, cnt in [('big', 12), ('tangent', 24), ('feet', 16), ('matched', 16), ('contours', 24), ('clip', 48)]:
        cases += [dict(kind=kind, seed=rng.randrange(10 ** 6)) for _ in range(cnt * n)]
    return cases


def image(rng, n):
    import numpy as np
    kind = rng.choice(['gauss', 'random', 'sparse', 'equal', 'ring'])
    d = np.zeros((n, n))
    a, b, c = rng.uniform(.4, .6), rng.uniform(.4, .6), rng.uniform(-.5, .5)
    for i in range(n):
        for j in range(n):
            u, v = (i - n * a) / n * 5, (j - n * b) / n * 5
            r2 = u * u + v * v + c * u * v
            d[i, j] = {'gauss': math.exp(-r2 / 2), 'random': rng.random(), 'sparse': rng.random() * (rng.random() < .15),
                       'equal': 1.0, 'ring': math.exp(-(r2 - 3) ** 2)}[kind]
    if d.sum() == 0:
        d[n // 2, n // 2] = 1
    return d / d.sum()


def figures(rng, d):
    import numpy as np
    from longitudinal_tomography.utils import tomographics as tg
    d = np.array(d, dtype=float)
    d = d / d.sum()
    dt, dE = rng.choice([1e-9, 2.5e-9, 1.0]), rng.choice([1e3, 2.0, 4.5e4])
    recs = []
    out, res = call(tg.rms_params, d, dt, dE)
    recs.append(dict(kind='moments', outcome=out, mro=[] if out == 'ok' else res, d=RM(d), dt=R(dt), dE=R(dE),
                     res=RV(res) if out == 'ok' else []))
    for f in [rng.choice([.9, .5, .39, .1]), rng.random(), rng.choice([0, 1, -.2, 1.5, .999, 1e-6])]:
        g = rng.choice([d.copy(), np.asfortranarray(d)])
        if f == .9 and rng.random() < .7:
            out, res = call(tg.emittance_density_calc, g, dt, dE)
        else:
            out, res = call(tg.emittance_density_calc, g, dt, dE, f)
        recs.append(dict(kind='density', outcome=out, mro=[] if out == 'ok' else res, d=RM(d), after=RM(g), dt=R(dt), dE=R(dE),
                         f=R(f), res=R(res) if out == 'ok' else '0'))
    return recs


def tangent(rng):
    import numpy as np
    from longitudinal_tomography.utils import tomographics as tg
    n = rng.randint(8, 40)
    easy = rng.random() < .7
    dx = rng.choice([1.0, 2.5e-9, .1])
    x = np.arange(n) * dx + rng.choice([0, 5 * dx, -3.3 * dx])
    c, w = (rng.uniform(.4, .6) * n, rng.uniform(.05, .15) * n) if easy else (rng.uniform(.1, .9) * n, rng.uniform(.05, .4) * n)
    p = rng.choice([1, 2, 4])
    y = np.exp(-np.abs((np.arange(n) - c) / w) ** p) + np.array([rng.random() for _ in range(n)]) * rng.choice([0, .02, .12 if easy else .2])
    y *= rng.choice([1, 1e-3, 4e5])
    y0 = y.copy()
    trf = rng.choice([1e9, n * dx, .5 * n * dx, 3 * w * dx])
    k = {} if rng.random() < .4 else dict(apply_filter=rng.random() < .4)
    out, res = call(tg.foot_tangent_fit_dq, x, y, trf, **k)
    return dict(kind='tangent', outcome=out, mro=[] if out == 'ok' else res, x=RV(x), y=RV(y0), trf=R(trf),
                res=RV(res) if out == 'ok' else [])


def feet(rng):
    import numpy as np
    from longitudinal_tomography.utils import tomographics as tg
    n = rng.randint(6, 40)
    u = np.arange(n, dtype=float)
    c, w = rng.uniform(.3, .7) * n, rng.uniform(.08, .3) * n
    kind = rng.choice(['gauss', 'line', 'flat', 'noisy', 'skew'])
    if kind == 'line':
        y = np.maximum(0, 1 - np.abs(u - c) / w)
    elif kind == 'flat':
        y = 1 / (1 + np.exp(np.clip(6 * (np.abs(u - c) / w - 1), -50, 50)))
        flat = np.abs(u - c) < w / 2
        y[flat] = y.max()
    else:
        y = np.exp(-.5 * ((u - c) / w * 1.7) ** 2)
        if kind == 'noisy':
            y = y + np.array([rng.uniform(-.05, .12) for _ in range(n)])
        if kind == 'skew':
            y = y * (1 + .6 * np.tanh((u - c) / w))
    y = (y + rng.choice([0, 0, -.1, .1])) * rng.choice([1, 1e-3, 4e5])
    if rng.random() < .5:
        g = y.copy()
        dx = rng.choice([None, 1.0, 2.5e-9, .1])
        a = [] if dx is None else [dx]
        out, res = call(tg.foot_tangent_fit, g, *a)
        o2, r2 = call(tg.foot_tangent_fit, y[::-1].copy(), *a)
        ties = int((y == y.max()).sum()) > 1
        return dict(kind='foot', outcome=out, mro=[] if out == 'ok' else res, y=RV(y), after=RV(g), dx=R(dx or 1.0),
                    flat=ties or o2 != 'ok', mirror=RV(r2) if o2 == 'ok' else ['0', '0'], res=RV(res) if out == 'ok' else [])
    lvl = rng.choice([None, .15, .3, .5, rng.uniform(.02, .9), 0, 1, -.3, 1.2])
    x = np.cumsum([rng.uniform(.1, 2) for _ in range(n)]) * rng.choice([1, -1, 1e-9])
    a = [] if lvl is None else [lvl]
    out, res = call(tg.foot_tangent_fit_density, y, x, *a)
    return dict(kind='footdensity', outcome=out, mro=[] if out == 'ok' else res, y=RV(y), x=RV(x),
                level=R(.15 if lvl is None else lvl), res=R(float(res)) if out == 'ok' else '0')


def machine(rng, nbins):
    from longitudinal_tomography.tracking.machine import Machine
    a = gens.machine_kwargs(rng, trans_gamma=rng.choice([1.0005, 4.1, 6.1]), vrf2=0.0, phi12=0.0, nbins=nbins,
                            bdot=rng.choice([0.0, 0.0, .02, .1]), vrf1dot=0.0, nprofiles=rng.randint(2, 4))
    m = Machine(**machine_args(**a))
    m.values_at_turns()
    frame = rng.choice([None, rng.randrange(a['nprofiles'])])
    f = m.machine_ref_frame if frame is None else frame
    t = f * m.dturns
    rec = dict(phi0=R(m.phi0[t]), e0=R(m.e0[t]), eta=R(m.eta0[t]), omega=R(m.omega_rev0[t]), h=R(m.h_num), q=R(m.q),
               v=R(a['vrf1']), rest=R(m.e_rest))
    return m, frame, f, t, rec


def matched(rng):
    from longitudinal_tomography.utils import tomographics as tg
    m, frame, f, t, rec = machine(rng, 24)
    bl = rng.uniform(.05, .7) * 2 * math.pi / (m.omega_rev0[t] * m.h_num)
    k = {} if frame is None else dict(idx_frame=frame)
    out, res = call(tg.matched_area_calc, m, bl, **k)
    return dict(kind='matched', outcome=out, mro=[] if out == 'ok' else res, m=rec, bl=R(bl),
                res=R(float(res)) if out == 'ok' else '0')


def plane(rng):
    """A machine with an image of one RF period that holds the whole bucket."""
    import numpy as np
    n = rng.choice([8, 10, 14])
    m, frame, f, t, rec = machine(rng, n)
    w = m.omega_rev0[t] * m.h_num
    # exact in binary, so that column edges are whole numbers
    dt = int(rng.uniform(.7, .99) * 2 * math.pi / w / n * 2 ** 40) * 2.0 ** -40
    m.synch_part_x = rng.choice([n / 2, n * rng.uniform(.42, .5)])
    g = m.e0[t] / m.e_rest
    K = abs(m.q * (g - 1 / g) * m.e_rest / (math.pi * m.h_num * m.eta0[t]))
    hmax = math.sqrt(K * m.vrf1 * (2 + math.pi * abs(math.sin(m.phi0[t]))) * 1.1)
    dE = float(int(hmax / (n / 2 - 1) * rng.uniform(1.02, 1.5)) + 1)
    return n, m, frame, f, t, rec, np.arange(n) * dt + 0.0, (np.arange(n) - n / 2) * dE


def contours(rng):
    import numpy as np
    from longitudinal_tomography.utils import tomographics as tg
    n, m, frame, f, t, rec, ta, ea = plane(rng)
    d = image(rng, n) * rng.choice([1, 3.7])
    na = rng.choice([4, 6, 9])
    k = {} if frame is None else dict(idx_frame=frame)
    out, res = call(tg.density_vs_emittance, m, d, ta, ea, na, **k)
    r = [RV(x) for x in res] if out == 'ok' else [[]] * 5
    return dict(kind='contours', outcome=out, mro=[] if out == 'ok' else res, m=rec, d=RM(d), t=RV(ta), e=RV(ea),
                x0=R(m.synch_part_x), n=na, emit=r[0], local=r[1], lmin=r[2], lmax=r[3], sum=r[4])


def clip(rng):
    import numpy as np
    from longitudinal_tomography.utils import tomographics as tg
    n, m, frame, f, t, rec, ta, ea = plane(rng)
    npart = rng.choice([3, 8, 40])
    nprof = m.nprofiles
    x = np.array([[rng.randrange(n) for _ in range(nprof)] for _ in range(npart)])
    y = np.array([[rng.randrange(n) for _ in range(nprof)] for _ in range(npart)])
    if rng.random() < .7:                       # most of them near the middle
        y = np.clip(n // 2 + (y - n // 2) // 2, 0, n - 1)
    w = np.array([rng.random() * rng.choice([1, 0, 10]) for _ in range(npart)])
    if w.sum() == 0:
        w[0] = 1.0
    w0 = w.copy()
    na = rng.choice([5, 12, 30])
    bucket = 8 * abs(ea[-1]) / (m.omega_rev0[t] * m.h_num)
    target = bucket * rng.choice([.02, .1, .3, rng.random() * .5, rng.random() * .5, rng.random() * .5, 5.0])
    k = {} if frame is None else dict(idx_frame=frame)
    out, res = call(tg.tomo_weight_clipping, m, ta, ea, x, y, w, target, na, **k)
    ok = out == 'ok'
    return dict(kind='clip', outcome=out, mro=[] if ok else res, m=rec, t=RV(ta), e=RV(ea), x0=R(m.synch_part_x), n=na,
                target=R(target), xs=IV(x[:, f]), ys=IV(y[:, f]), w=RV(w0), after=RV(w), res=RV(res[0]) if ok else [],
                hs=RV(res[1]) if ok else [], idx=IV(res[2]) if ok else [])


def execute(case):
    import random
    rng = random.Random(case['seed'])
    if case['kind'] == 'small':
        return [r for d in case['ds'] for r in figures(rng, d)]
    if case['kind'] == 'big':
        return [r for _ in range(6) for r in figures(rng, image(rng, rng.randint(2, 14)))]
    fn, cnt = dict(feet=(feet, 12), tangent=(tangent, 10), matched=(matched, 4), contours=(contours, 1), clip=(clip, 3))[case['kind']]
    return [fn(rng) for _ in range(cnt)]
