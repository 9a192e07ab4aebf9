"""C16: phase-space images."""
from harness.lib import R, RV, IV, call, quiet, make_machine

TRACE = 'T_Image'
MODELS = [dict(module='MC_Image', cfg='MC_Image.cfg', cfg_thorough='MC_Image_T.cfg', emit=True, workers=4)]
ASSUMPTIONS = ['coordinates fit in 32-bit integers', 'a normalised image needs a positive cell']
BATCH = 40
OMP = 4


def gen(rng, tier, beh):
    small = beh['MC_Image']
    ins = [b for b in small if all(0 <= c < b['n'] for c in b['xs'] + b['ys'])]
    outs = [b for b in small if b not in ins] if tier == 'quick' else small
    small = (rng.sample(ins, min(len(ins), 300 if tier == 'quick' else 3000))
             + rng.sample(outs, min(len(outs), 200 if tier == 'quick' else 5000)))
    items = [dict(xs=list(b['xs']), ys=list(b['ys']), w=[float(x) for x in b['w']], n=b['n']) for b in small]
    for _ in range(320 if tier == 'quick' else 2500):
        n = rng.choice([1, 2, 3, 7, 16, 25])
        k = rng.choice([0, 1, 3, 20, 150, 300])
        xs = [rng.randrange(n) for _ in range(k)]
        ys = [rng.choice([0, n - 1, rng.randrange(n)]) for _ in range(k)]
        w = [rng.choice([rng.uniform(0, 1), rng.uniform(-.2, 1), 0.0, 1e-9]) for _ in range(k)]
        if k and rng.random() < .3:
            p = rng.randrange(k)
            a, b = rng.choice([(-1, None), (n, None), (None, -1), (None, n), (n + 3, 0), (0, n * n), (-n, n)])
            xs[p] = xs[p] if a is None else a
            ys[p] = ys[p] if b is None else b
        items.append(dict(xs=xs, ys=ys, w=w, n=n))
    for _ in range(3 if tier == 'quick' else 20):
        n, k = rng.choice([(100, 4000), (205, 500), (64, 8000)])
        items.append(dict(xs=[rng.randrange(n) for _ in range(k)], ys=[rng.randrange(n) for _ in range(k)],
                          w=[rng.uniform(-.1, 1) for _ in range(k)], n=n))
    return [dict(items=items[k:k + BATCH], seed=rng.randrange(10 ** 6)) for k in range(0, len(items), BATCH)]


def execute(case):
    import random
    import numpy as np
    from longitudinal_tomography.data import data_treatment as dt
    from longitudinal_tomography.utils import tomo_output, tomo_config as conf
    from longitudinal_tomography.cpp_routines import libtomo
    from longitudinal_tomography.tomography.tomography import Tomography
    rng = random.Random(case['seed'])
    recs = []
    for it in case['items']:
        n, k = it['n'], len(it['xs'])
        prec = rng.choice(['double', 'double', 'single'])
        idt = rng.choice([np.int32, np.int32, np.int64])
        xs, ys = np.array(it['xs'], dtype=idt), np.array(it['ys'], dtype=idt)
        npf, rec_i = rng.randint(1, 4), 0
        rec_i = rng.randrange(npf)
        # other profiles hold other, inside, coordinates
        X = np.array([[rng.randrange(n) for _ in range(npf)] for _ in range(k)], dtype=idt).reshape(k, npf)
        Y = np.array([[rng.randrange(n) for _ in range(npf)] for _ in range(k)], dtype=idt).reshape(k, npf)
        X[:, rec_i], Y[:, rec_i] = xs, ys
        sx, sy, dtb, dEb = rng.uniform(0, n), n / 2, rng.uniform(1e-10, 1e-8), rng.uniform(10, 1e5)
        try:
            with quiet():
                if prec == 'single':
                    conf.AppConfig.set_single_precision()
                w = np.array(it['w'], dtype=np.float32 if prec == 'single' else float)
                inside = all(0 <= a < n and 0 <= b < n for a, b in zip(it['xs'], it['ys']))
                way = rng.choice(['lib', 'coords', 'image', 'image', 'tomo'])
                if way == 'tomo' and (not inside or k == 0):
                    way = 'coords'
                axes = False
                if way == 'lib':
                    out, res = call(conf.make_phase_space, xs, ys, w, n)
                elif way == 'coords':
                    out, res = call(dt.phase_space_from_coordinates, xs, ys, w, n, sx, sy, dtb, dEb)
                    axes = True
                elif way == 'tomo':
                    t = Tomography(np.ones((npf, n)))
                    t.xp, t.yp, t.weight = X, Y, w
                    m = make_machine(nprofiles=npf, nbins=n, dtbin=dtb, synch_part_x=sx)
                    m.dEbin = dEb
                    out, res = call(dt.phase_space, t, m, rec_i)
                    if out == 'ok' and rec_i == 0:
                        out, res = call(dt.phase_space, t, m)
                    axes = True
                    o2, r2 = 'error', []
                    m.dEbin = None
                    o2, r2 = call(dt.phase_space, t, m, rec_i)
                    recs.append(dict(kind='noarea', prec=prec, xs=[], ys=[], w=[], n=1, outcome=o2, mro=[] if o2 == 'ok' else r2))
                else:
                    out, res = call(tomo_output.create_phase_space_image, X, Y, w, n, rec_i)
        finally:
            with quiet():
                conf.AppConfig.set_double_precision()
        img = res if not axes or out != 'ok' else res[2]
        intact = (IV(xs) == it['xs'] and IV(ys) == it['ys'] and IV(X[:, rec_i]) == it['xs']
                  and bool(np.array_equal(w, np.array(it['w'], dtype=w.dtype))))
        rec = dict(kind='image' if way == 'image' else 'density', prec=prec, xs=it['xs'], ys=it['ys'], w=RV(w), n=n, axes=axes,
                   outcome=out, mro=[] if out == 'ok' else res, sx=R(sx), sy=R(sy), dt=R(dtb), dE=R(dEb), intact=intact,
                   got=[], rows=0, cols=0, t=[], e=[])
        if out == 'ok':
            img = np.asarray(img)
            rec.update(got=RV(img.flatten()), rows=img.shape[0], cols=img.shape[1])
            if axes:
                rec.update(t=RV(res[0]), e=RV(res[1]))
        recs.append(rec)
    return recs
