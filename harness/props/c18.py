"""C18: histories of precision selections."""
from harness.lib import R, RV, call, quiet, make_machine

TRACE = 'T_Config'
MODELS = [dict(module='MC_Config', cfg='MC_Config.cfg', cfg_thorough='MC_Config_T.cfg', emit=True, workers=2)]
ASSUMPTIONS = ['no GPU: device selection can only fail here',
               'single precision agrees with double to 2e-3 of the largest value']
BATCH = 12
OPS = ['single', 'double', 'cpu', 'gpu', 'gpu-negative', 'new']


def gen(rng, tier, beh):
    hists = list(beh['MC_Config'])
    if tier != 'quick' and len(hists) > 4000:
        hists = rng.sample(hists, 4000)
    for _ in range(20 if tier == 'quick' else 200):
        hists.append([rng.choice(OPS) for _ in range(rng.randint(6, 12))])
    rng.shuffle(hists)
    return [dict(hists=hists[k:k + BATCH], seed=rng.randrange(10 ** 6)) for k in range(0, len(hists), BATCH)]


def execute(case):
    import numpy as np
    import longitudinal_tomography as lt
    from longitudinal_tomography.utils import tomo_config as conf
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.tomography.tomography_multibunch import Tomography as TM
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.data import data_treatment
    rs = np.random.RandomState(case['seed'])
    npf, nb, n = 3, 24, 40
    W = np.exp(-((np.arange(nb) - 11.5) / 5.0) ** 2) * rs.uniform(.8, 1.2, (npf, nb))
    W = W.astype(np.float32).astype(float)
    X = np.clip(rs.normal(11.5, 4, (n, npf)), 0, nb - 1).astype(np.int32)
    Y = rs.randint(0, nb, (n, npf)).astype(np.int32)
    m = make_machine(nprofiles=npf, nbins=nb, dturns=2, dtbin=4e-8, synch_part_x=12.0, snpt=1,
                     vrf2=500.0, phi12=.2, h_ratio=2.0)
    phi = rs.uniform(-1, 1, 5).astype(np.float32).astype(float)
    en = rs.uniform(-2e5, 2e5, 5)
    arr12 = rs.randint(2)
    if arr12:
        m.phi12 = np.full(len(m.phi0), .2) + .01 * np.arange(len(m.phi0))
    src = rs.choice(['f32', 'f64'])

    def measure():
        d, v = {}, {}
        for k, a in (('cast-f64', np.array([1.5, 2])), ('cast-f32', np.array([1.5, 2], dtype=np.float32)),
                     ('cast-int', np.array([1, 2])), ('cast-list', [1.5, 2])):
            d[k] = str(conf.cast(a).dtype)
        t = Tomography(W.astype(np.float32) if src == 'f32' else W, X)
        w = t.run(2)
        d['waterfall'], d['weight'] = str(t.waterfall.dtype), str(w.dtype)
        d['diff'], d['recreated'] = str(t.diff.dtype), str(t.recreated.dtype)
        v['weight'], v['diff'] = RV(w), RV(t.diff)
        tm = TM(W, X)
        tm.run([0], [0], [nb], niter=2)
        d['multi'] = str(tm.weight_combined.dtype)
        v['multi'] = RV(tm.weight_combined)
        tr = Tracking(m)
        x, y = tr.track(1, init_distr=(phi.astype(np.float32) if src == 'f32' else phi, en))
        d['track-x'], d['track-y'] = str(x.dtype), str(y.dtype)
        v['track-x'], v['track-y'] = RV(x.ravel()), RV(y.ravel())
        tr2 = Tracking(m)
        hx, hy = tr2.track(0)
        d['homog'] = str(tr2.particles.coordinates_dphi_denergy[0].dtype)
        d['homog-x'] = str(hx.dtype)
        v['homog-y'] = RV(hy[:, ::7].ravel())
        im = conf.make_phase_space(X[:, 0].copy(), Y[:, 0].copy(), w, nb)
        d['image'] = str(im.dtype)
        v['image'] = RV(np.asarray(im).ravel())
        return d, v

    recs = []
    with quiet():
        conf.AppConfig.set_double_precision()
        _, ref = measure()
        for h in case['hists']:
            conf.AppConfig.set_double_precision()
            obj, steps = None, []
            for o in h:
                fn = dict(single=lt.set_single_precision, double=lt.set_double_precision, cpu=lt.use_cpu,
                          gpu=lt.use_gpu, new=lambda: Tomography(W, X))
                fn['gpu-negative'] = lambda: conf.AppConfig.use_gpu(-1)
                out, res = call(fn[o])
                if o == 'new' and out == 'ok':
                    obj = res
                d, v = measure()
                ow = None if obj is None else obj.run(2)
                steps.append(dict(op=o, outcome=out, prec=np.dtype(conf.AppConfig.get_precision()).name,
                                  device=conf.device, dtypes=d, vals=v,
                                  obj='none' if obj is None else str(ow.dtype),
                                  objval=[] if obj is None else RV(ow)))
            recs.append(dict(steps=steps, ref=ref))
        conf.AppConfig.set_double_precision()
    return recs
