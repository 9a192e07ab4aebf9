"""C03: parallel loops, thread counts and interleavings."""
import json
import os
import tempfile

from harness.lib import R, RV, quiet, make_machine

TRACE = 'T_Parallel'
VARIANTS = ['trace']
MODELS = [dict(module='MC_ParLoop', cfg='MC_ParLoop.cfg', cfg_thorough='MC_ParLoop_T.cfg', workers=4),
          dict(module='MC_ParLoop', cfg='MC_ParLoop_N.cfg', expect_violation=True, workers=2),
          dict(module='MC_Interleave', cfg='MC_Interleave.cfg', cfg_thorough='MC_Interleave_T.cfg', emit=True)]
ASSUMPTIONS = ['footprints are those of the inputs run; loops of at most 64 iterations, one logical thread per iteration',
               'the CPU kernels only (no GPU here)']
OPS = ['run', 'hybrid', 'multi', 'multihybrid', 'track', 'trackhybrid', 'trackself', 'image', 'treat']


def gen(rng, tier, beh):
    cases = []
    thor = tier != 'quick'
    sched = beh['MC_Interleave']
    rng.shuffle(sched)
    for op in OPS:
        for prec in ('double', 'single'):
            for k in range(3 if not thor else 20):
                cases.append(dict(variant='trace', kind='footprint', op=op, prec=prec, seed=rng.randrange(10 ** 6),
                                  threads=rng.choice([64, 64, 3, 5])))
        for k in range(0, len(sched), 15):
            cases.append(dict(variant='trace', kind='schedule', op=op, prec=rng.choice(['double', 'double', 'single']),
                              seed=rng.randrange(10 ** 6), scheds=sched[k:k + 15]))
        for k in range(3 if not thor else 30):
            cases.append(dict(kind='sweep', op=op, prec=rng.choice(['double', 'double', 'single']),
                              seed=rng.randrange(10 ** 6), big=k > 0,
                              threads=[1, 2, 3, 4, 5, 7, 8, 8, 8] * (1 if not thor else 4)))
        for shape in ['many', 'many', 'wide', 'long'] * (1 if not thor else 6):
            cases.append(dict(kind='sweep', op=op, prec='double', seed=rng.randrange(10 ** 6), huge=shape,
                              threads=[2, 3, 8, 8] if not thor else [2, 3, 4, 8, 8, 8]))
    return cases


def compute(case):
    """-> a function of no arguments performing the operation afresh."""
    import numpy as np
    from longitudinal_tomography.utils import tomo_config as conf
    from longitudinal_tomography.cpp_routines import libtomo
    from longitudinal_tomography.tomography.tomography import Tomography as TS
    from longitudinal_tomography.tomography.tomography_multibunch import Tomography as TM
    from longitudinal_tomography.tracking.tracking import Tracking
    op = case['op']
    rs = np.random.RandomState(case['seed'])
    npf, nb = int(rs.randint(2, 5)), 12
    n = int(rs.randint(20, 31))
    dt = int(rs.randint(1, 4))
    if case.get('big'):
        npf, nb, n, dt = int(rs.randint(5, 12)), int(rs.randint(40, 90)), int(rs.randint(200, 3000)), 3
    if case.get('huge'):
        npf, nb, n, dt = int(rs.randint(3, 9)), int(rs.randint(16, 40)), int(rs.choice([40000, 140000, 250000])), 1
        if case['huge'] == 'wide':
            npf, nb, n, dt = int(rs.randint(40, 60)), int(rs.randint(2400, 3000)), 6000, 1
            if op in ('trackself', 'image'):
                npf, nb = 4, int(rs.randint(500, 600))
        elif case['huge'] == 'long':
            npf, nb, n, dt = int(rs.randint(60, 110)), 24, 900, 40
    W = rs.uniform(.1, 1.5, (npf, nb))
    X = np.clip(rs.normal(nb / 2, nb / 6, (n, npf)), 0, nb - 5).astype(np.int32)
    Y = np.clip(rs.normal(nb / 2, nb / 8, (n, npf)), 0, nb - 1).astype(np.int32)
    if case.get('huge') == 'wide':
        # the particles' own profiles and some noise, so that a reconstruction exists
        W = np.array([np.bincount(X[:, k], minlength=nb) for k in range(npf)]) * rs.uniform(.8, 1.2, (npf, nb)) + .01
    wts = rs.uniform(0, 1, n)
    m = make_machine(nprofiles=npf, nbins=nb, dturns=dt, dtbin=4.8e-7 / nb, synch_part_x=nb / 2., snpt=1,
                     vrf2=800.0, phi12=.3, vrf1dot=1e3)
    if rs.randint(2):
        m.phi12 = .3 + .001 * np.arange(dt * (npf - 1) + 1)
    ph, en = rs.uniform(-1, 1, n), rs.uniform(-2e5, 2e5, n)
    rec = int(rs.randint(0, npf - 1))

    def fn():
        if op == 'run':
            t = TS(W.copy(), X.copy())
            w = t.run(niter=4)
            return [w, t.diff, t.recreated]
        if op == 'hybrid':
            t = TS(W.copy(), X.copy())
            w = t.run_hybrid(niter=4)
            return [w, t.diff, t.recreated]
        if op == 'multi':
            t = TM(W.copy(), X.copy())
            t.run([0, 3, 1], [0, 2, 0], [nb - 3, nb, nb], niter=4)
            return [t.weight_combined, t.diff, t.diff_split, t.recreated]
        if op == 'multihybrid':
            t = TM(W.copy(), X.copy())
            t.run_hybrid([0, 3], [[-1, nb - 3], [2, nb]], niter=4)
            return [t.weight_combined, t.diff, t.recreated]
        if op == 'track':
            return list(Tracking(m).track(rec, init_distr=(ph, en)))
        if op == 'trackhybrid':
            return list(Tracking(m).kick_and_drift(en.copy(), ph.copy(), m.vrf1_at_turn * m.q,
                                                   m.vrf2_at_turn * m.q, rec)) if np.ndim(m.phi12) == 0 else \
                list(Tracking(m).track(rec, init_distr=(ph, en)))
        if op == 'trackself':
            from longitudinal_tomography.data.profiles import Profiles
            if np.ndim(m.phi12):
                m.phi12 = .3
            m.g_coupling, m.zwall_over_n = 1.5, 2.0
            pr = Profiles(m, m.dtbin, W.copy(), profile_charge=1e9)
            pr.calc_self_fields()
            tr = Tracking(m)
            tr.enable_self_fields(pr)
            return list(tr.track(rec))
        if op == 'image':
            return [conf.make_phase_space(X[:, 0].copy(), Y[:, 0].copy(), conf.cast(wts), nb)]
        if op == 'treat':
            d0 = np.zeros(npf * nb)
            fp = (X + nb * np.arange(npf)).astype(np.int32)
            a = np.array(libtomo.project(d0, fp, wts.copy(), n, npf, nb))
            b = np.array(libtomo.back_project(wts.copy(), fp, W.ravel().copy(), n, npf))
            c = np.array(libtomo.count_particles_in_bins(np.zeros((npf, nb)), X.copy(), npf, n, nb))
            return [a, b, c]
        raise ValueError(op)

    def run():
        try:
            out = fn()
        except Exception as e:
            return dict(outcome=type(e).__name__, vecs=[])
        vecs = [np.asarray(v, dtype=float).ravel() for v in out]
        return dict(outcome='ok', vecs=vecs if case.get('huge') else [RV(v) for v in vecs])
    return run


def sample(want, gots):
    """Of long results, the entries that differ most from the reference, and some others."""
    import numpy as np
    import random
    rnd = random.Random(1)
    if want['outcome'] == 'ok':
        for k, v in enumerate(want['vecs']):
            idx = set(rnd.randrange(v.size) for _ in range(300)) if v.size > 600 else set(range(v.size))
            for g in gots:
                if g['outcome'] == 'ok' and len(g['vecs']) == len(want['vecs']) and g['vecs'][k].size == v.size:
                    d = np.abs(g['vecs'][k] - v)
                    idx |= set(np.argsort(np.where(np.isnan(d), np.inf, d))[-100:].tolist())
            i = sorted(idx)
            want['vecs'][k] = RV(v[i])
            for g in gots:
                if g['outcome'] == 'ok' and k < len(g['vecs']):
                    same = g['vecs'][k].size == v.size
                    g['vecs'][k] = RV(g['vecs'][k][i]) if same else []
    return want, [g for k, g in enumerate(gots) if g != want and g not in gots[:k]][:4] or [want]


def execute(case):
    import ctypes
    from longitudinal_tomography.utils import tomo_config as conf
    from longitudinal_tomography.cpp_routines import libtomo
    rel = '1e-9' if case['prec'] == 'double' else '2e-3'
    with quiet():
        (conf.AppConfig.set_single_precision if case['prec'] == 'single'
         else conf.AppConfig.set_double_precision)()
        try:
            run = compute(case)
            if case['kind'] == 'sweep':
                libtomo.set_num_threads(1)
                want = run()
                gots = []
                for n in case['threads']:
                    libtomo.set_num_threads(n)
                    gots.append(run())
                libtomo.set_num_threads(2)
                if case.get('huge'):
                    want, gots = sample(want, gots)
                    return dict(kind='same', how='number of threads', op=case['op'], rel=rel, want=want, gots=gots)
                # identical results need no second copy
                gots = [g for k, g in enumerate(gots) if g != want and g not in gots[:k]][:4] or [want]
                return dict(kind='same', how='number of threads', op=case['op'], rel=rel, want=want, gots=gots)
            lib = ctypes.CDLL(os.environ['VERIF_SO'])

            def config(n, mode, s):
                lib.vt_config(n, mode, (ctypes.c_int * len(s))(*s), len(s))
            config(1, 0, [0])
            lib.vt_record(0)
            want = run()
            if case['kind'] == 'schedule':
                gots = []
                for s in case['scheds']:
                    config(3, 1, s)
                    g = run()
                    if g != want and g not in gots:
                        gots.append(g)
                config(1, 0, [0])
                return dict(kind='same', how='interleaving', op=case['op'], rel=rel, want=want, gots=gots[:6] or [want])
            config(case['threads'], 0, [0])
            lib.vt_record(1)
            got = run()
            fd, path = tempfile.mkstemp()
            os.close(fd)
            lib.vt_dump(path.encode())
            lib.vt_record(0)
            config(1, 0, [0])
            with open(path) as fh:
                regions = json.load(fh)
            os.unlink(path)
            return [dict(kind='footprint', op=case['op'], regions=regions),
                    dict(kind='same', how='number of threads', op=case['op'], rel=rel, want=want, gots=[got])]
        finally:
            conf.AppConfig.set_double_precision()
