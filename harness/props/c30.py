"""C30: the GPU computes what the CPU computes, in the selected precision.

The CUDA kernels of the working tree run on a stand-in (harness/cuda.py)."""
import json
import os
import sys
import traceback

from harness.lib import R, RV, RM, IV, call, quiet, make_machine
from harness import gens
from harness.props import c05

TRACE = 'T_Device'
TRACES = ['T_Device', 'T_Tracking', 'T_Reconstruct', 'T_Image', 'T_Parallel']
MODELS = [dict(module='MC_Device', cfg='MC_Device.cfg', cfg_thorough='MC_Device_T.cfg', emit=True, workers=2),
          dict(module='MC_Device', cfg='MC_Device_N.cfg', expect_violation=True, workers=2),
         dict(module='MC_Device', cfg='MC_Device_F.cfg', expect_violation=True, workers=2),
          dict(module='MC_ParLoop', cfg='MC_ParLoop.cfg', workers=2)]
ASSUMPTIONS = ['no GPU in the sandbox: the CUDA sources are compiled for the host, every GPU thread is a coroutine '
               'and CuPy is replaced by a module with arrays in host memory; --use_fast_math and the memory model '
               'of real devices are not represented',
               'single precision is compared within 1e-4 of the largest coordinate, 2e-4 of the largest weight']
THREADS = [1, 2, 5, 8, 32, 64]


def snap(v):
    """Representable in single precision."""
    return round(v * 4096) / 4096


def gen(rng, tier, beh):
    q = tier == 'quick'
    cases = []
    tell = [h['ops'] for h in beh['MC_Device'] if h['telling']]
    rest = [h['ops'] for h in beh['MC_Device'] if not h['telling']]
    for h in rng.sample(tell, min(len(tell), 20 if q else 400)) + rng.sample(rest, min(len(rest), 40 if q else 1100)):
        cases.append(dict(kind='history', ops=h, threads=rng.choice([1, 8, 64, 128])))
    for _ in range(40 if q else 400):
        np_, dt = rng.randint(2, 6), rng.randint(1, 6)
        kind, n = rng.choice(c05.KINDS), dt * (np_ - 1) + 1
        p = c05.programme(rng, n, kind)
        if kind.endswith('bits'):
            p = {k: [2.0 ** (t % 20) if x > 2 else x for t, x in enumerate(v)] for k, v in p.items()}
        const12 = rng.random() < .6
        if const12:
            p['phi12'] = [p['phi12'][0]] * n
        if kind != 'kickbits':
            p = {k: [snap(x) for x in v] for k, v in p.items()}
        npart = rng.choice([1, 2, 3, 7, 20, 33] * 3 + [1100])
        bits = kind.endswith('bits')
        r = rng.randrange(np_ - 1)
        off = rng.choice([0, 0, rng.randint(1 - dt if r else 0, dt - 1)])
        cases.append(dict(kind='track', np=np_, dt=dt, r=r, off=off, prog=p, const12=const12,
                          h=rng.choice([1.0, 2.0, 3.0, 0.5, 2.5, 1.37]),
                          phi=[0.0 if bits else snap(rng.uniform(-1.5, 1.5)) for _ in range(npart)],
                          en=[float(kind == 'driftbits') if bits else snap(rng.uniform(-1, 1)) for _ in range(npart)],
                          prec=rng.choice(['double', 'single']), threads=rng.choice(THREADS),
                          order=rng.choice([0, rng.randrange(1, 10 ** 6)])))
    for _ in range(40 if q else 400):
        nprof, nbins = rng.randint(1, 6), rng.randint(1, 9)
        if rng.random() < .15:
            nprof, nbins = rng.choice([31, 32, 33, 70, 520, 1030]), 3
        nparts = rng.randint(1, 25) if nprof < 100 else 4
        if nprof < 4 and rng.random() < .2:
            nparts, nbins = 1200, rng.choice([9, 70])
        raw, rk = gens.waterfall(rng, nprof, nbins)
        xp, xk = gens.coords(rng, nparts, nprof, nbins)
        cases.append(dict(kind='rec', raw=raw, xp=xp, iters=[0, 1, 3] if nprof < 100 else [1],
                          prec=rng.choice(['double', 'double', 'single']), threads=rng.choice(THREADS),
                          order=rng.choice([0, rng.randrange(1, 10 ** 6)])))
    for _ in range(20 if q else 200):
        n, k = rng.choice([1, 2, 3, 7, 16, 48]), rng.choice([0, 1, 3, 40, 1500])
        xs, ys = [rng.randrange(n) for _ in range(k)], [rng.randrange(n) for _ in range(k)]
        if k and rng.random() < .3:
            rng.choice([xs, ys])[rng.randrange(k)] = rng.choice([-1, n, n * n, -n])
        cases.append(dict(kind='image', xs=xs, ys=ys, w=[snap(rng.uniform(0, 1)) for _ in range(k)], n=n,
                          threads=8, prec='double'))
    for _ in range(6 if q else 60):
        cases.append(dict(kind='whole', seed=rng.randrange(10 ** 6), threads=rng.choice(THREADS),
                          prec='double', order=rng.choice([0, rng.randrange(1, 10 ** 6)])))
    return cases


def by_turn(paired, case, p, phi, en, x, y, ft):
    """The kernels of a single turn, launched turn by turn."""
    import numpy as np
    from longitudinal_tomography.utils.tomo_config import GPUDev
    dev = GPUDev.get_gpu_dev()
    n, block = len(case['phi']), tuple(dev.block_size)
    kw = dict(block=block, grid=(n // block[0] + 1, 1, 1))

    def rf(t):
        v = {k: ft.type(case['prog'][k][t]) for k in ('v1', 'v2', 'phi0', 'phi12', 'dE0')}
        return v['v1'], v['v2'], v['phi0'], v['phi12'], ft.type(case['h'])

    def go(name, *a):
        dev.kd_mod.get_function(name)(args=a, **kw)
    a, b = phi.copy(), en.copy()
    start, last = case['r'] * case['dt'] + case['off'], case['dt'] * (case['np'] - 1)
    size = np.int32(n)

    def keep(t):
        if t % case['dt'] == 0:
            x[t // case['dt']], y[t // case['dt']] = a, b
    keep(start)
    for t in range(start, last):
        dr, gain = ft.type(case['prog']['drift'][t]), ft.type(case['prog']['dE0'][t + 1])
        if paired:
            go('kick_drift_up_simultaneously', a, b, dr, *rf(t + 1), size, gain)
        else:
            go('drift_up', a, b, dr, size)
            go('kick_up', a, b, *rf(t + 1), size, gain)
        keep(t + 1)
    a, b = phi.copy(), en.copy()
    for t in range(start, 0, -1):
        dr, gain = ft.type(case['prog']['drift'][t - 1]), ft.type(case['prog']['dE0'][t])
        if paired:
            go('kick_drift_down_simultaneously', a, b, dr, *rf(t), size, gain)
        else:
            go('kick_down', a, b, *rf(t), size, gain)
            go('drift_down', a, b, dr, size)
        keep(t - 1)
    return x, y


def execute(case):
    """In a process of its own: a device is used for the first time only once."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = {'traces': inside(case)}
            except Exception as e:
                out = {'crash': '%s: %s' % (type(e).__name__, str(e)[:300]), 'log': traceback.format_exc()[-1500:]}
            with os.fdopen(w, 'w') as fh:
                json.dump(out, fh)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as fh:
        text = fh.read()
    _, status = os.waitpid(pid, 0)
    if not text:
        raise RuntimeError('the process computing on the stand-in ended with status %d' % status)
    out = json.loads(text)
    if 'crash' in out:
        raise RuntimeError(out['crash'] + '\n' + out['log'])
    return out['traces']


def machine(np, case):
    m = make_machine(nprofiles=case['np'], dturns=case['dt'], machine_ref_frame=0)
    p = case['prog']
    m.q = 1
    m.vrf1_at_turn, m.vrf2_at_turn = np.array(p['v1']), np.array(p['v2'])
    m.phi0, m.deltaE0, m.drift_coef = np.array(p['phi0']), np.array(p['dE0']), np.array(p['drift'])
    m.h_ratio = case['h']
    m.phi12 = p['phi12'][0] if case['const12'] else np.array(p['phi12'])
    return m


def region(l):
    name, prec, grid, block, bad, cls = l
    merged = {}
    for level, size, four in cls:
        ren = {}
        for ids in four:
            for i in ids:
                ren.setdefault(i, len(ren) + 1)
        key = (level,) + tuple(tuple(sorted(ren[i] for i in ids)) for ids in four)
        merged[key] = merged.get(key, 0) + size
    return [dict(fn='%s (%s)' % (name, 'threads of a block' if lv == 0 else 'blocks'), threads=block if lv == 0 else grid,
                 classes=[[v] + [list(x) for x in k[1:]] for k, v in merged.items() if k[0] == lv]) for lv in (0, 1)]


def footprints(op, launches):
    return [dict(module='T_Parallel', kind='footprint', op=op, regions=[x for l in launches for x in region(l)]),
            dict(kind='launches', launches=[dict(name=l[0], divergent=bool(l[4])) for l in launches])]


def inside(case):
    history = case['kind'] == 'history'
    if history:
        os.environ.pop('GPU_THREADS', None)     # as many as the device selected can run
    else:
        os.environ['GPU_THREADS'] = str(case['threads'])
    import numpy as np
    from harness import cuda
    cp = cuda.install(case['threads'], 2 if history else 1)
    S = cuda.STATE
    import longitudinal_tomography as lt
    from longitudinal_tomography.utils import tomo_config as conf
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tomography.tomography import Tomography
    S.order = case.get('order', 0)
    host = lambda a: np.asarray(a.get() if hasattr(a, 'get') else a)
    ctype = {'double': 'float64', 'single': 'float32'}
    recs = []

    def select(prec):
        if prec == 'single':
            conf.AppConfig.set_single_precision()
        conf.AppConfig.use_gpu()

    if case['kind'] == 'history':
        tc = dict(np=3, dt=2, r=1, h=2.0, const12=True,
                  prog=dict(v1=[.5] * 5, v2=[.25] * 5, phi0=[.125] * 5, phi12=[.5] * 5, dE0=[.0625] * 5, drift=[.25] * 5),
                  phi=[-1.0, .25, .75], en=[.5, -.25, 0.0])
        ops = {'single': lt.set_single_precision, 'double': lt.set_double_precision, 'cpu': lt.use_cpu, 'gpu': lt.use_gpu,
               'second': lambda: conf.AppConfig.use_gpu(1), 'absent': lambda: conf.AppConfig.use_gpu(7),
               'none': lambda: conf.AppConfig.use_gpu(-1)}
        obs, tracks = [], []
        wf, xp = [[1.0, 2.0, 1.0], [2.0, 1.0, 1.0]], [[0, 1], [1, 0], [2, 2]]
        rec = {'64': [], '32': []}
        trk = {'64': [], '32': []}
        for o in case['ops']:
            del S.launches[:], S.ran[:]
            with quiet():
                sel, _ = call(ops[o])

            def go():
                a = Tracking(machine(np, tc)).track(tc['r'], init_distr=(np.array(tc['phi']), np.array(tc['en'])))
                t = Tomography(conf.cast(np.array(wf)), conf.cast(np.array(xp)))
                w = t.run(niter=2)
                return a, t, w
            with quiet():
                out, res = call(go)
            ob = dict(select=sel, outcome=out, on=[list(x) for x in sorted(set(S.ran))], dev=conf.device, prec=np.dtype(conf.AppConfig.get_precision()).name,
                      kernels=sorted({ctype[l[1]] for l in S.launches}), dtypes=[])
            if out == 'ok':
                (x, y), t, w = res
                ob['dtypes'] = sorted({host(v).dtype.name for v in (x, y, w, t.recreated)})
                k = '32' if ob['prec'] == 'float32' else '64'
                trk[k].append(dict(mode='track on ' + conf.device, outcome='ok', phi=RM(host(x)), en=RM(host(y))))
                rec[k].append(dict(mode='run on ' + conf.device, niter=2, outcome='ok', w=RV(host(w)),
                                   rec=RM(host(t.recreated).reshape(len(wf), -1)), diff=RV(host(t.diff))))
            obs.append(ob)
        recs.append(dict(kind='history', ops=list(case['ops']), obs=obs))
        for k in ('64', '32'):
            if trk[k]:
                recs.append(track_rec(tc, trk[k], '1e-9' if k == '64' else '1e-4'))
                recs.append(rec_rec(wf, xp, 2, rec[k], k))
        return recs

    if case['kind'] == 'track':
        S.record = True
        with quiet():
            select(case['prec'])
        obs = []
        ft = np.dtype(ctype[case['prec']])
        n = case['dt'] * (case['np'] - 1) + 1
        for mode in ('track', 'kernels', 'cupy', 'single kernels', 'paired kernels'):
            p = {k: cp.array(v, dtype=ft) for k, v in case['prog'].items()}
            x, y = cp.zeros((case['np'], len(case['phi'])), dtype=ft), cp.zeros((case['np'], len(case['phi'])), dtype=ft)
            phi, en = cp.array(case['phi'], dtype=ft), cp.array(case['en'], dtype=ft)
            del S.launches[:]

            def go():
                if mode == 'track':
                    return Tracking(machine(np, case)).track(case['r'], init_distr=(np.array(case['phi']), np.array(case['en'])),
                                                             deltaturn=case['off'])
                if mode.endswith(' kernels'):
                    return by_turn(mode == 'paired kernels', case, p, phi, en, x, y, ft)
                from longitudinal_tomography.python_routines import kick_and_drift_cupy
                f = conf.kick_and_drift if mode == 'kernels' else kick_and_drift_cupy.kick_and_drift_cupy
                f(x, y, en, phi, p['v1'], p['v2'], p['phi0'], p['dE0'], p['drift'],
                  float(case['prog']['phi12'][0]) if case['const12'] else p['phi12'], case['h'], case['dt'], case['r'], case['off'],
                  n - 1, len(case['phi']), False, None)
                return x, y
            with quiet():
                out, res = call(go)
            if mode.endswith(' kernels') and out == 'error' and 'OtherKernel' in res:
                continue        # nothing in the library launches these: there may be none
            o = dict(mode='gpu ' + mode, outcome=out)
            if out == 'ok':
                o.update(phi=RM(host(res[0])), en=RM(host(res[1])))
            obs.append(o)
            if mode != 'cupy':
                recs += footprints('tracking on the GPU', S.launches)
        recs.append(track_rec(case, obs, '1e-9' if case['prec'] == 'double' else '1e-4'))
        return recs

    if case['kind'] == 'rec':
        S.record = len(case['raw']) < 100
        with quiet():
            select(case['prec'])
        obs = []
        for mode in ('run', 'cupy'):
            if mode == 'cupy' and case['prec'] == 'single':
                continue
            for it in case['iters']:
                t = Tomography(cp.array(case['raw']), cp.array(case['xp']))
                del S.launches[:]

                def go():
                    if mode == 'run':
                        w = t.run(niter=it)
                        return w, t.diff, t.recreated
                    from longitudinal_tomography.python_routines import reconstruct_cupy
                    w, d, f = reconstruct_cupy.reconstruct_cupy(t.xp, t.waterfall, it, t.nbins, t.nparts, t.nprofs)
                    return w, d, f.reshape((t.nprofs, t.nbins))
                with quiet():
                    out, res = call(go)
                o = dict(mode='gpu ' + mode, niter=it, outcome=out)
                if out == 'ok':
                    w, d, f = res
                    recs.append(dict(kind='shape', got=[list(np.shape(w)), list(np.shape(d)), list(np.shape(f))],
                                     want=[[len(case['xp'])], [it + 1], [len(case['raw']), len(case['raw'][0])]]))
                    if len(np.shape(f)) != 2:
                        continue
                    o.update(w=RV(host(w)), rec=RM(host(f)), diff=RV(host(d)))
                obs.append(o)
                if S.record and mode == 'run':
                    recs += footprints('reconstruction on the GPU', S.launches)
        if obs:
            recs.append(rec_rec(case['raw'], case['xp'], max(case['iters']), obs, '64' if case['prec'] == 'double' else '32'))
        return recs

    if case['kind'] == 'image':
        with quiet():
            select(case['prec'])
        xs, ys, w = cp.array(case['xs'], dtype=np.int32), cp.array(case['ys'], dtype=np.int32), cp.array(case['w'], dtype=float)
        keep = [a.get() for a in (xs, ys, w)]
        out, res = call(conf.make_phase_space, xs, ys, w, case['n'])
        r = dict(module='T_Image', kind='density', prec='double', xs=case['xs'], ys=case['ys'], w=RV(case['w']), n=case['n'],
                 outcome=out, axes=False, mro=res if out == 'error' else [],
                 intact=all(bool(np.array_equal(a, b)) for a, b in zip(keep, (xs, ys, w))))
        if out == 'ok':
            res = host(res)
            r.update(rows=res.shape[0], cols=res.shape[1], got=RV(res.reshape(-1)))
        return [r]

    # a whole reconstruction on either device
    import random
    from longitudinal_tomography.tracking import particles as pts
    from longitudinal_tomography.data import data_treatment as dtr
    from longitudinal_tomography.utils import tomo_output
    rng = random.Random(case['seed'])
    nb = rng.randint(14, 24)
    np_ = rng.randint(2, 5)
    kw = dict(nprofiles=np_, nbins=nb, dturns=rng.randint(1, 4), dtbin=rng.uniform(15e-9, 25e-9), snpt=rng.randint(1, 3),
              synch_part_x=nb / 2 + rng.uniform(-1, 1), full_pp_flag=rng.random() < .5, vrf2=rng.choice([0.0, 800.0]),
              phi12=rng.uniform(-.5, .5), bdot=rng.choice([0.0, .795]))
    r = rng.randrange(np_ - 1)
    wf = np.array([[np.exp(-((j - nb / 2 - rng.uniform(-1, 1)) / 3) ** 2) + 1e-3 * rng.random() for j in range(nb)] for _ in range(np_)])

    def whole():
        m = make_machine(**kw)
        m.values_at_turns()
        tr = Tracking(m)
        x, y = tr.track(r)
        xc, yc = pts.physical_to_coords(x, y, m, tr.particles.xorigin, tr.particles.dEbin)
        xi, yi = pts.ready_for_tomography(xc, yc, m.nbins)
        t = Tomography(conf.cast(wf), xi, yi)
        w = t.run(niter=3)
        tt, ee, d = dtr.phase_space(t, m, r)
        im = tomo_output.create_phase_space_image(xi, yi, w, m.nbins, r)
        return [host(v).astype(float).reshape(-1) for v in (x, y, xc, yc, xi, yi, w, t.diff, t.recreated, tt, ee, d, im)]
    with quiet():
        outs = []
        conf.AppConfig.use_cpu()
        outs.append(call(whole))
        conf.AppConfig.use_gpu()
        outs.append(call(whole))
        S.order = 1 + S.order
        outs.append(call(whole))
    rr = [dict(outcome=o, vecs=[RV(v) for v in res] if o == 'ok' else []) for o, res in outs]
    return [dict(module='T_Parallel', kind='same', op='a reconstruction', how='device', want=rr[0], gots=rr[1:], rel='1e-8')]


def track_rec(case, obs, rtol):
    p = case['prog']
    prog = {k: RV(p[k]) for k in ('v1', 'v2', 'phi0', 'phi12', 'dE0', 'drift')}
    prog.update(np=case['np'], dt=case['dt'], h=R(case['h']))
    return dict(module='T_Tracking', prog=prog, start=case['r'], off=case.get('off', 0), phi=RV(case['phi']), en=RV(case['en']), rtol=rtol, obs=obs)


def rec_rec(raw, xp, maxiter, obs, k):
    return dict(module='T_Reconstruct', raw=RM(raw), xp=[list(x) for x in xp], maxiter=maxiter,
                rtol='1e-7' if k == '64' else '2e-4', atol='1e-12' if k == '64' else '1e-6', obs=obs)
