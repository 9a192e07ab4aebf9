"""C21: calls change only what they document to change, and can be repeated."""
from harness.lib import R, RV, call, quiet, make_machine
from harness import gens

TRACE = 'T_Ownership'
MODELS = [dict(module='MC_Ownership', cfg='MC_Ownership.cfg', emit=True, workers=4)]
ASSUMPTIONS = ['one thread, so that results of repeated calls can be compared closely',
               'an object is the values of its arrays and attributes']
OMP = 1
TURNS = ['phi0', 'eta0', 'drift_coef', 'deltaE0', 'beta0', 'e0', 'omega_rev0', 'time_at_turn', 'vrf1_at_turn',
         'vrf2_at_turn']
PROPS = ['nbins', 'waterfall', 'xp', 'yp', 'nparts', 'bunchlimit_low', 'bunchlimit_up', 'fitted_synch_part_x']
BINS = ['dtbin', 'nbins', 'synch_part_x', 'synch_part_y', 'fitted_synch_part_x', 'bunchlimit_low', 'bunchlimit_up']
# parts of an object that are owned separately; any other attribute belongs to the object itself
PARTS = {'machine': dict([(a, 'turns') for a in TURNS] + [(a, 'bins') for a in BINS] + [('dEbin', 'width')]),
         'profiles': {'profile_charge': 'charge', 'vself': 'selfs', 'phiwrap': 'selfs', 'wrap_length': 'selfs',
                      'dsprofiles': 'selfs'},
         'tomo': {'weight': 'outcome', 'diff': 'outcome', 'recreated': 'outcome'}}
INPLACE = ('lib_kick', 'lib_drift', 'lib_kick_drift', 'lib_back_project')


def gen(rng, tier, beh):
    hist = beh['MC_Ownership'][:]
    rng.shuffle(hist)
    ops = sorted({h[0] for h in hist})
    cases = [dict(calls=[o, o, o], seed=rng.randrange(1 << 30)) for o in ops for _ in range(4)]
    n = 1500 if tier == 'quick' else len(hist)
    cases += [dict(calls=h, seed=rng.randrange(1 << 30)) for h in hist[:n]]
    if tier != 'quick':
        for _ in range(400):
            cases.append(dict(calls=[rng.choice(ops) for _ in range(12)], seed=rng.randrange(1 << 30)))
    return cases


def sketch(x, out, depth=0):
    """Numbers that any change of the result changes."""
    import numpy as np
    if x is None:
        out.append(0.0)
    elif isinstance(x, str):
        out.append(float(sum(map(ord, x))))
    elif isinstance(x, (bool, int, float, np.number, np.bool_)):
        out.append(float(x) if x == x else -12345.0)
    elif isinstance(x, np.ndarray):
        out += [float(s) for s in x.shape]
        if x.dtype == object:
            return sketch(x.tolist(), out, depth)
        v = np.asarray(x, float).ravel()
        out.append(float(np.sum(~np.isfinite(v))))
        v = np.nan_to_num(v)
        scale = float(np.max(np.abs(v))) if v.size else 0.0
        out.append(scale)
        if scale > 0 and np.isfinite(scale):
            k = np.arange(v.size)
            out.append(float(np.dot(v / scale, 1 + np.modf(k * .6180339887)[0])))
            out.append(float(np.dot(v / scale, 1 + np.modf((k + 3) ** 2 * .7548776662)[0])))
    elif isinstance(x, (list, tuple)):
        out.append(float(len(x)))
        for y in x:
            sketch(y, out, depth + 1)
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            sketch(x[k], out, depth + 1)
    elif hasattr(x, '__dict__') and depth < 2:
        for k in sorted(vars(x)):
            if not k.startswith('__'):
                sketch(vars(x)[k], out, depth + 1)
    return out


def digest(x, h, depth=0):
    import numpy as np
    if isinstance(x, np.ndarray):
        h.update(repr((x.shape, x.dtype.str)).encode())
        h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, (list, tuple)):
        h.update(b'[%d' % len(x))
        for y in x:
            digest(y, h, depth + 1)
    elif hasattr(x, '__dict__') and not callable(x) and depth < 3:
        for k in sorted(vars(x)):
            if k == 'machine':
                continue
            h.update(k.encode())
            digest(vars(x)[k], h, depth + 1)
    else:
        h.update(repr(x).encode())
    return h


def layout(rng, a, inplace, kinds=None):
    """The same values in another memory layout, dtype or protection."""
    import numpy as np
    k = rng.choice(kinds or ['C', 'C', 'F', 'strided', 'readonly'])
    a = np.array(a)
    if k == 'F':
        a = np.asfortranarray(a)
    elif k == 'strided':
        big = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        sl = tuple(slice(0, None, 2) for _ in a.shape)
        big[sl] = a
        a = big[sl]
    elif k == 'readonly' and not inplace:
        a.flags.writeable = False
    return a, k


def world(rng, calls):
    import numpy as np
    from longitudinal_tomography.data.profiles import Profiles
    from longitudinal_tomography.tomography import tomography
    w = {}
    nb, npr, n = rng.choice([24, 31]), rng.randint(3, 5), rng.randint(20, 70)
    a = gens.machine_kwargs(rng, nprofiles=npr, nbins=nb, charge=1, bdot=rng.choice([0.0, .3]), vrf1dot=0.0,
                            rest_energy=.93827231e9, trans_gamma=4.1, dturns=rng.choice([1, 3]), snpt=1,
                            g_coupling=1.2, zwall_over_n=8.0, pickup_sensitivity=1e9,
                            beam_ref_frame=rng.randrange(npr), machine_ref_frame=rng.randrange(npr))
    import math
    p = a['b0'] * a['bending_rad'] * 299792458.0
    beta = p / math.hypot(p, a['rest_energy'])
    a['dtbin'] = 2 * math.pi * 25 / (beta * 299792458.0) / a['h_num'] * .8 / nb
    a['synch_part_x'] = nb * .5
    nr = np.random.RandomState(rng.randrange(1 << 30))
    inplace = any(c in INPLACE for c in calls)
    k = np.arange(nb)
    wf = np.array([np.maximum(0, 1 - ((k - nb / 2 - nr.uniform(-2, 2)) / (nb * .3)) ** 2) ** 1.5 * 40 + nr.uniform(-.5, .8, nb)
                   for _ in range(npr)])
    if rng.random() < .3:
        # already in the form a call would bring it to: no negative values, rows of sum one
        q = np.clip(wf, 0, None) + .5
        wf = np.array([nr.multinomial(4096, r / r.sum()) for r in q]) / 4096.0
    elif rng.random() < .3:
        wf = np.rint(wf).astype(rng.choice([np.int64, np.int32, np.float32]))
    elif rng.random() < .2:
        wf = wf.astype(np.float32)
    w['wflist'] = [[float(x) for x in r] for r in wf]
    w['wf'] = layout(rng, wf, False)[0]
    w['raw'] = layout(rng, nr.uniform(-1, 3, npr * nb), False)[0]
    xp = nr.randint(0, nb, (n, npr)).astype(np.int32)
    # every bin used somewhere, so that the reconstruction is not refused
    xp[:, :] = (np.arange(n)[:, None] * 7 + np.arange(npr)[None, :] * 3) % nb if rng.random() < .5 else \
        np.clip(nr.normal(nb / 2, nb / 8, (n, npr)), 0, nb - 1).astype(np.int32)
    yp = nr.randint(0, nb, (n, npr)).astype(np.int32)
    it = rng.choice([np.int32, np.int32, np.int64])
    w['xp'], w['yp'] = layout(rng, xp.astype(it), False)[0], layout(rng, yp.astype(it), False)[0]
    w['fx'] = layout(rng, np.where(nr.uniform(0, 1, (npr, n)) < .03, -1.0, nr.uniform(0, nb, (npr, n))), False)[0]
    w['fy'] = layout(rng, nr.uniform(0, nb, (npr, n)), False)[0]
    w['weights'] = layout(rng, nr.uniform(.1, 1, n), inplace, ['C', 'C', 'readonly'])[0]
    w['flat'] = np.ascontiguousarray(xp + nb * np.arange(npr, dtype=np.int32)[None, :]).astype(np.int32)
    w['flatprof'] = np.clip(np.asarray(wf, float), 0, None).ravel().copy()
    w['machine'] = make_machine(**a)
    w['machine'].values_at_turns()
    w['machine'].dEbin = 3.1e4
    w['dphi'] = layout(rng, nr.uniform(-.8, .8, n), inplace)[0]
    w['denergy'] = layout(rng, nr.uniform(-1e5, 1e5, n), inplace)[0]
    if rng.random() < .2 and not inplace:
        w['dphi'], w['denergy'] = w['dphi'].astype(np.float32), w['denergy'].astype(np.float32)
    w['tx'] = layout(rng, nr.uniform(-1, 1, (npr, n)), inplace)[0]
    w['ty'] = layout(rng, nr.uniform(-1e5, 1e5, (npr, n)), inplace)[0]
    image = np.clip(nr.uniform(-.2, 1, (nb, nb)), 0, None)
    if rng.random() < .4:
        # already in the form a call would bring it to: sums to one without rounding
        image = nr.multinomial(1024, np.full(nb * nb, 1 / nb ** 2)).reshape(nb, nb) / 1024.0
    w['image'] = layout(rng, image, False)[0]
    w['trange'] = layout(rng, (np.arange(nb) - 11.0) * 1e-9, False)[0]
    w['erange'] = layout(rng, (np.arange(nb) - nb / 2) * 3e4, False)[0]
    w['diff'] = layout(rng, nr.uniform(0, 1, 6), False)[0]
    w['profiles'] = Profiles(w['machine'], a['dtbin'], np.asarray(wf, float))
    w['profiles'].calc_profilecharge()
    w['profiles'].calc_self_fields()
    hist = np.zeros((npr, nb))
    for j in range(npr):
        np.add.at(hist[j], xp[:, j], nr.uniform(.5, 1.5, n))
    w['tomo'] = tomography.Tomography(hist, xp.copy(), yp.copy())
    w['tomo'].run(2)
    from longitudinal_tomography.tracking import tracking
    w['tracker'] = tracking.Tracking(w['machine'])
    w['tracker'].particles.coordinates_dphi_denergy = (nr.uniform(-.8, .8, n), nr.uniform(-1e5, 1e5, n))
    ts = np.array([0.0, 1e-4, 3e-4])
    w['momentum'] = layout(rng, np.array([ts, [.9e9, .9002e9, .9003e9]]), False)[0]
    w['voltage'] = layout(rng, np.array([ts, [6e3, 7e3, 6e3], [6e2, 5e2, 6e2]]), False)[0]
    w['phase'] = layout(rng, np.array([ts, [0.0, .1, 0.0], [.1, .2, .1]]), False)[0]
    from harness.props import c15
    v = c15.values(rng, 'pipe', '/tmp/')
    lines = ['text'] * 98
    for i, x in v.items():
        lines[i] = ' %s \n' % x if isinstance(x, str) else ' %r\n' % x
    w['lines'] = lines
    return w, dict(nb=nb, npr=npr, n=n, rec=rng.randrange(npr - 1), r=rng.choice([1, 2, 3, 5]), niter=rng.randint(1, 4),
                   fresh=rng.random() < .5)


def operations(w, q, tmp):
    import numpy as np
    from longitudinal_tomography import shortcuts
    from longitudinal_tomography.compat import fortran, tomoscope
    from longitudinal_tomography.cpp_routines import libtomo
    from longitudinal_tomography.data import data_treatment as dt, pre_process as pre, post_process as post
    from longitudinal_tomography.data.profiles import Profiles
    from longitudinal_tomography.tomography import tomography
    from longitudinal_tomography.tomography.tomography_multibunch import Tomography as Multi
    from longitudinal_tomography.tracking import particles, tracking
    from longitudinal_tomography.tracking.phase_space_info import PhaseSpaceInfo
    from longitudinal_tomography.tracking.programs_machine import ProgramsMachine
    from longitudinal_tomography.utils import physics, tomo_input as ti, tomo_output as to
    nb, npr, n, rec = q['nb'], q['npr'], q['n'], q['rec']
    m = w['machine']

    def tomo(*a):
        t = tomography.Tomography(*a)
        return t

    def ran(t, f, *a, **k):
        return [np.array(f(*a, **k)), np.array(t.diff), np.array(t.recreated)]   # run_hybrid does not set t.weight

    def multi(kind):
        t = Multi(w['wf'], w['xp'])
        c, lo, hi = [0], [0], [nb - 1]
        if kind == 'run':
            t.run(np.array(c), np.array(lo), np.array(hi), q['niter'])
        else:
            t.run_hybrid(c, [(-1, nb)], q['niter'])
        return [np.array(t.weight_combined), np.array(t.diff), np.array(t.recreated), np.array(t.diff_split)]

    def save():
        import os
        fortran.save_profile(w['wf'], rec, tmp)
        fortran.save_phase_space(w['image'], rec, tmp)
        fortran.save_difference(w['diff'], tmp, rec)
        tomoscope.save_image(w['xp'], w['yp'], w['weights'], nb, rec, tmp)
        tomoscope.save_profile(w['wf'][0], rec, tmp)
        return [open(os.path.join(tmp, f)).read() for f in sorted(os.listdir(tmp))]

    def show():
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        fig = plt.figure()
        try:
            to.show(w['image'], w['diff'], w['wf'][rec], figure=fig)
            return [np.array(l.get_ydata()) for ax in fig.axes for l in ax.lines]
        finally:
            plt.close('all')

    def programs():
        p = ProgramsMachine(dturns=2, voltage_function=w['voltage'], momentum_function=w['momentum'], harmonics=[1, 2],
                            mean_orbit_rad=25.0, bending_rad=8.239, trans_gamma=4.1, rest_energy=.938e9, nprofiles=3,
                            nbins=20, dtbin=1e-9, t_ref=2e-5, phase_function=w['phase'])
        first = [np.array(p.vrf1_at_turn), np.array(p.phi0), np.array(p.e0)]
        p.values_at_turns()
        return first + [np.array(p.vrf1_at_turn), np.array(p.phi0)]

    def macro():
        np.random.seed(7)
        return dt.density_to_macro(w['trange'], w['erange'], w['image'], 300, threshold=1e-4)

    def trackself():
        t = tracking.Tracking(m)
        t.enable_self_fields(w['profiles'])
        t.particles.xorigin, t.particles.dEbin = 3.5, 3e4
        return t.track(rec, init_distr=(w['dphi'], w['denergy']))

    def setcoord():
        p = particles.Particles()
        p.coordinates_dphi_denergy = (w['dphi'], w['denergy'])
        return list(p.coordinates_dphi_denergy)

    def homog():
        p = particles.Particles()
        p.homogeneous_distribution(m, rec)
        return list(p.coordinates_dphi_denergy)

    def area():
        i = PhaseSpaceInfo(m)
        i.find_binned_phase_energy_limits()
        return [i.jmin, i.jmax, i.imin, i.imax, i.dEbin, i.xorigin]

    def phys():
        return [physics.phase_slip_factor(m), physics.find_dphase(m), physics.revolution_freq(m),
                physics.calc_self_field_coeffs(m), physics.b_to_e(m), physics.lorentz_beta(m, 0),
                list(physics.find_phi_lower_upper(m, 0))]

    def frames():
        f = ti.Frames(npr, nb, 0, 1, 2, 1, 1e-9)
        return f.to_waterfall(w['raw'])

    def kad():
        nt = m.dturns * (npr - 1)
        libtomo.kick_and_drift(w['tx'], w['ty'], w['denergy'], w['dphi'], m.vrf1_at_turn, m.vrf2_at_turn, m.phi0,
                               m.deltaE0, m.drift_coef, float(m.phi12), float(m.h_ratio), m.dturns, rec, 0, nt, n, False)
        return [w['tx'].copy(), w['ty'].copy()]

    def setprof():
        w['profiles'].waterfall = w['wf']
        return np.array(w['profiles'].waterfall)

    def setxp():
        w['tomo'].xp = w['xp']
        w['tomo'].yp = w['yp']
        return [np.array(w['tomo'].xp), np.array(w['tomo'].yp)]

    def machine_scalars():
        return [np.array(getattr(m, x)) for x in ('phi0', 'e0', 'beta0', 'deltaE0', 'drift_coef', 'vrf1_at_turn')]

    def copyresult(f, *a, **k):
        r = f(*a, **k)
        return [np.array(x) for x in r] if isinstance(r, (tuple, list)) else np.array(r) if isinstance(r, np.ndarray) else r

    return dict(
        to_waterfall=frames,
        rebin=lambda: copyresult(pre.rebin, w['wf'], q['r'], 1e-9, 4.5),
        rebin_list=lambda: copyresult(pre.rebin, w['wflist'], q['r']),
        rebin_old=lambda: copyresult(dt.rebin, w['wf'], q['r'], 1e-9),
        baseline=lambda: copyresult(fortran.calc_baseline, w['wf'], rec),
        get_cuts=lambda: copyresult(pre.get_cuts, w['wf']),
        cut_waterfall=lambda: copyresult(pre.cut_waterfall, w['wf'], 2, nb - 3),
        filter_profiles=lambda: copyresult(pre.filter_profiles, w['wf'], w['xp'], w['yp'], rec_prof=rec),
        to_profiles=lambda: np.array(ti.raw_data_to_profiles(w['wf'], m, 1, m.dtbin).waterfall),
        new_profiles=lambda: np.array(Profiles(m, m.dtbin, w['wf']).waterfall),
        set_waterfall=setprof,
        charge=lambda: w['profiles'].calc_profilecharge() or w['profiles'].profile_charge,
        self_fields=lambda: w['profiles'].calc_self_fields() or [np.array(w['profiles'].vself), w['profiles'].phiwrap],
        fit_profiles=lambda: copyresult(dt.fit_synch_part_x, w['profiles']),
        load_fit=lambda: m.load_fitted_synch_part_x_ftn(dt.fit_synch_part_x(w['profiles'])) or m.synch_part_x,
        fit_waterfall=lambda: copyresult(pre.fit_synch_part_x, w['wf'], m),
        txt_input=lambda: ti.txt_input_to_machine(w['lines'])[0].vrf1,
        values=lambda: m.values_at_turns() or machine_scalars(),
        physics=phys, programs=programs, area=area, homogeneous=homog,
        track=lambda: copyresult(tracking.Tracking(m).track, rec),
        track_given=lambda: copyresult(tracking.Tracking(m).track, rec, init_distr=np.array([w['dphi'], w['denergy']]))
        if q['fresh'] else copyresult(tracking.Tracking(m).track, rec, init_distr=[w['dphi'], w['denergy']]),
        track_given_tuple=lambda: copyresult(tracking.Tracking(m).track, rec, init_distr=(w['dphi'], w['denergy'])),
        track_self=trackself, set_coordinates=setcoord,
        track_again=lambda: copyresult(w['tracker'].track, rec,
                                       init_distr=w['tracker'].particles.coordinates_dphi_denergy),
        to_coords=lambda: copyresult(particles.physical_to_coords, w['tx'], w['ty'], m, 2.5, 3e4),
        filter_lost=lambda: copyresult(particles.filter_lost, w['fx'], w['fy'], nb),
        ready=lambda: copyresult(particles.ready_for_tomography, w['fx'], w['fy'], nb),
        shortcut_track=lambda: copyresult(shortcuts.track, m, rec),
        new_tomo=lambda: (lambda t: [np.array(t.waterfall), np.array(t.xp), np.array(t.yp)])(tomo(w['wf'], w['xp'], w['yp'])),
        set_xp=setxp,
        run=lambda: ran(w['tomo'], w['tomo'].run, q['niter']),
        run_hybrid=lambda: ran(w['tomo'], w['tomo'].run_hybrid, q['niter']),
        run_fresh=lambda: (lambda t: ran(t, t.run, q['niter']))(tomo(w['wf'], w['xp'])),
        run_multi=lambda: multi('run'), run_multi_hybrid=lambda: multi('hybrid'),
        shortcut_tomogram=lambda: np.array(shortcuts.tomogram(w['wf'], w['xp'], w['yp'], q['niter']).weight),
        lib_reconstruct=lambda: copyresult(libtomo.reconstruct, w['xp'], w['wf'], q['niter'], nb, n, npr, False),
        lib_project=lambda: copyresult(libtomo.project, np.zeros((npr, nb)), w['flat'], w['weights'], n, npr, nb),
        lib_back_project=lambda: copyresult(libtomo.back_project, w['weights'], w['flat'], w['flatprof'], n, npr),
        phase_space=lambda: copyresult(dt.phase_space, w['tomo'], m, rec),
        from_coordinates=lambda: copyresult(dt.phase_space_from_coordinates, w['xp'][:, rec], w['yp'][:, rec], w['weights'],
                                            nb, 3.5, nb / 2, 1e-9, 3e4),
        image_of=lambda: copyresult(to.create_phase_space_image, w['xp'], w['yp'], w['weights'], nb, rec),
        make_phase_space=lambda: copyresult(libtomo.make_phase_space, np.ascontiguousarray(w['xp'][:, rec], dtype=np.int32)
                                            if not q['fresh'] else w['xp'][:, rec], w['yp'][:, rec].astype(np.int32),
                                            w['weights'], nb),
        to_macro=macro, show=show,
        post_process=lambda: sorted((str(k), float(v)) for k, v in
                                    post.post_process(w['image'], w['trange'], w['erange'], 1e9, .938e9).items()),
        emittances=lambda: [post.emittance_90(w['image'], w['trange'], w['erange']),
                            post.emittance_fractional(w['image'], w['trange'], w['erange'], fraction=50.0),
                            post.emittance_rms(w['image'], w['trange'], w['erange'])],
        dpp=lambda: post.rms_dpp(np.sum(w['image'], 0), w['erange'], 1e9, .938e9),
        save_files=save,
        lib_kick=lambda: copyresult(libtomo.kick, m, w['denergy'], w['dphi'], m.vrf1_at_turn, m.vrf2_at_turn, n, 1, True),
        lib_drift=lambda: copyresult(libtomo.drift, w['denergy'], w['dphi'], m.drift_coef, n, 1, True),
        lib_kick_drift=kad)


# operations that must succeed on these worlds whatever happened before
MUST = {'to_waterfall', 'rebin', 'rebin_list', 'rebin_old', 'baseline', 'get_cuts', 'cut_waterfall', 'physics',
        'values', 'track_given', 'track_given_tuple', 'filter_lost', 'ready', 'new_tomo', 'from_coordinates',
        'image_of', 'post_process', 'emittances', 'programs', 'txt_input', 'set_coordinates', 'to_coords', 'track_self',
        'to_macro', 'save_files', 'dpp', 'phase_space', 'fit_profiles', 'charge', 'self_fields', 'area',
        'homogeneous', 'track', 'track_again', 'shortcut_track', 'show'}


def execute(case):
    import hashlib
    import random
    import numpy as np
    import shutil
    import tempfile
    rng = random.Random(case['seed'])
    tmp = tempfile.mkdtemp()
    try:
        with quiet():
            w, q = world(rng, case['calls'])
        ops = operations(w, q, tmp)

        known = {k: sorted(x for x in vars(w[k]) if not x.startswith('_') and x not in ('machine', 'particles'))
                 for k in PARTS}

        def state():
            d = {}
            for k, v in w.items():
                if k == 'tracker':
                    d['start'] = digest([np.array(x) for x in v.particles.coordinates_dphi_denergy],
                                        hashlib.md5()).hexdigest()
                elif k in PARTS:
                    groups = {k: {}}
                    for name, part in PARTS[k].items():
                        groups[part] = {}
                    # what a user can see of the object (private attributes are its own business)
                    seen = [x for x in known[k] + PROPS if hasattr(v, x)]
                    for attr in seen:
                        groups[PARTS[k].get(attr, k)][attr] = getattr(v, attr)
                    for part, attrs in groups.items():
                        d[part] = digest([[a, attrs[a]] for a in sorted(attrs)], hashlib.md5()).hexdigest()
                else:
                    d[k] = digest(v, hashlib.md5()).hexdigest()
            return d
        calls = []
        before = state()
        for name in case['calls']:
            with quiet():
                out, res = call(ops[name])
            after = state()
            calls.append(dict(op=name, before=before, after=after, outcome=out, must=name in MUST,
                              result=RV(sketch(res, [])) if out == 'ok' else [], err=[] if out == 'ok' else res[:1]))
            before = state()
        return dict(kind='history', calls=calls)
    finally:
        shutil.rmtree(tmp)
