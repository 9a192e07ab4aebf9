"""C25: every entry point gives the reconstruction of the documented steps."""
from harness.lib import R, RV, call, quiet
from harness import gens

TRACE = 'T_Pipeline'
MODELS = [dict(module='MC_Pipeline', cfg='MC_Pipeline.cfg', emit=True, workers=2)]
ASSUMPTIONS = ['the steps themselves are judged by the other properties; here the entry points are compared with them',
               'double precision, CPU']
TIMEOUT = 600


def setup():
    import sys
    import longitudinal_tomography
    import longitudinal_tomography.cpp_routines as cr
    # the deprecated wrappers import the extension by the old package name
    sys.modules['tomo'] = longitudinal_tomography
    sys.modules['tomo.cpp_routines'] = cr
    sys.modules['tomo.cpp_routines.libtomo'] = cr.libtomo


def gen(rng, tier, beh):
    orders = beh['MC_Pipeline'][:]
    rng.shuffle(orders)
    n = 168 if tier == 'quick' else 800
    cases = []
    for k in range(n):
        o = orders[k % len(orders)]
        cases.append(dict(kind='entry', o=o, entry=['run', 'run-film', 'shortcuts', 'tomoscope', 'run-film', 'cli'][k % 6],
                          seed=rng.randrange(1 << 30)))
    for k in range(40 if tier == 'quick' else 400):
        cases.append(dict(kind='wrap', fn=['kick', 'drift', 'kad machine', 'kad args', 'back_project', 'project',
                                           'reconstruct', 'missing'][k % 8], seed=rng.randrange(1 << 30)))
    return cases


def pair(name, a, b, tol=None, scale=None):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    if tol is None:
        tol = 1e-9 * max(float(np.max(np.abs(b))) if b.size else 0.0, 1e-300)
    shape = [float(len(a.shape))] + [float(x) for x in a.shape]
    shapeb = [float(len(b.shape))] + [float(x) for x in b.shape]
    return [dict(name='shape of ' + name, a=RV(shape), b=RV(shapeb), tol='0.0'),
            dict(name=name, a=RV(a.ravel()), b=RV(b.ravel()), tol=R(tol))]


def write_input(rng, tmp, fit, self_, films):
    """An input file of a small machine with a bunch in it."""
    import math
    import os
    rebin = rng.choice([1, 1, 2, 3])
    nb = rng.choice([24, 30, 37])
    extra = rng.randint(0, rebin - 1)
    sl, se, skip = rng.randint(0, 4), rng.randint(0, 4), rng.randint(0, 2)
    nprof = rng.randint(3, 6)
    a = gens.machine_kwargs(rng, charge=1, rest_energy=.93827231e9, trans_gamma=4.1)
    a['bdot'] = rng.choice([0.0, .2, .4])
    a['vrf1dot'] = 0.0
    p = a['b0'] * a['bending_rad'] * 299792458.0
    beta = p / math.hypot(p, a['rest_energy'])
    T = 2 * math.pi * 25 / (beta * 299792458.0)
    dt = T / a['h_num'] * rng.uniform(.6, .95) / (nb * rebin)
    if films is None:
        f0 = rng.randint(1, nprof - 1)
        f1 = rng.randint(f0, nprof)
        st = rng.randint(1, max(1, f1 - f0))
    n = nb * rebin + extra
    # film 0 has the reference; two bunches of unlike height make a position error visible
    mid = nb * rebin * rng.uniform(.42, .58)
    data = []
    for j in range(nprof + skip):
        c = mid + rng.uniform(-.08, .08) * nb * rebin
        s = nb * rebin * rng.uniform(.09, .16)
        data += [rng.uniform(-.5, .5) for _ in range(sl)]
        data += [3 * max(0.0, 1 - ((k - c) / (2 * s)) ** 2) ** 1.5 + .02 * math.sin(k * 1.7 + j) + .3 for k in range(n)]
        data += [rng.uniform(-.5, .5) for _ in range(se)]
    v = {12: 'pipe', 14: os.path.join(tmp, 'own'), 16: nprof + skip, 18: skip, 20: n + sl + se, 22: dt,
         24: rng.choice([3, 8, 20]), 26: sl, 28: se, 31: rng.choice([0, 0, 1]), 34: rng.choice([0, 0, 1]), 36: rebin,
         39: rng.choice([-1.0, -1.0, -1e-3]) if fit else rng.choice([mid] * 6 + [0.0]), 41: rng.choice([-1e6, -1e6, -1e6, -1e6, 4e5]), 43: f0, 45: f1, 47: st,
         49: rng.choice([1, 2, 3, 4, 5, 6, 30]), 51: rng.randint(1, 3), 53: rng.choice([0, 0, 1]), 55: rng.randint(1, nprof),
         57: rng.randint(1, nprof), 61: a['vrf1'], 63: 0.0, 65: a['vrf2'], 67: 0.0, 69: float(a['h_num']),
         71: a['h_ratio'], 73: a['phi12'], 75: a['b0'], 77: a['bdot'], 79: 25.0, 81: 8.239, 83: 4.1,
         85: a['rest_energy'], 87: 1.0, 91: 1 if self_ else 0, 93: rng.uniform(0, 3), 95: rng.uniform(0, 20),
         97: rng.uniform(1, 10)}
    lines = ['comment'] * 98
    for k, x in v.items():
        lines[k] = str(x) if not isinstance(x, float) else repr(x)
    lines[12] = 'pipe'
    path = os.path.join(tmp, 'in.dat')
    with open(path, 'w') as fh:
        fh.write('\n'.join(lines + [repr(x) for x in data]) + '\n')
    return path, v, nprof


def by_hand(path, order, film):
    """The documented steps, one after another in the given order."""
    import numpy as np
    from longitudinal_tomography.utils import tomo_input as ti
    from longitudinal_tomography.data import data_treatment as dt
    from longitudinal_tomography.tracking import tracking, particles
    from longitudinal_tomography.tomography import tomography
    params, raw = ti.get_user_input(path)
    machine, frames = ti.txt_input_to_machine(params)
    if film is None:
        film = machine.filmstart
    s = {}
    for step in order:
        if step == 'values':
            machine.values_at_turns()
        elif step == 'waterfall':
            s['wf'] = frames.to_waterfall(raw)
        elif step == 'profiles':
            s['prof'] = ti.raw_data_to_profiles(s['wf'], machine, frames.rebin, frames.sampling_time)
        elif step == 'charge':
            s['prof'].calc_profilecharge()
        elif step == 'fit':
            machine.load_fitted_synch_part_x_ftn(dt.fit_synch_part_x(s['prof']))
        elif step == 'self':
            s['prof'].calc_self_fields()
        elif step == 'track':
            tr = tracking.Tracking(machine)
            if 'self' in order:
                tr.enable_self_fields(s['prof'])
            s['tr'] = tr
            s['xp'], s['yp'] = tr.track(film)
        elif step == 'coords':
            s['xp'], s['yp'] = particles.physical_to_coords(s['xp'], s['yp'], machine, tr.particles.xorigin,
                                                            tr.particles.dEbin)
        elif step == 'filter':
            s['xp'], s['yp'] = particles.ready_for_tomography(s['xp'], s['yp'], machine.nbins)
        elif step == 'tomogram':
            s['tomo'] = tomography.Tomography(s['prof'].waterfall, s['xp'], s['yp'])
            s['tomo'].run(niter=machine.niter)
        elif step == 'image':
            t, E, im = dt.phase_space(s['tomo'], machine, film)
            im = np.clip(im, 0, None)
            s['t'], s['E'], s['im'] = t, E, im / im.sum()
    s['machine'], s['film'] = machine, film
    return s


def execute(case):
    import random
    import shutil
    import tempfile
    rng = random.Random(case['seed'])
    if case['kind'] == 'wrap':
        return wrap(rng, case['fn'])
    tmp = tempfile.mkdtemp()
    try:
        return entry(rng, case, tmp)
    finally:
        shutil.rmtree(tmp)


def histogram(xp, yp, w, film, nbins):
    import numpy as np
    im = np.zeros((nbins, nbins))
    np.add.at(im, (xp[:, film], yp[:, film]), w)
    im = np.clip(im, 0, None)
    return im / im.sum()


def entry(rng, case, tmp):
    import os
    import re
    import runpy
    import sys
    import numpy as np
    from longitudinal_tomography import shortcuts
    from longitudinal_tomography.utils import tomo_run
    o, kind = case['o'], case['entry']
    fit, self_ = o['fit'], o['self']
    order = list(o['order'])
    if kind == 'shortcuts' and self_:
        # the shortcuts have no self-fields: the flag is not set and the steps change
        self_ = False
        order = [s for s in order if s != 'self']
        order.insert(order.index('track') + 1, 'coords')
    path, v, nprof = write_input(rng, tmp, fit, self_, None)
    own, other = os.path.join(tmp, 'own'), os.path.join(tmp, 'other')
    os.mkdir(own)
    os.mkdir(other)
    film = rng.choice([0, 0, rng.randrange(nprof - 1), nprof - 2]) if kind in ('run-film', 'shortcuts') else None
    before = open(path).read()
    with quiet():
        hand, s = call(by_hand, path, order, film)
    tomoscope = kind in ('tomoscope', 'cli')
    if tomoscope and hand == 'ok':
        # the pictures of the films are refused when a particle has left them (C16)
        for f in range(v[43] - 1, v[45], v[47]):
            if (s['yp'][:, f] < 0).any() or (s['yp'][:, f] >= s['machine'].nbins).any():
                hand = 'error'
    rec = dict(kind='entry', entry=kind, order=order, fit=fit, self=self_, tomoscope=tomoscope, pairs=[], hand=hand,
               film=dict(start=v[43] - 1, stop=v[45] - 1, step=v[47]), files=[], clean=True)
    odir = rng.choice([other, other, None, None, None if kind == 'cli' else ''])   # the empty name is none
    with quiet():
        if kind == 'shortcuts':
            def go():
                m, wf = shortcuts.read_input_file(path)
                f = m.filmstart if film is None else film
                xp, yp = shortcuts.track(m, f)
                return m, wf, xp, yp, shortcuts.tomogram(wf, xp, yp, m.niter)
        elif kind == 'cli':
            def go():
                old = sys.argv
                sys.argv = ['tomo', path, '-t'] + ([] if odir is None else ['-o', odir])
                try:
                    runpy.run_module('longitudinal_tomography', run_name='__main__')
                finally:
                    sys.argv = old
        else:
            def go():
                kw = {}
                if film is not None:
                    kw['reconstruct_profile'] = film
                if odir is not None:
                    kw['output_dir'] = odir
                if tomoscope:
                    kw['tomoscope'] = True
                return tomo_run.run(path, **kw)
        out, res = call(go)
    rec.update(outcome=out, kept=open(path).read() == before)
    used = odir or own
    names = os.listdir(used)
    unused = other if used == own else own
    rec['clean'] = out != 'ok' or not os.listdir(unused) and set(os.listdir(tmp)) == {'own', 'other', 'in.dat'} and \
        (tomoscope or not names)
    if out != 'ok' or hand != 'ok':
        return rec
    pairs = []
    if kind == 'shortcuts':
        m, wf, xp, yp, tomo = res
        pairs += pair('waterfall', wf, s['prof'].waterfall) + pair('particle x', xp, s['xp'], 0) + \
            pair('particle y', yp, s['yp'], 0) + pair('weights', tomo.weight, s['tomo'].weight) + \
            pair('discrepancy', tomo.diff, s['tomo'].diff, 1e-9) + \
            pair('recreated', tomo.recreated, s['tomo'].recreated) + \
            pair('synchronous bin', [m.synch_part_x], [s['machine'].synch_part_x]) + \
            pair('bin width', [m.dtbin], [s['machine'].dtbin]) + \
            pair('energies', m.e0, s['machine'].e0)
    elif kind != 'cli':
        t, E, im = res
        pairs += pair('time axis', t, s['t'], 1e-9 * float(np.max(np.abs(s['t'])))) + \
            pair('energy axis', E, s['E']) + pair('image', im, s['im'])
    if tomoscope:
        tomo, nb = s['tomo'], s['machine'].nbins
        for n in sorted(names):
            mt = re.fullmatch(r'(image|profile|d)(\d{3,})\.data', n)
            rec['files'].append(dict(kind=mt.group(1) if mt else n, n=int(mt.group(2)) if mt else -1))
            if not mt:
                continue
            k, f = mt.group(1), int(mt.group(2)) - 1
            rows = [[float(x) for x in l.split()] for l in open(os.path.join(used, n))]
            if k == 'd':
                pairs += pair('discrepancy file', np.array(rows), np.column_stack([np.arange(len(tomo.diff)), tomo.diff]),
                              2e-7 * max(1.0, float(np.max(tomo.diff)), len(tomo.diff)))
            elif k == 'profile' and f < nprof:
                row = np.array(tomo.waterfall[f])
                pairs += pair('profile file', np.ravel(rows), row, 2e-7 * float(np.max(np.abs(row))))
            elif f < nprof:
                im = histogram(s['xp'], s['yp'], tomo.weight, f, nb).ravel()
                pairs += pair('image file', np.ravel(rows), im, 2e-7 * float(np.max(im)))
    rec['pairs'] = pairs
    return rec


def wrap(rng, fn):
    import numpy as np
    from longitudinal_tomography.cpp_routines import libtomo, tomolib_wrappers as w
    from longitudinal_tomography import exceptions
    from harness.lib import make_machine
    a = gens.machine_kwargs(rng, nprofiles=4, dturns=rng.choice([1, 3]), charge=1, bdot=0.0, vrf1dot=0.0, vrf2dot=0.0)
    with quiet():
        m = make_machine(**a)
    n = rng.randint(1, 12)
    nr = np.random.RandomState(rng.randrange(1 << 30))
    dphi, dE = nr.uniform(-1, 1, n), nr.uniform(-1e5, 1e5, n)
    rf1, rf2 = m.vrf1_at_turn * m.q, m.vrf2_at_turn * m.q
    nt = m.dturns * (m.nprofiles - 1)
    pairs, expect, out = [], 'ok', 'ok'
    with quiet():
        if fn == 'kick':
            turn, up = rng.randrange(nt + 1), rng.random() < .5
            e1, e2 = dE.copy(), dE.copy()
            out, r1 = call(w.kick, m, e1, dphi, rf1, rf2, n, turn, *([] if up and rng.random() < .5 else [up]))
            r2 = libtomo.kick(m, e2, dphi, rf1, rf2, n, turn, up)
            pairs = pair('kick', r1 if out == 'ok' else [], r2)
        elif fn == 'drift':
            turn, up = rng.randrange(nt + 1), rng.random() < .5
            p1, p2 = dphi.copy(), dphi.copy()
            out, r1 = call(w.drift, dE, p1, m.drift_coef, n, turn, *([] if up and rng.random() < .5 else [up]))
            r2 = libtomo.drift(dE, p2, m.drift_coef, n, turn, up)
            pairs = pair('drift', r1 if out == 'ok' else [], r2)
        elif fn.startswith('kad') or fn == 'missing':
            rec = rng.randrange(m.nprofiles - 1)

            def arr():
                return np.zeros((m.nprofiles, n)), np.zeros((m.nprofiles, n)), dE.copy(), dphi.copy()
            args = dict(phi0=m.phi0, deltaE0=m.deltaE0, omega_rev0=m.omega_rev0, drift_coef=m.drift_coef,
                        phi12=float(m.phi12), h_ratio=float(m.h_ratio), dturns=m.dturns)
            x2, y2, e2, p2 = arr()
            libtomo.kick_and_drift(x2, y2, e2, p2, rf1, rf2, m.phi0, m.deltaE0, m.drift_coef, float(m.phi12),
                                   float(m.h_ratio), m.dturns, rec, 0, nt, n, False)
            if fn == 'kad machine':
                args = dict(machine=m)
            elif fn == 'missing':
                del args[rng.choice(sorted(args))]
                expect = 'error'
            x1, y1, e1, p1 = arr()
            out, r = call(w.kick_and_drift, x1, y1, e1, p1, rf1, rf2, rec, nt, n, **args)
            if fn == 'missing':
                if out == 'error' and 'InputError' not in r:
                    out = 'wrong error'
            else:
                rx, ry = r if out == 'ok' else ([], [])
                pairs = pair('phase', rx, x2) + pair('energy', ry, y2)
        else:
            nprof, nb, niter = rng.randint(1, 4), rng.randint(3, 8), rng.randint(0, 4)
            xp = nr.randint(0, nb, (n, nprof)).astype(np.int32)
            wf = nr.uniform(0, 1, (nprof, nb))
            flat = (xp + nb * np.arange(nprof)[None, :]).astype(np.int32)
            wt = nr.uniform(0, 1, n)
            if fn == 'back_project':
                out, r1 = call(w.back_project, wt.copy(), flat, wf.ravel().copy(), n, nprof)
                pairs = pair('weights', r1 if out == 'ok' else [], libtomo.back_project(wt.copy(), flat, wf.ravel().copy(), n, nprof))
            elif fn == 'project':
                out, r1 = call(w.project, np.zeros((nprof, nb)), flat, wt, n, nprof, nb)
                pairs = pair('recreated', r1 if out == 'ok' else [], libtomo.project(np.zeros((nprof, nb)), flat, wt, n, nprof, nb))
            else:
                out, r1 = call(w.reconstruct, xp, wf, niter, nb, n, nprof, False)
                expect, r2 = call(libtomo.reconstruct, xp, wf, niter, nb, n, nprof, False)
                if expect != 'ok':
                    return dict(kind='wrap', entry='wrapper ' + fn, outcome=out, expect=expect, pairs=[])
                for name, i in (('weights', 0), ('discrepancy', 1), ('recreated', 2)):
                    pairs += pair(name, r1[i] if out == 'ok' else [], r2[i])
    return dict(kind='wrap', entry='wrapper ' + fn, outcome=out, expect=expect, pairs=pairs)
