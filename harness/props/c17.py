"""C17: text output."""
from harness.lib import R, RV, RM, IV, call, quiet, make_machine

TRACE = 'T_Output'
MODELS = []
ASSUMPTIONS = ['output directories exist']


def gen(rng, tier, beh):
    return [dict(seed=rng.randrange(10 ** 6)) for _ in range(60 if tier == 'quick' else 500)]


def value(rng):
    return rng.choice([0.0, rng.uniform(0, 1), rng.uniform(-5, 5), rng.uniform(0, 1) * 10.0 ** rng.randint(-30, 20),
                       9.99999999e-5, 1.0])


def figure(rng, np, to, n):
    """What the presentation of a reconstruction shows."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    img = np.array([[abs(value(rng)) for _ in range(n)] for _ in range(n)])
    diff = np.array([value(rng) for _ in range(rng.choice([1, 2, 21]))])
    prof = np.array([abs(value(rng)) + .1 for _ in range(n)])
    own = rng.random() < .7
    fig = plt.figure() if own else None
    given = [img.copy(), diff.copy(), prof.copy()]
    with quiet():
        out, res = call(to.show, *given, **(dict(figure=fig) if own else {}))
    rec = dict(kind='figure', image=RM(img), diff=RV(diff), prof=RV(prof), outcome=out, mro=[] if out == 'ok' else res,
               unchanged=bool(all(np.array_equal(x, y) for x, y in zip(given, (img, diff, prof)))), pictures=[], curves=[])
    if out == 'ok':
        for k, ax in enumerate(plt.gcf().axes):
            for im in ax.images:
                a = np.asarray(im.get_array(), dtype=float)
                rec['pictures'].append(RM((a if im.origin == 'lower' else a[::-1]).T))
            for ln in ax.lines:
                rec['curves'].append(dict(axes=k, label=str(ln.get_label()), x=RV(np.asarray(ln.get_xdata(), dtype=float)),
                                          y=RV(np.asarray(ln.get_ydata(), dtype=float))))
    plt.close('all')
    return rec


def execute(case):
    import contextlib
    import io
    import os
    import random
    import re
    import shutil
    import tempfile
    import numpy as np
    from longitudinal_tomography.compat import fortran, tomoscope
    from longitudinal_tomography.utils import tomo_output as to
    from longitudinal_tomography.tracking.particles import Particles
    from longitudinal_tomography.tracking.tracking import Tracking
    rng = random.Random(case['seed'])
    recs = []
    tmp = tempfile.mkdtemp()

    def written(fn):
        d = tempfile.mkdtemp(dir=tmp)
        with quiet():
            out, res = call(fn, rng.choice([d, d + '/']))
        lines, ends = [], []
        names = sorted(os.listdir(d))
        if names:
            with open(os.path.join(d, names[0])) as fh:
                for l in fh.read().split('\n'):
                    if l.strip():
                        ends.append(len(l) - len(l.lstrip()) + len(l.split()[0]))
                        toks = []
                        for x in l.split():
                            try:
                                toks.append(R(float(x)))
                            except ValueError:
                                toks.append('NaN')
                        lines.append(toks)
        shutil.rmtree(d)
        return dict(outcome=out, mro=[] if out == 'ok' else res, files=names, lines=lines, ends=ends)

    try:
        npf = rng.choice([1, 2, 5, 12, 101, 1002])
        nb = rng.randint(1, 12) if npf < 50 else 2
        P = np.array([[value(rng) for _ in range(nb)] for _ in range(npf)])
        k = rng.choice([0, npf - 1, rng.randrange(npf)])
        for mod in (fortran.save_profile, to.save_profile_ftn):
            recs.append(dict(kind='column', what='profile', index=k, values=RM(P[:k + 1]),
                             **written(lambda d: mod(P, k, d))))
        recs.append(dict(kind='row', what='profile', index=k, values=RV(P[k]),
                         **written(lambda d: tomoscope.save_profile(P[k], k, d))))
        S = np.array([[value(rng) for _ in range(nb)] for _ in range(rng.randint(1, 5))])
        for f in (fortran.save_self_volt_profile, to.save_self_volt_profile_ftn):
            recs.append(dict(kind='column', what='vself', index=0, values=RM(S), **written(lambda d: f(S, d))))
        n = rng.randint(1, 9)
        I = np.array([[value(rng) for _ in range(n)] for _ in range(n)])
        order = rng.choice([lambda a: a, np.asfortranarray])
        for f in (fortran.save_phase_space, to.save_phase_space_ftn):
            recs.append(dict(kind='column', what='image', index=k, values=RM(I), **written(lambda d: f(order(I), k, d))))
        D = np.array([value(rng) for _ in range(rng.choice([1, 3, 12, 120] * 3 + [1003]))])
        for f in (fortran.save_difference, to.save_difference_ftn, tomoscope.save_difference):
            recs.append(dict(kind='difference', index=k, values=RV(D), **written(lambda d: f(D, d, k))))
        recs.append(figure(rng, np, to, n))
        # image from particles
        q, npf2 = rng.randint(1, 30), rng.randint(1, 4)
        X = np.array([[rng.randrange(n) for _ in range(npf2)] for _ in range(q)])
        Y = np.array([[rng.randrange(n) for _ in range(npf2)] for _ in range(q)])
        w = np.array([rng.uniform(.01, 1) for _ in range(q)])
        film = rng.randrange(npf2)
        recs.append(dict(kind='fromparticles', index=film, xs=IV(X[:, film]), ys=IV(Y[:, film]), w=RV(w), n=n,
                         **written(lambda d: tomoscope.save_image(X, Y, w, n, film, d))))
        # plot information
        nprof = rng.randint(3, 14)
        fs = rng.randrange(nprof - 1)
        m = make_machine(nprofiles=nprof, nbins=rng.randint(10, 60), dturns=rng.choice([1, 3, 12]),
                         filmstart=fs, filmstop=fs, filmstep=rng.choice([1, 1, -1]), dtbin=rng.uniform(1e-10, 1e-6), synch_part_x=rng.uniform(0, 60))
        m.values_at_turns()
        m.phi0 = np.array([rng.uniform(-3, 3) for _ in m.phi0])     # no two turns alike
        part = Particles()
        hasdE, hasi = rng.random() < .85, rng.random() < .85
        if hasdE:
            part.dEbin = rng.uniform(1, 1e6)
        if hasi:
            part.imin, part.imax = rng.randint(0, 20), rng.randint(20, 60)
        fitted = rng.random() < .5
        low, up, fsx = rng.uniform(0, 20), rng.uniform(20, 60), rng.uniform(-1, 60)
        if fitted:
            m.load_fitted_synch_part_x_ftn((fsx, low, up))
            if rng.random() < .3:       # part of a fit is no fit
                setattr(m, rng.choice(['fitted_synch_part_x', 'bunchlimit_low', 'bunchlimit_up']), None)
                fitted = False
        charge = rng.uniform(1e8, 1e13)
        f = rng.choice([fortran.write_plotinfo, to.write_plotinfo_ftn])
        out, res = call(f, m, part, charge)
        pairs = []
        if out == 'ok':
            for a, b in re.findall(r'([A-Za-z][A-Za-z0-9 ()]*?) *= *([-+0-9.E]+)', res):
                a = re.sub(r'^and ', '', re.sub(r' +', ' ', a.strip()))
                pairs.append([a, R(float(b))])
        recs.append(dict(kind='info', outcome=out, mro=[] if out == 'ok' else res, pairs=pairs,
                         info=dict(hasdE=hasdE, hasi=hasi, film=int(m.filmstart), nprofiles=int(m.nprofiles), nbins=int(m.nbins),
                                   dtbin=R(m.dtbin), dEbin=R(part.dEbin or 0), charge=R(charge), sx=R(m.synch_part_x),
                                   sy=R(m.synch_part_y), fitted=fitted, low=R(low), up=R(up), fitsx=R(fsx),
                                   phi0=R(m.phi0[m.filmstart * m.dturns]), imin=int(part.imin or 0), imax=int(part.imax or 0))))
        # status lines: compiled and interpreted tracking
        start = rng.randrange(nprof - 1)
        m.synch_part_x = abs(m.synch_part_x)    # the tracking refuses a negative one
        tr = Tracking(m)
        tr.enable_fortran_output(charge)
        ph, en = np.array([.1, -.2]), np.array([10., 500.])
        way = rng.choice(['track', 'python', 'self'])
        # with self-fields the first line names where the tracking starts: a profile
        off = rng.randint(-(m.dturns - 1) if start else 0, m.dturns - 1) if way != 'self' and rng.random() < .4 else 0
        kw = dict(deltaturn=off) if off else {}
        if way == 'self':
            from longitudinal_tomography.data.profiles import Profiles
            pr = Profiles(m, m.dtbin, np.array([[rng.uniform(.1, 2) for _ in range(m.nbins)] for _ in range(nprof)]), 1e11)
            pr.calc_self_fields()
            tr.enable_self_fields(pr)
            tr.particles.xorigin, tr.particles.dEbin = 0.0, 1e3
        import sys
        sys.stdout.flush()
        cap = os.path.join(tmp, 'out')
        saved, fd = os.dup(1), os.open(cap, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        buf = io.StringIO()
        try:
            os.dup2(fd, 1)
            with contextlib.redirect_stdout(buf):
                if way in ('track', 'self'):
                    tr.track(start, (ph, en), **kw)
                else:
                    tr.kick_and_drift(en, ph, m.vrf1_at_turn * m.q, m.vrf2_at_turn * m.q, start, **kw)
        finally:
            os.dup2(saved, 1)
            os.close(saved)
            os.close(fd)
        with open(cap) as fh:
            text = fh.read() + buf.getvalue()
        lines = [[int(a), int(b)] for a, b in re.findall(r'Tracking from time slice +(-?\d+) to +(-?\d+),', text)]
        recs.append(dict(kind='status', self=way == 'self', np=nprof, start=start, off=off, lines=lines))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return recs
