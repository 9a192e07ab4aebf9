"""C26: a programme-driven machine samples its programmes at the turns."""
import math
from harness.lib import R, RV, call, quiet

TRACE = 'T_Programs'
MODELS = [dict(module='MC_Programs', cfg='MC_Programs.cfg', cfg_thorough='MC_Programs_T.cfg',
               emit=True, workers=4),
          dict(module='MC_Programs', cfg='MC_Programs_N.cfg', expect_violation=True, workers=2)]
ASSUMPTIONS = ['synchronous phase accepted within the second-order error of the documented '
               'Newton step tolerance (1e-4)',
               'the programme covers the window and the reference time is not within rounding '
               'of a turn, or is exactly one']
CL = 299792458.0
PHASES = ['const', 'own axis', 'voltage axis', 'programme', 'computed', 'none']


def programme(rng, t0, t1, npts, kind, lo, hi):
    ts = [t0]
    for _ in range(npts - 2):
        ts.append(t0 + (t1 - t0) * rng.random())
    ts = sorted(ts + [t1])
    if kind == 'const':
        v = rng.uniform(lo, hi)
        vs = [v] * len(ts)
    elif kind == 'linear':
        a, b = rng.uniform(lo, hi), rng.uniform(lo, hi)
        vs = [a + (b - a) * (t - t0) / (t1 - t0) for t in ts]
    else:
        vs = [rng.uniform(lo, hi) for _ in ts]
    return ts, vs


def gen(rng, tier, beh):
    cases = []
    shapes = beh['MC_Programs'][:]
    rng.shuffle(shapes)
    for s in shapes[:120 if tier == 'quick' else 1500]:
        if s['np'] * s['dt'] < 2:
            continue
        cases.append(dict(kind='window', s=s, seed=rng.randrange(1 << 30)))
    for k in range(180 if tier == 'quick' else 2500):
        cases.append(dict(kind='random', phase=PHASES[k % len(PHASES)], seed=rng.randrange(1 << 30)))
    for _ in range(30 if tier == 'quick' else 300):
        cases.append(dict(kind='tie', seed=rng.randrange(1 << 30)))
    for w in ['both', 'three', 'none', 'shape']:
        cases.append(dict(kind='refuse', what=w))
    return cases


def setting(case):
    """Arguments of the machine and the record skeleton."""
    import random
    rng = random.Random(case['seed'])
    er = rng.choice([.93827231e9, 3.7e9])
    rad, rho = rng.choice([(25.0, 8.239), (100.0, 70.0)])
    q = rng.choice([1, 1, 2])
    m = dict(R=R(rad), rho=R(rho), er=R(er), q=q, gt=R(rng.choice([4.1, 6.1, 1.05])),
             hn=rng.choice([1, 2, 7]))
    if case['kind'] == 'window':
        s = case['s']
        p0 = rng.uniform(.3e9, 3e9)
        T = 2 * math.pi * rad / CL * math.sqrt(1 + (er / p0) ** 2)
        u = T / s['P']
        t0 = rng.choice([0.0, 1e-3])
        mt = [t0 + x * u for x in s['pts']]
        mp = [p0] * len(mt)
        m.update(dt=s['dt'], np=s['np'], ref=s['ref'])
        tref = t0 + s['tref'] * u
        phase = rng.choice(PHASES)
        span = mt[-1] - t0
        upto = 2 + int(span / T)
    else:
        m.update(dt=rng.choice([1, 2, 3, 5]), np=rng.randint(2, 7))
        m['ref'] = rng.choice([0, 0, rng.randrange(m['np']), m['np'] - 1])
        nt, i0 = m['dt'] * m['np'], m['ref'] * m['dt']
        p0 = rng.uniform(.3e9, 3e9)
        T = 2 * math.pi * rad / CL * math.sqrt(1 + (er / p0) ** 2)
        before = rng.randint(2, 40)
        lead = (i0 + before + rng.uniform(.1, .9)) * T
        t0 = rng.choice([0.0, 1e-3, -1e-4, -lead])
        tref = t0 + lead if t0 != -lead else 0.0        # time may be counted from the reference
        span = T * (i0 + before + nt - i0 + 12)
        kind = rng.choice(['const', 'linear', 'bent'])
        dense = rng.random() < .3
        npts = int(rng.uniform(2, 4) * (span / T)) if dense else rng.randint(2, 9)
        # the ramp must be possible: 2 pi R rho bdot q < v1
        vmax = 4000.0
        pdot = .5 * vmax * q * CL / (2 * math.pi * rad)   # eV/c per second
        mt, mp = programme(rng, t0, t0 + span, npts, kind, p0, p0)
        if kind == 'linear':
            a = rng.uniform(-1, 1) * pdot
            mp = [p0 + a * (t - t0) for t in mt]
        elif kind == 'bent':
            mp = [p0]
            for a, b in zip(mt, mt[1:]):
                mp.append(mp[-1] + rng.uniform(-1, 1) * pdot * (b - a))
        phase = case['phase']
        upto = int(span / T * 1.02) + 3
    nh = rng.choice([1, 2])
    harm = [m['hn']] if nh == 1 else [m['hn'], rng.choice([m['hn'] * 2, m['hn'] * 3, m['hn'] + 1, m['hn'] + 3])]
    m['h'] = R(1.0 if nh == 1 else harm[1] / harm[0])
    end = t0 + span
    a0, a1 = rng.choice([(t0, end), (t0 - .1 * span, end + .2 * span), (t0 + .3 * span, end - .2 * span)])
    vt, va = programme(rng, a0, a1, rng.randint(2, 6), rng.choice(['const', 'linear', 'bent']), 5000, 9000)
    vb = [rng.uniform(.02, .15) * v for v in va]
    pt, p1 = programme(rng, a0, a1, rng.randint(2, 5), rng.choice(['const', 'linear', 'bent']), -1.0, 1.0)
    p2 = [rng.uniform(-1, 1) for _ in pt]
    if phase == 'voltage axis':
        pt, p1 = vt, [rng.uniform(-1, 1) for _ in vt]
        p2 = p1
    # one programme sampled at an array of a shape the constructor cannot tell apart is avoided
    return rng, m, dict(mt=mt, mp=mp, vt=vt, va=va, vb=vb, pt=pt, p1=p1, p2=p2, tref=tref,
                        p12=rng.uniform(-1, 1), upto=upto, nh=nh, harm=harm, phase=phase,
                        mode=rng.choice([0, 1, 2]), late=rng.random() < .3,
                        twice=rng.random() < .3, again=rng.choice([1, 1, 2]))


def tie(rng):
    """A reference time that is exactly a turn of the cycle.  The voltage is 2**20 V/s times
    the time, without rounding, so the voltages at the turns tell the times of the turns."""
    import numpy as np
    from longitudinal_tomography.tracking.programs_machine import ProgramsMachine
    n, dt = rng.randint(2, 5), rng.randint(1, 4)
    ref = rng.choice([0, rng.randrange(n)])
    t0 = rng.choice([2.0 ** -10, 1e-3, .0013])
    p0 = rng.uniform(.5e9, 3e9)
    kw = dict(dturns=dt, nprofiles=n, machine_ref_frame=ref, harmonics=[1], h_num=1, mean_orbit_rad=25.0,
              bending_rad=8.239, trans_gamma=4.1, rest_energy=.93827231e9, nbins=20, dtbin=1e-9, phi12=0.0,
              voltage_function=np.array([[0.0, 2.0 ** -7], [0.0, 2.0 ** 13]]),
              momentum_function=np.array([[t0, t0 + 1e-4], [p0, p0]]))
    i0 = ref * dt

    def times(tref):
        with quiet():
            o, pm = call(ProgramsMachine, t_ref=tref, **kw)
        return [float(v) * 2.0 ** -20 for v in pm.vrf1_at_turn] if o == 'ok' else []
    period = 2 * math.pi * 25.0 / CL * math.sqrt(1 + (.93827231e9 / p0) ** 2)
    base = times(t0 + (i0 + rng.uniform(2.2, 6.8)) * period)
    recs = []
    for j in (0, 1, 2):
        if i0 + j < len(base):
            got = times(base[i0 + j])
            recs.append(dict(kind='tie', base=RV(base), got=RV(got), i0=i0, j=j))
    return recs or [dict(kind='tie', base=[], got=[], i0=i0, j=0)]


def execute(case):
    import numpy as np
    from longitudinal_tomography.tracking.programs_machine import ProgramsMachine
    if case['kind'] == 'tie':
        import random
        return tie(random.Random(case['seed']))
    if case['kind'] == 'refuse':
        t = np.array([0.0, 1e-3])
        kw = dict(dturns=2, voltage_function=np.array([t, [6e3, 6e3]]),
                  momentum_function=np.array([t, [1e9, 1e9]]), harmonics=[1], mean_orbit_rad=25.0,
                  bending_rad=8.239, trans_gamma=4.1, rest_energy=.938e9, nprofiles=3, nbins=20,
                  dtbin=1e-9, t_ref=1e-4, phi12=0.0)
        expect = 'ValueError'
        if case['what'] == 'both':
            kw['phase_function'] = np.array([t, [0.0, 0.0]])
        elif case['what'] in ('three', 'none'):
            kw['harmonics'] = [1, 2, 3] if case['what'] == 'three' else []
            expect = 'ArrayLengthError'
        else:
            kw['phi12'] = np.zeros(5)
        with quiet():
            out, res = call(ProgramsMachine, **kw)
        return dict(kind='refuse', outcome=out, bases=res if out == 'error' else [], expect=expect,
                    what='accepted: ' + {'both': 'phi12 and phase programme', 'three': 'three harmonics',
                                         'none': 'no harmonic', 'shape': 'phi12 of unknown shape'}[case['what']])
    rng, m, s = setting(case)
    volt = np.array([s['vt'], s['va']] + ([s['vb']] if s['nh'] == 2 else []))
    mom = np.array([s['mt'], s['mp']])
    kw = dict(dturns=m['dt'], voltage_function=volt, momentum_function=mom, harmonics=s['harm'],
              mean_orbit_rad=float(m['R']), bending_rad=float(m['rho']), trans_gamma=float(m['gt']),
              rest_energy=float(m['er']), nprofiles=m['np'], nbins=20, dtbin=1e-9, t_ref=s['tref'],
              h_num=m['hn'], charge=m['q'], machine_ref_frame=m['ref'])
    if s['phase'] == 'const':
        kw['phi12'] = s['p12']
    elif s['phase'] == 'own axis':
        kw['phi12'] = np.array([s['pt'], s['p1']])
    elif s['phase'] == 'voltage axis':
        kw['phi12'] = np.array(s['p1'])
    elif s['phase'] == 'programme':
        kw['phase_function'] = np.array([s['pt'], s['p1']] + ([s['p2']] if s['nh'] == 2 else []))
    copies = {k: v.copy() for k, v in kw.items() if isinstance(v, np.ndarray)}
    if s['late']:
        kw['vat_now'] = False
    refused = True
    nophi = s['phase'] == 'none'
    with quiet():
        out, pm = call(ProgramsMachine, **kw)
        if out == 'ok' and s['late']:
            out, _ = call(pm.values_at_turns)
        if out == 'ok' and s['twice']:
            for _ in range(s['again']):
                out, _ = call(pm.values_at_turns)
        if out == 'ok' and s['phase'] in ('none', 'computed'):
            o2, b2 = call(pm.find_synchronous_phase)
            refused = o2 == 'error' and 'ValueError' in b2 and pm.phi12 is None
            if s['phase'] == 'computed':
                out, _ = call(pm.calc_phi12, s['mode'])
                if out == 'ok':
                    out, _ = call(pm.find_synchronous_phase)
    rec = dict(kind='machine', outcome=out, m=m, phase=s['phase'], nh=s['nh'], mode=s['mode'],
               tref=R(s['tref']), upto=s['upto'], p12=R(s['p12']), nophi=nophi, refused=refused,
               kept=all(np.array_equal(copies[k], kw[k]) for k in copies),
               **{k: RV(s[k]) for k in ('mt', 'mp', 'vt', 'va', 'vb', 'pt', 'p1', 'p2')})
    if out != 'ok':
        return rec
    rec.update(mom=RV(pm.momentum_function), time=RV(pm.time_at_turn), e0=RV(pm.e0), beta=RV(pm.beta0),
               phi0=RV(pm.phi0), eta=RV(pm.eta0), drift=RV(pm.drift_coef), omega=RV(pm.omega_rev0),
               v1=RV(pm.vrf1_at_turn), v2=RV(pm.vrf2_at_turn), bdot=RV(pm.bdot), dE0=RV(pm.deltaE0),
               hr=R(pm.h_ratio), phi12=[] if nophi else RV(pm.phi12))
    return rec
