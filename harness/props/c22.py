"""C22: self-field voltages and tracking with them."""
from harness.lib import R, RV, RM, call, quiet, make_machine
from harness import gens

TRACE = 'T_Profiles'
MODELS = [dict(module='MC_Profiles', cfg='MC_Profiles.cfg', cfg_thorough='MC_Profiles_T.cfg', workers=4),
          dict(module='MC_SelfField', cfg='MC_SelfField.cfg', cfg_thorough='MC_SelfField_T.cfg', workers=2),
          dict(module='MC_SelfField', cfg='MC_SelfField_N.cfg', expect_violation=True, workers=2)]
ASSUMPTIONS = ['at least 7 bins per profile (the smoothing window)', 'no empty profile']


def gen(rng, tier, beh):
    n = 24 if tier == 'quick' else 250
    return ([dict(kind='self', seed=rng.randrange(10 ** 6)) for _ in range(n)] +
            [dict(kind='track', seed=rng.randrange(10 ** 6)) for _ in range(n)])


def execute(case):
    import random
    rng = random.Random(case['seed'])
    with quiet():
        recs = []
        while len(recs) < (5 if case['kind'] == 'self' else 2):
            try:
                recs.append(fields(rng) if case['kind'] == 'self' else track(rng))
            except ValueError:      # no synchronous phase for these parameters
                continue
        return recs


def prepare(rng, **force):
    import numpy as np
    from longitudinal_tomography.data.profiles import Profiles
    from longitudinal_tomography.tracking.machine import Machine
    nprof, nb = rng.choice([(rng.randint(2, 6), rng.randint(7, 45))] * 12 + [(60, 40), (8, 300), (30, 120)])
    a = gens.machine_kwargs(rng, nprofiles=nprof, nbins=nb, self_field_flag=True, **force)
    a['g_coupling'] = rng.choice([0.0, 1.0, rng.uniform(-2, 4)])
    a['zwall_over_n'] = rng.choice([0.0, 0.0, 10.0, rng.uniform(-30, 60)])
    m = Machine(**a)
    m.values_at_turns()
    for k in range(m.nprofiles):
        if not np.isfinite(m.phi0[k * m.dturns]):
            raise ValueError
    wf = np.array(gens.waterfall(rng, nprof, nb)[0])
    # the bin width decides how many RF periods a profile covers
    m.dtbin = rng.uniform(.3, 2.7) * 2 * np.pi / (m.h_num * m.omega_rev0[0]) / nb
    # ... and, where the revolution frequency changes, at which turn this is decided
    last = m.omega_rev0[(m.nprofiles - 1) * m.dturns - 1]
    if abs(last / m.omega_rev0[0] - 1) > 3e-6 and rng.random() < .6:
        m.dtbin = rng.choice([1, 2, 3]) * 4 * np.pi / (m.h_num * (last + m.omega_rev0[0])) / nb
    charge = rng.uniform(1e9, 5e12)
    p = Profiles(m, m.dtbin, wf, charge)
    return np, m, p


def fields(rng):
    from longitudinal_tomography.utils import physics
    np, m, p = prepare(rng)
    filt = rng.choice(['none', 'none', 'given', 'function', 'in place'])
    if rng.random() < .4:
        # the same object computed them before, for another machine or waterfall
        now = dict(dtbin=m.dtbin, h_num=m.h_num, g_coupling=m.g_coupling, bdot=m.bdot)
        before, charge = p.waterfall.copy(), p.profile_charge
        m.dtbin, m.h_num, m.g_coupling, m.bdot = m.dtbin * rng.choice([.4, 1, 2.6]), m.h_num * rng.choice([1, 2]), 1.7, .1
        p.profile_charge = 1e12
        if rng.random() < .5:
            part = before[:, :max(7, before.shape[1] // 2)][:, ::-1]
            if (part.sum(axis=1) > 0).all():
                p.waterfall = part
        call(p.calc_self_fields, *rng.choice([(), (p.waterfall * 2,)]))
        p.waterfall, p.profile_charge = before, charge
        for k, v in now.items():
            setattr(m, k, v)
    given = np.array([[rng.uniform(-1, 1) for _ in r] for r in p.waterfall])
    wf = p.waterfall.copy()
    if filt == 'none':
        out, res = call(p.calc_self_fields)
    elif filt == 'given':
        out, res = call(p.calc_self_fields, given.copy())
    elif filt == 'in place':
        def inplace(w):
            w[...] = given
            return w
        out, res = call(p.calc_self_fields, in_filter=inplace)
        filt = 'function'
    else:
        out, res = call(p.calc_self_fields, in_filter=lambda w: given.copy() + 0 * w)
    turns = [k * m.dturns for k in range(m.nprofiles)]
    wturn = (m.nprofiles - 1) * m.dturns - 1 if m.bdot > 0 else 0
    ok = out == 'ok'
    return dict(kind='self', m=dict(hn=R(m.h_num), q=R(m.q)), g=R(m.g_coupling), zw=R(m.zwall_over_n), dtbin=R(m.dtbin),
                omega=RV(m.omega_rev0[turns]), beta=RV(m.beta0[turns]), omwrap=R(m.omega_rev0[wturn]),
                charge=R(p.profile_charge), wf=RM(wf), wfafter=RM(p.waterfall), filter=filt, given=RM(given),
                outcome=out, sfc=RV(physics.calc_self_field_coeffs(m)),
                ds=RM(p.dsprofiles) if ok else [], phiwrap=R(p.phiwrap) if ok else '0',
                wraplen=int(p.wrap_length) if ok else 0, v=RM(p.vself) if ok else [],
                vrows=p.vself.shape[0] if ok else 0, vcols=p.vself.shape[1] if ok else 0)


def track(rng):
    from longitudinal_tomography.tracking.tracking import Tracking
    np, m, p = prepare(rng, dturns=rng.choice([1, 2, 3, 5, 9]))
    p.calc_self_fields()
    # make the self-fields visible beside the RF kick
    s = rng.choice([1.0, 1.0, -1.0]) * rng.uniform(.05, .5) * m.vrf1 / max(np.abs(p.vself).max(), 1e-30)
    if np.abs(p.vself).max() > 0:
        p.vself = p.vself * s
    t = Tracking(m)
    t.enable_self_fields(p)
    npart = rng.randint(1, 6)
    ph0 = np.array([rng.uniform(-3, 3) for _ in range(npart)])
    en0 = np.array([rng.uniform(-1, 1) * 2e5 for _ in range(npart)])
    start = rng.randrange(m.nprofiles - 1)
    t.particles.xorigin = rng.uniform(-5, 5)
    t.particles.dEbin = rng.uniform(1e3, 1e4)
    # usually from the turn of a profile, sometimes some turns before or after it
    off = rng.choice([0, 0, rng.randint(-(m.dturns - 1) if start else 0, m.dturns - 1)])
    x, y = t.track(start, (ph0.copy(), en0.copy()), **(dict(deltaturn=off) if off else {}))
    n = (m.nprofiles - 1) * m.dturns + 1
    return dict(kind='track', dt=int(m.dturns), ph0=RV(ph0), en0=RV(en0), m=dict(hn=R(m.h_num), q=R(m.q), h=R(m.h_ratio)), start=start, off=off, x=RM(x), y=RM(y),
                v=RM(p.vself), phiwrap=R(p.phiwrap), xorigin=R(t.particles.xorigin), dEbin=R(t.particles.dEbin),
                sy=R(m.synch_part_y), cell=RV(m.h_num * m.omega_rev0[:n] * m.dtbin), phi0=RV(m.phi0[:n]),
                phi12=RV(np.broadcast_to(m.phi12, n)), dE0=RV(m.deltaE0[:n]), drift=RV(m.drift_coef[:n]),
                v1=RV(m.vrf1_at_turn[:n] * m.q), v2=RV(m.vrf2_at_turn[:n] * m.q), escale=R(max(abs(m.vrf1) * abs(m.q), 2e5)))
