"""C06: tracking is reversible, start independent, particle by particle."""
from harness.lib import R, RV, RM, call, quiet, laid, layout_of, make_machine
from harness import gens

TRACE = 'T_Restart'
MODELS = [dict(module='MC_Tracking', cfg='MC_Tracking.cfg', cfg_thorough='MC_Tracking_T.cfg',
               workers=4)]
ASSUMPTIONS = ['tolerance 1e-6 of the largest coordinate in double, 1e-4 in single precision (rounding grows along the orbit)']


def gen(rng, tier, beh):
    cases = []
    for k in range(56 if tier == 'quick' else 400):
        a = gens.machine_kwargs(rng, machine_ref_frame=0)
        cases.append(dict(args=a, r=rng.randrange(a['nprofiles'] - 1),
                          homog=rng.random() < .4, seed=rng.randrange(10 ** 6),
                          n=rng.choice([1, 7, 40, 200]),
                          phi12arr=rng.random() < .3, single=rng.random() < .35))
    for k in range(4 if tier == 'quick' else 20):
        # measurements of realistic length, bunches of realistic size
        np_, dt = rng.choice([(80, 3), (40, 12), (6, 60), (120, 1)])
        a = gens.machine_kwargs(rng, machine_ref_frame=0, nprofiles=np_, dturns=dt)
        cases.append(dict(args=a, r=rng.choice([0, np_ - 2, rng.randrange(np_ - 1)]), homog=False, seed=rng.randrange(10 ** 6),
                          n=rng.choice([1500, 5000]) if k % 2 else 30, phi12arr=False, single=k % 4 == 3))
    return cases


def execute(case):
    from longitudinal_tomography.utils.tomo_config import AppConfig
    if not case['single']:
        return tracked(case)
    AppConfig.set_single_precision()
    try:
        return tracked(case)
    finally:
        AppConfig.set_double_precision()


def tracked(case):
    import numpy as np
    from longitudinal_tomography.tracking.tracking import Tracking
    rs = np.random.RandomState(case['seed'])
    m = make_machine(**case['args'])
    if case['phi12arr']:
        m.phi12 = m.phi12 + .01 * np.arange(len(m.phi0))
    npf = m.nprofiles
    # usually from the turn of a profile, sometimes some turns before or after it
    off = case['seed'] % 3 == 0 and m.dturns > 1 and int(rs.randint(1 - m.dturns if case['r'] else 0, m.dturns))
    off = dict(deltaturn=off) if off else {}
    with quiet():
        t, out = Tracking(m), 'given'
        if case['homog']:
            # a machine without a bucket, or with one of no height, has no distribution of its own
            out, res = call(t.track, case['r'], **off)
            if out != 'ok' and not set(res) & {'EnergyLimitsError', 'PhaseLimitsError', 'EnergyBinningError'}:
                t.track(case['r'], **off)
        if out == 'ok':
            xp, yp = res
        else:
            phi = rs.uniform(-1.2, 1.2, case['n'])
            en = rs.uniform(-1, 1, case['n']) * 3e5
            t = Tracking(m)
            xp, yp = t.track(case['r'], init_distr=(laid(phi, layout_of(case)), laid(en, layout_of(case, 1))), **off)
    if xp.shape[1] > 300:
        keep = np.sort(rs.choice(xp.shape[1], 300, replace=False))
    else:
        keep = np.arange(xp.shape[1])
    X, Y = xp[:, keep].copy(), yp[:, keep].copy()
    n = X.shape[1]
    runs = []

    def run(mode, p, who):
        with quiet():
            out, res = call(Tracking(m).track, p, init_distr=(X[p, who].copy(), Y[p, who].copy()))
        o = dict(mode=mode, outcome=out, who=[int(i) + 1 for i in who])
        if out == 'ok':
            o.update(phi=RM(res[0]), en=RM(res[1]))
        runs.append(o)

    every = np.arange(n)
    for p in sorted(set([0, npf - 2, int(rs.randint(0, npf - 1))])):
        run('restarted', p, every)
    run('tracked in part', case['r'], np.sort(rs.choice(n, max(1, n // 3), replace=False)))
    run('tracked alone', case['r'], np.array([int(rs.randint(n))]))
    run('reordered', case['r'], rs.permutation(n))
    # same tracker object used again
    with quiet():
        out, res = call(t.track, case['r'], init_distr=(X[case['r']].copy(), Y[case['r']].copy()))
    o = dict(mode='tracked again', outcome=out, who=[int(i) + 1 for i in every])
    if out == 'ok':
        o.update(phi=RM(res[0]), en=RM(res[1]))
    runs.append(o)
    return dict(phi=RM(X), en=RM(Y), runs=runs, rtol='1e-4' if case['single'] else '1e-6')
