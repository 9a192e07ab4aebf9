"""C10: physical and image coordinates."""
import math
from harness.lib import R, RV, RM, call, quiet
from harness import area

TRACE = 'T_Coords'
MODELS = []
ASSUMPTIONS = ['tolerance 1e-6 bins (double precision)']


def gen(rng, tier, beh):
    cases = []
    for k in range(85 if tier == 'quick' else 700):
        a = area.args(rng, limits=False)
        a['snpt'] = rng.choice([1, 2])
        cases.append(dict(args=a, seed=rng.randrange(10 ** 6), n=rng.choice([1, 3, 20, 60]),
                          rows=rng.choice(['all', 'all', 'one', 'some']),
                          kind=rng.choice(['conversion', 'conversion', 'synchronous', 'mismatch', 'trip', 'trip', 'between', 'fortran']),
                          rec=rng.randrange(a['nprofiles']), int=rng.random() < .3,
                          delta=rng.choice([1, -1, 2, -3, 5])))
    return cases


def execute(case):
    import numpy as np
    from longitudinal_tomography.tracking import particles
    from longitudinal_tomography.tracking.phase_space_info import PhaseSpaceInfo
    try:
        with quiet():
            m = area.machine(case['args'])
    except ValueError:
        return []
    rs = np.random.RandomState(case['seed'])
    np_ = {'all': m.nprofiles, 'one': 1, 'some': max(1, m.nprofiles - 1)}[case['rows']]
    xorigin, dE = float(rs.uniform(-30, 30)), float(rs.uniform(10, 1e5))
    kind = case['kind']
    base = dict(kind=kind, tol='1e-6')
    if kind == 'between':
        # a distribution made some turns away from a profile
        t = case['rec'] * m.dturns + case['delta']
        if not 0 <= t <= m.dturns * (m.nprofiles - 1):
            return []
        p = particles.Particles()
        with quiet():
            out, res = call(p.homogeneous_distribution, m, case['rec'], case['delta'])
        if out != 'ok':
            return []
        dphi, de = p.coordinates_dphi_denergy
        keep = np.sort(rs.choice(len(dphi), min(len(dphi), 200), replace=False))
        dphi, de = dphi[keep], de[keep]
        x = (dphi + m.phi0[t]) / (m.h_num * m.omega_rev0[t] * m.dtbin) - p.xorigin
        y = de / p.dEbin + m.nbins / 2.0
        base.update(outcome=out, dphi=RV(dphi), de=RV(de), phi0=R(m.phi0[t]), omega=R(m.omega_rev0[t]), hn=m.h_num,
                    dtbin=R(m.dtbin), xorigin=R(p.xorigin), dEbin=R(p.dEbin), spy=R(m.nbins / 2.0),
                    gx=RV((np.floor(x * m.snpt) + .5) / m.snpt), gy=RV((np.floor(y * m.snpt) + .5) / m.snpt))
        return base
    if kind == 'trip':
        p = particles.Particles()
        with quiet():
            out, res = call(p.homogeneous_distribution, m, case['rec'])
        if out != 'ok':
            return []
        dphi, de = p.coordinates_dphi_denergy
        keep = np.sort(rs.choice(len(dphi), min(len(dphi), 400), replace=False))
        D, E = np.tile(dphi, (m.nprofiles, 1)), np.tile(de, (m.nprofiles, 1))
        out, res = call(particles.physical_to_coords, D, E, m, p.xorigin, p.dEbin)
        base['outcome'] = out
        if out == 'ok':
            s = 2.0 * m.snpt
            x, y = res[0][case['rec']][keep], res[1][case['rec']][keep]
            # the nearest grid place: the distribution itself is decided by C08
            base.update(x=RV(x), y=RV(y), gx=RV((np.floor(x * m.snpt) + .5) / m.snpt),
                        gy=RV((np.floor(y * m.snpt) + .5) / m.snpt))
        return base
    D, E = rs.uniform(-3, 3, (np_, case['n'])), rs.uniform(-1e6, 1e6, (np_, case['n']))
    if kind == 'synchronous':
        D[:], E[:] = 0.0, 0.0
    if kind == 'fortran':
        D, E = np.asfortranarray(D), np.asfortranarray(E)
    if kind == 'mismatch':
        E = E[:, 1:] if rs.randint(2) else np.vstack([E, E[:1]])
    spy = m.nbins / 2.0
    if rs.randint(4) == 0:          # another row for the synchronous energy
        m.synch_part_y = spy = spy + float(rs.choice([-2.5, .5, 3.0]))
    with quiet():
        out, res = call(particles.physical_to_coords, D, E, m, xorigin, dE)
    base.update(outcome=out, dphi=RM(D), de=RM(E), dt=m.dturns, hn=m.h_num, dtbin=R(m.dtbin),
                phi0=RV(m.phi0), omega=RV(m.omega_rev0), spy=R(spy),
                xorigin=R(xorigin), dEbin=R(dE))
    if out == 'ok':
        base.update(xp=RM(res[0]), yp=RM(res[1]))
        base['tol'] = R(1e-9 * (1 + float(np.max(np.abs(res[0]))) + float(np.max(np.abs(res[1])))))
    else:
        base['error'] = res[0]
    return base
