"""C08: the automatic start distribution."""
from harness.lib import R, RV, IV, call, quiet
from harness import area

TRACE = 'T_Distribution'
MODELS = [dict(module='MC_Area', cfg='MC_Area.cfg', cfg_thorough='MC_Area_T.cfg', workers=4)]
ASSUMPTIONS = ['the area itself is decided by C27', 'places compared to 1e-6 of a cell (double) '
               'or 2e-3 (single precision)']


def gen(rng, tier, beh):
    n = 60 if tier == 'quick' else 500
    cases = []
    for k in range(n):
        a = area.args(rng)
        a['snpt'] = rng.choice([1, 2, 3, 4, 5] if a['nbins'] < 30 else [1, 2, 3] if a['nbins'] < 90 else [1])
        cases.append(dict(args=a, rec=rng.randrange(a['nprofiles']),
                          delta=rng.choice([0, 1, -1, 2, 7, -5]), single=rng.random() < .15,
                          via=rng.choice(['particles', 'tracking'])))
    return cases


def execute(case):
    from longitudinal_tomography.tracking.particles import Particles
    from longitudinal_tomography.tracking.phase_space_info import PhaseSpaceInfo
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.utils.tomo_config import AppConfig as conf
    try:
        with quiet():
            m = area.machine(case['args'])
    except ValueError:
        return []
    ps = PhaseSpaceInfo(m)
    with quiet():
        aout, _ = call(ps.find_binned_phase_energy_limits)
    rec = case['rec']
    turn = rec * m.dturns
    alone = case['via'] == 'particles' or rec >= m.nprofiles - 1
    delta = case['delta'] if alone and 0 <= turn + case['delta'] <= m.dturns * (m.nprofiles - 1) else 0
    turn += delta
    if case['single']:
        conf.set_single_precision()
    try:
        with quiet():
            if alone:
                p = Particles()
                area.before(m, case['args'], lambda: p.homogeneous_distribution(m, m.nprofiles - 1))
                out, res = call(p.homogeneous_distribution, m, rec, *([delta] if delta else []))
            else:
                t = Tracking(m)
                p = t.particles
                out, res = call(t.track, rec)
    finally:
        conf.set_double_precision()
    r = dict(outcome=out, areaOk=aout == 'ok')
    if out == 'ok' and aout == 'ok':
        if alone:
            dphi, de = p.coordinates_dphi_denergy
        else:
            dphi, de = res[0][rec], res[1][rec]
        same = (int(p.imin), int(p.imax), IV(p.jmin), IV(p.jmax)) == \
            (int(ps.imin), int(ps.imax), IV(ps.jmin), IV(ps.jmax))
        r.update(s=m.snpt, dphi=RV(dphi), de=RV(de), phi0=R(m.phi0[turn]), omega=R(m.omega_rev0[turn]),
                 hn=m.h_num, dtbin=R(m.dtbin), xorigin=R(ps.xorigin), dEbin=R(ps.dEbin),
                 spy=R(m.nbins / 2.0), imin=int(ps.imin), imax=int(ps.imax), jmin=IV(ps.jmin),
                 jmax=IV(ps.jmax), sameArea=same, mdEbin=R(m.dEbin),
                 tol='1e-6' if not case['single'] else '2e-3')
    return r
