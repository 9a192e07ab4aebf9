"""C27: limits of the reconstruction area."""
from harness.lib import R, IV, call, quiet
from harness import area

TRACE = 'T_Area'
MODELS = [dict(module='MC_Area', cfg='MC_Area.cfg', cfg_thorough='MC_Area_T.cfg', workers=4)]
ASSUMPTIONS = ['energy rows within 1e-6 of a cell border may round either way',
               'machines whose synchronous phase the package finds']


def gen(rng, tier, beh):
    n = 90 if tier == 'quick' else 900
    cases = [area.args(rng) for _ in range(n)]
    for k in range(6):
        a = area.args(rng, limits=False)
        a['demax'] = 0.0
        cases.append(a)
    return cases


def execute(a):
    from longitudinal_tomography.tracking.phase_space_info import PhaseSpaceInfo
    try:
        with quiet():
            m = area.machine(a)
    except ValueError:
        return []
    p = PhaseSpaceInfo(m)
    with quiet():
        area.before(m, a, p.find_binned_phase_energy_limits)
        out, res = call(p.find_binned_phase_energy_limits)
    rec = dict(m=area.area_record(m), beam=area.turn_record(m, m.beam_ref_frame * m.dturns),
               film=area.turn_record(m, m.filmstart * m.dturns), outcome=out)
    if out == 'ok':
        rec.update(xorigin=R(p.xorigin), dEbin=R(p.dEbin), jmin=IV(p.jmin), jmax=IV(p.jmax),
                   imin=int(p.imin), imax=int(p.imax))
    else:
        rec['error'] = res[0]
    return rec
