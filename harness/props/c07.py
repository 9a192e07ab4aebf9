"""C07: the machine's turn programme obeys the beam-dynamics recurrences."""
import math
from harness.lib import R, RV, call, quiet, make_machine
from harness import gens

TRACE = 'T_Machine'
MODELS = [dict(module='MC_Machine', cfg='MC_Machine.cfg', cfg_thorough='MC_Machine_T.cfg',
               emit=True, workers=4)]
ASSUMPTIONS = ['synchronous phase accepted within the second-order error of the '
               'documented Newton step tolerance (1e-4)',
               'CODATA constants as in scipy.constants']


def gen(rng, tier, beh):
    cases = []
    shapes = [(s['np'], s['dt'], s['ref']) for s in beh['MC_Machine']]
    rng.shuffle(shapes)
    shapes = sorted(set(shapes))
    for k in range(60 if tier == 'quick' else 600):
        np_ = rng.randint(2, 14)
        shapes.append((np_, rng.choice([1, 2, 3, 5, 12]), rng.choice([0, 0, rng.randrange(np_), np_ - 1])))
    for np_, dt, ref in shapes:
        a = gens.machine_kwargs(rng, nprofiles=np_, dturns=dt, machine_ref_frame=ref,
                                beam_ref_frame=rng.randrange(np_))
        a['charge'] = rng.choice([1, 1, 2, -1, 3])
        a['vrf1dot'] = rng.choice([0.0, 3e6, -3e6, 1e5])
        if a['vrf2'] != 0:
            a['vrf2dot'] = rng.choice([0.0, 2e6, -2e6])
        a['trans_gamma'] = rng.choice([4.1, 6.1, 1.02, 24.0])
        cases.append(dict(kind='machine', args=a, recompute=rng.random() < .5))
        if rng.random() < .3:
            cases[-1]['earlier'] = other(rng, a)
    for np_, dt in [(100, 12), (150, 5), (20, 100)] * (1 if tier == 'quick' else 6):
        a = gens.machine_kwargs(rng, nprofiles=np_, dturns=dt, machine_ref_frame=rng.choice([0, np_ - 1, rng.randrange(np_)]),
                                beam_ref_frame=rng.randrange(np_), vrf1dot=rng.choice([0.0, 1e5]))
        cases.append(dict(kind='machine', args=a, recompute=rng.random() < .5))
    for k in range(40 if tier == 'quick' else 400):
        cases.append(dict(kind='fn', phi=rng.uniform(-4, 7), L=rng.uniform(.1, 3),
                          v1=rng.uniform(-8e3, 8e3), v2=rng.uniform(-4e3, 4e3),
                          h=rng.choice([1.0, 2.0, 3.5]), phi12=rng.uniform(-2, 2),
                          bdot=rng.uniform(-2, 2), R=rng.uniform(10, 100),
                          rho=rng.uniform(5, 80), q=rng.choice([1, -1, 2]),
                          t=rng.uniform(-1e-3, 1e-3), arr=rng.random() < .5))
    return cases


def other(rng, a):
    """Settings a machine may have had before it was given those of a."""
    b = dict(a)
    for k, f in dict(vrf1=lambda v: v * 1.3, b0=lambda v: v * 1.1, vrf1dot=lambda v: 1e5, phi12=lambda v: v + .2,
                     h_num=lambda v: v + 1, mean_orbit_rad=lambda v: v * 1.2, trans_gamma=lambda v: v * 1.5,
                     rest_energy=lambda v: v * 1.4, dturns=lambda v: v + rng.choice([1, 3]),
                     nprofiles=lambda v: v + rng.choice([1, 2]), machine_ref_frame=lambda v: 0).items():
        if rng.random() < .5:
            b[k] = f(b[k])
    return b


def solvable(a):
    ramp = abs(2 * math.pi * a['mean_orbit_rad'] * a['bending_rad'] * a['bdot'])
    span = 2e-6 * 20 * a['dturns'] * a['nprofiles'] * (abs(a['vrf1dot']) + abs(a['vrf2dot']))
    return ramp + a['vrf2'] * a['h_ratio'] + span < .8 * a['vrf1'] - 0 * span


def execute(case):
    import numpy as np
    from longitudinal_tomography.utils import physics
    if case['kind'] == 'fn':
        c = case
        n = 4
        v1 = np.zeros(n)
        v2 = np.zeros(n)
        phi0 = np.zeros(n)
        turn = 2
        v1[turn], v2[turn], phi0[turn] = c['v1'], c['v2'], .3
        p12 = np.full(n, np.nan)
        p12[turn] = c['phi12']
        arg12 = p12 if c['arr'] else c['phi12']
        vs = c['v1'] * math.sin(.3) + c['v2'] * math.sin(c['h'] * (.3 - c['phi12']))
        return dict(kind='fn', phi=R(c['phi']), L=R(c['L']), v1=R(c['v1']), v2=R(c['v2']),
                    phi12=R(c['phi12']), bdot=R(c['bdot']), t=R(c['t']), vs=R(vs),
                    m=dict(R=R(c['R']), rho=R(c['rho']), q=c['q'], h=R(c['h'])),
                    rf_voltage_at_phase=R(physics.rf_voltage_at_phase(
                        c['phi'], c['v1'], c['v2'], c['h'], c['phi12'])),
                    rf_voltage=R(physics.rf_voltage(c['phi'], c['v1'], c['v2'], c['bdot'], c['h'],
                                                    c['phi12'], c['R'], c['rho'], c['q'])),
                    drf_voltage=R(physics.drf_voltage(c['phi'], c['v1'], c['v2'], c['h'], c['phi12'])),
                    rfvolt_rf1=R(physics.rfvolt_rf1(c['phi'], c['v1'], c['bdot'], c['R'], c['rho'], c['q'])),
                    drfvolt_rf1=R(physics.drfvolt_rf1(c['phi'], c['v1'])),
                    vrft=R(physics.vrft(c['v1'], c['v2'], c['t'])),
                    phase_low=R(physics.phase_low(c['phi'], c['L'], v1, v2, phi0, c['h'], arg12, turn, turn)),
                    dphase_low=R(physics.dphase_low(c['phi'], c['L'], v1, v2, c['h'], arg12, turn)))
    a = case['args']
    with quiet():
        out, m = call(make_machine, **(case.get('earlier') or a))
        if case.get('earlier'):
            # the same object, given new settings
            for k, v in a.items():
                if case['earlier'][k] != v:
                    setattr(m, dict(rest_energy='e_rest', charge='q').get(k, k), v)
            if out == 'ok':
                out, _ = call(m.values_at_turns)
            else:
                out, m = call(make_machine, **a)
    mm = dict(R=R(a['mean_orbit_rad']), rho=R(a['bending_rad']), gt=R(a['trans_gamma']),
              er=R(a['rest_energy']), q=a['charge'], hn=a['h_num'], h=R(a['h_ratio']),
              v1=R(a['vrf1']), v1dot=R(a['vrf1dot']), v2=R(a['vrf2']), v2dot=R(a['vrf2dot']),
              phi12=R(a['phi12']), b0=R(a['b0']), bdot=R(a['bdot']), dt=a['dturns'],
              np=a['nprofiles'], ref=a['machine_ref_frame'])
    rec = dict(kind='machine', outcome=out, solvable=solvable(a), m=mm)
    if out != 'ok':
        return rec
    names = ['time_at_turn', 'e0', 'beta0', 'phi0', 'eta0', 'drift_coef', 'omega_rev0',
             'vrf1_at_turn', 'vrf2_at_turn', 'deltaE0']
    arrays = {k: np.array(getattr(m, k)) for k in names}
    again = True
    if case['recompute']:
        with quiet():
            m.values_at_turns()
        again = all(np.array_equal(arrays[k], getattr(m, k)) for k in names)
    rec.update(time=RV(arrays['time_at_turn']), e0=RV(arrays['e0']), beta=RV(arrays['beta0']),
               phi0=RV(arrays['phi0']), eta=RV(arrays['eta0']), drift=RV(arrays['drift_coef']),
               omega=RV(arrays['omega_rev0']), v1=RV(arrays['vrf1_at_turn']),
               v2=RV(arrays['vrf2_at_turn']), dE0=RV(arrays['deltaE0']),
               nbins=a['nbins'], spy=R(m.synch_part_y), again=again)
    return rec
