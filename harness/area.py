"""Machines and area records shared by C08, C10 and C27."""
from harness.lib import R, make_machine
from harness import gens


def args(rng, full=None, limits=True):
    a = gens.machine_kwargs(rng)
    np_ = a['nprofiles']
    a['nbins'] = rng.choice([11, 16, 24, 31, 40] * 6 + [100, 205])
    if full is not None:
        a['full_pp_flag'] = full
    a['machine_ref_frame'] = rng.choice([0, 0, rng.randrange(np_)])
    a['filmstart'] = rng.choice([0, a['beam_ref_frame'], rng.randrange(np_)])
    a['filmstop'] = a['filmstart']
    a['demax'] = rng.choice([-1e6, -1.0, -1e6, rng.uniform(5e5, 5e6)])
    a['bdot'] = rng.choice([0.0, .3, .795])
    import math
    p = a['charge'] * a['b0'] * a['bending_rad'] * 299792458.0
    beta = p / math.sqrt(p * p + a['rest_energy'] ** 2)
    t_rf = 2 * math.pi * a['mean_orbit_rad'] / (beta * 299792458.0) / a['h_num']
    a['dtbin'] = t_rf * rng.uniform(.5, 1.05) / a['nbins']
    a['synch_part_x'] = a['nbins'] * rng.uniform(.35, .65)
    a['min_dt'], a['max_dt'] = 0.0, a['dtbin'] * a['nbins']
    if limits and rng.random() < .6:
        n = a['nbins']
        kind = rng.choice(['lo', 'hi', 'both', 'beyond', 'empty', 'last'])
        if kind in ('lo', 'both'):
            a['min_dt'] = a['dtbin'] * (rng.randint(0, n // 2) + .37)
        if kind in ('hi', 'both'):
            a['max_dt'] = a['dtbin'] * (rng.randint(n // 2, n - 1) + .37)
        if kind == 'last':
            a['max_dt'] = a['dtbin'] * (n - rng.choice([1, 2, 3, 4]) - .4)
        if kind == 'beyond':
            a['max_dt'] = a['dtbin'] * (n + rng.choice([.5, 1.5, 3.2]))
        if kind == 'empty':
            a['min_dt'] = a['dtbin'] * (n * .7)
            a['max_dt'] = a['dtbin'] * (n * .3)
    a['phi12arr'] = rng.random() < .3
    if rng.random() < .35:      # settings of an earlier search with the same objects
        n = a['nbins']
        a['earlier'] = dict(min_dt=rng.choice([0.0, a['dtbin'] * (rng.randint(1, n // 3) + .37)]),
                            max_dt=a['dtbin'] * rng.choice([n, n - 2.6, .7 * n]),
                            full_pp_flag=rng.random() < .4, demax=rng.choice([-1e6, 2e6]),
                            synch_part_x=n * rng.uniform(.4, .6), filmstart=rng.randrange(np_),
                            nbins=rng.choice([n, n, n + 3, n - 2]))
    return a


def before(m, a, act):
    """Performs act under the earlier settings, then puts the settings back."""
    if not a.get('earlier'):
        return
    now = {k: getattr(m, k) for k in a['earlier']}
    for k, v in a['earlier'].items():
        setattr(m, k, v)
    try:
        act()
    except Exception:
        pass
    for k, v in now.items():
        setattr(m, k, v)


def machine(a):
    import numpy as np
    a = dict(a)
    arr = a.pop('phi12arr')
    a.pop('earlier', None)
    m = make_machine(**a)
    if arr:
        m.phi12 = m.phi12 + .003 * np.arange(len(m.phi0))
    return m


def turn_record(m, turn):
    import numpy as np
    p12 = m.phi12[turn] if isinstance(m.phi12, np.ndarray) else m.phi12
    return dict(phi0=R(m.phi0[turn]), omega=R(m.omega_rev0[turn]), e0=R(m.e0[turn]),
                beta=R(m.beta0[turn]), eta=R(m.eta0[turn]), drift=R(m.drift_coef[turn]),
                v1=R(m.vrf1_at_turn[turn]), v2=R(m.vrf2_at_turn[turn]), phi12=R(p12))


def area_record(m):
    return dict(nb=m.nbins, hn=m.h_num, h=R(m.h_ratio), q=m.q, dtbin=R(m.dtbin),
                spx=R(m.synch_part_x), spy=R(m.nbins / 2.0), demax=R(m.demax),
                mindt=R(m.min_dt), maxdt=R(m.max_dt), full=bool(m.full_pp_flag))
