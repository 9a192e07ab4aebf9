"""Input generators shared by properties."""
import math


def waterfall(rng, nprof, nbins, kind=None):
    """Rows of floats, every row with a positive sum after clipping."""
    kind = kind or rng.choice(['gauss', 'noisy', 'sparse', 'int', 'flat', 'spiky', 'tiny', 'huge'])
    rows = []
    for j in range(nprof):
        c = rng.uniform(0, nbins)
        s = rng.uniform(0.3, nbins / 2 + 0.5)
        if kind == 'gauss':
            r = [math.exp(-((k - c) / s) ** 2) for k in range(nbins)]
        elif kind in ('noisy', 'tiny', 'huge'):
            r = [math.exp(-((k - c) / s) ** 2) + rng.gauss(0, .2) for k in range(nbins)]
        elif kind == 'sparse':
            r = [rng.choice([0.0, 0.0, 0.0, rng.random()]) for _ in range(nbins)]
        elif kind == 'int':
            r = [float(rng.randint(-1, 5)) for _ in range(nbins)]
        elif kind == 'flat':
            r = [1.0] * nbins
        else:
            r = [0.0] * nbins
            r[rng.randrange(nbins)] = rng.uniform(.5, 2)
        if sum(max(x, 0) for x in r) <= 1e-3:
            r[rng.randrange(nbins)] = 1.0
        if kind == 'tiny':
            r = [x * 1e-12 for x in r]
        if kind == 'huge':
            r = [x * 1e9 for x in r]
        rows.append(r)
    return rows, kind


def coords(rng, nparts, nprof, nbins, kind=None):
    kind = kind or rng.choice(['uniform', 'orbit', 'crowded', 'border', 'static'])
    xp = []
    for i in range(nparts):
        if kind == 'uniform':
            r = [rng.randrange(nbins) for _ in range(nprof)]
        elif kind == 'orbit':
            a, ph, om = rng.uniform(0, nbins / 2), rng.uniform(0, 6.28), rng.uniform(.1, 1)
            r = [min(nbins - 1, max(0, int(nbins / 2 + a * math.sin(ph + om * j)))) for j in range(nprof)]
        elif kind == 'crowded':
            c = nbins // 2
            r = [min(nbins - 1, max(0, int(rng.gauss(c, .7)))) for _ in range(nprof)]
        elif kind == 'border':
            r = [rng.choice([0, nbins - 1]) for _ in range(nprof)]
        else:
            r = [i % nbins] * nprof
        xp.append(r)
    return xp, kind


def machine_kwargs(rng, **force):
    """Arguments of a physically sensible machine (PSB-like, protons or ions)."""
    a = dict(
        dturns=rng.choice([1, 2, 3, 5, 7, 12]),
        nprofiles=rng.randint(3, 12),
        nbins=rng.choice([24, 31, 40, 57, 80]),
        h_num=rng.choice([1, 1, 2, 4]),
        h_ratio=rng.choice([1.0, 2.0, 3.0]),
        charge=rng.choice([1, 1, 2]),
        b0=rng.choice([.12, .15722, .3, .45]),
        bdot=rng.choice([0.0, .3, .795, 1.5, -.4]),
        mean_orbit_rad=25.0, bending_rad=8.239,
        trans_gamma=rng.choice([4.1, 6.1]),
        rest_energy=rng.choice([.93827231e9, .93827231e9, 3.7e9]),
        vrf1=rng.uniform(3000, 9000), vrf1dot=rng.choice([0.0, 0.0, 2e5, -2e5]),
        vrf2dot=0.0,
        snpt=rng.choice([1, 2, 3, 4]),
        full_pp_flag=rng.random() < .2,
    )
    if rng.random() < .4:
        a['vrf2'] = a['vrf1'] * rng.uniform(.05, .3) * rng.choice([1, 1, -1])
        a['vrf2dot'] = rng.choice([0.0, 1e5])
        a['phi12'] = rng.uniform(-.5, .5)
    else:
        a['vrf2'], a['phi12'] = 0.0, 0.0
    a.update(force)
    # bins spanning roughly one RF period
    import math
    e_rest = a['rest_energy']
    p = a['charge'] * a['b0'] * a['bending_rad'] * 299792458.0
    beta = p / math.sqrt(p * p + e_rest * e_rest)
    t_rf = 2 * math.pi * a['mean_orbit_rad'] / (beta * 299792458.0) / a['h_num']
    a.setdefault('dtbin', t_rf * rng.uniform(.6, 1.0) / a['nbins'])
    a.setdefault('synch_part_x', a['nbins'] * rng.uniform(.4, .6))
    a.setdefault('machine_ref_frame', 0)
    a.setdefault('beam_ref_frame', rng.randrange(a['nprofiles']))
    a.setdefault('demax', -1e6)
    a['min_dt'] = 0.0
    a['max_dt'] = a['dtbin'] * a['nbins']
    return a
