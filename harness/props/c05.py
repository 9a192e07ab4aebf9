"""C05: tracking applies every turn once, in order, at the right profile."""
from harness.lib import R, RV, RM, call, quiet, laid, layout_of, make_machine

TRACE = 'T_Tracking'
MODELS = [dict(module='MC_Tracking', cfg='MC_Tracking.cfg', cfg_thorough='MC_Tracking_T.cfg',
               emit=True, workers=4)]
ASSUMPTIONS = ['tolerance 1e-7 of the largest coordinate in a profile',
               'self-field tracking is judged by C22, the GPU kernels by C30']


def programme(rng, n, kind):
    g = lambda lo, hi: [rng.uniform(lo, hi) for _ in range(n)]
    if kind == 'kickbits':          # energy counts the kicked turns exactly
        return dict(v1=[2.0 ** (t % 40) for t in range(n)], v2=[0.0] * n,
                    phi0=[1.5707963267948966] * n, phi12=[0.0] * n, dE0=[0.0] * n,
                    drift=[0.0] * n)
    if kind == 'driftbits':
        return dict(v1=[0.0] * n, v2=[0.0] * n, phi0=[0.0] * n, phi12=[0.0] * n,
                    dE0=[0.0] * n, drift=[2.0 ** (t % 40) for t in range(n)])
    if kind == 'gainbits':
        return dict(v1=[0.0] * n, v2=[0.0] * n, phi0=[0.0] * n, phi12=[0.0] * n,
                    dE0=[2.0 ** (t % 40) for t in range(n)], drift=[0.0] * n)
    if kind == 'second':
        return dict(v1=[0.0] * n, v2=g(.1, 1), phi0=g(0, 1), phi12=g(-1, 1),
                    dE0=[0.0] * n, drift=g(.01, .2))
    if kind in ('long', 'single'):  # the orbits stay together, so that rounding does
        return dict(v1=g(.05, .1), v2=g(-.02, .02), phi0=g(-.1, .1), phi12=g(-1, 1), dE0=g(-.01, .01),
                    drift=g(.02, .1))
    return dict(v1=g(.1, 1), v2=g(-.5, .5), phi0=g(-.5, 3), phi12=g(-1, 1),
                dE0=g(-.1, .1), drift=g(-.2, .3))


KINDS = ['kickbits', 'driftbits', 'gainbits', 'second', 'general']


def gen(rng, tier, beh):
    cases = []
    shapes = beh['MC_Tracking']
    if tier == 'quick':
        todo = [(s, k) for s in shapes for k in rng.sample(KINDS, 1 if s['off'] else 2)]
    else:
        todo = [(s, k) for s in shapes for k in KINDS]
    for k in range(20 if tier == 'quick' else 200):
        np_, dt = rng.randint(2, 9), rng.randint(1, 12)
        todo.append((dict(np=np_, dt=dt, r=rng.randrange(np_)), rng.choice(KINDS)))
        r = rng.randrange(np_)
        off = rng.randint(-(dt - 1) if r else 0, dt - 1 if r < np_ - 1 else 0)
        todo.append((dict(np=np_, dt=dt, r=r, off=off), rng.choice(KINDS)))
    many = 8 if tier == 'quick' else 80
    for k in range(many):            # many turns, many particles
        np_, dt = rng.choice([(2, 700), (60, 9), (300, 2), (9, 80), (130, 5)])
        todo.append((dict(np=np_, dt=dt, r=rng.randrange(np_)), 'long'))
    for k in range(3 * many):
        np_, dt = rng.randint(2, 6), rng.randint(1, 8)
        todo.append((dict(np=np_, dt=dt, r=rng.randrange(np_)), 'single'))
    for s, kind in todo:
        n = s['dt'] * (s['np'] - 1) + 1
        p = programme(rng, n, kind)
        npart = rng.choice([1, 2, 3, 5]) if kind != 'long' else rng.choice([3, 40, 400]) if n < 400 else 4
        const12 = rng.random() < .5
        if const12:
            p['phi12'] = [p['phi12'][0]] * n
        if kind.endswith('bits'):
            phi = [0.0] * npart
            en = [1.0] * npart if kind == 'driftbits' else [0.0] * npart
        else:
            phi = [rng.uniform(-1.5, 1.5) for _ in range(npart)]
            en = [rng.uniform(-1, 1) for _ in range(npart)]
        cases.append(dict(np=s['np'], dt=s['dt'], r=s['r'], off=s.get('off', 0), kind=kind, const12=const12,
                          h=rng.choice([1.0, 2.0, 3.0, 0.5, 2.5, 1.37, 4.2]), q=rng.choice([1, 2, -1]),
                          phi=phi, en=en, **p))
    return cases


def execute(case):
    import numpy as np
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.cpp_routines import libtomo
    from longitudinal_tomography.utils.tomo_config import AppConfig
    n = case['dt'] * (case['np'] - 1) + 1
    nt = n - 1
    off = case.get('off', 0)
    kw = dict(deltaturn=off) if off else {}
    q = case['q']

    single = case['kind'] == 'single'
    if single:
        # numbers that are exact in single precision
        case = dict(case, **{k: [float(np.float32(x)) for x in case[k]]
                             for k in ('v1', 'v2', 'phi0', 'phi12', 'dE0', 'drift', 'phi', 'en')})

    def mach(array12):
        m = make_machine(nprofiles=case['np'], dturns=case['dt'], machine_ref_frame=0)
        m.vrf1_at_turn = np.array(case['v1']) / q
        m.vrf2_at_turn = np.array(case['v2']) / q
        m.q = q
        m.phi0 = np.array(case['phi0'])
        m.deltaE0 = np.array(case['dE0'])
        m.drift_coef = np.array(case['drift'])
        m.h_ratio = case['h']
        m.phi12 = np.array(case['phi12']) if array12 else case['phi12'][0]
        return m

    phi, en = np.array(case['phi']), np.array(case['en'])
    obs = []

    def add(mode, fn):
        with quiet():
            (AppConfig.set_single_precision if single else AppConfig.set_double_precision)()
            try:
                out, res = call(fn)
            finally:
                AppConfig.set_double_precision()
        o = dict(mode=mode, outcome=out)
        if out == 'ok':
            o.update(phi=RM(res[0]), en=RM(res[1]))
        obs.append(o)

    if case['r'] * case['dt'] + off < nt:
        for a12 in ([True, False] if case['const12'] else [True]):
            t = Tracking(mach(a12))
            lay = layout_of(case, int(a12))
            add('track', lambda: t.track(case['r'], init_distr=laid([phi, en], lay) if a12 else (laid(phi, lay), laid(en, lay)), **kw))
        # a tracker follows the programmes its machine has when it tracks
        m4 = mach(True)
        keys = ('vrf1_at_turn', 'vrf2_at_turn', 'phi0', 'deltaE0', 'drift_coef')
        now = {k: getattr(m4, k) for k in keys}
        for k in keys:
            setattr(m4, k, now[k][::-1] * .5 + .125)
        t4 = Tracking(m4)
        with quiet():
            call(lambda: t4.track(case['r'], init_distr=(phi.copy(), en.copy()), **kw))
        for k in keys:
            setattr(m4, k, now[k])
        add('track-again', lambda: t4.track(case['r'], init_distr=(phi.copy(), en.copy()), **kw))
        # negative profile numbers count from the end
        t3 = Tracking(mach(True))
        add('track-wrap', lambda: t3.track(case['r'] - case['np'], init_distr=(phi.copy(), en.copy()), **kw))
    if case['const12'] and not single:
        t2 = Tracking(mach(False))
        add('hybrid', lambda: t2.kick_and_drift(en.copy(), phi.copy(), np.array(case['v1']),
                                                np.array(case['v2']), case['r'], **kw))

    def lib(style):
        ft = np.float32 if single else np.float64
        x, y = np.zeros((case['np'], len(phi)), dtype=ft), np.zeros((case['np'], len(phi)), dtype=ft)
        common = (x, y, en.astype(ft), phi.astype(ft), np.array(case['v1'], dtype=ft), np.array(case['v2'], dtype=ft))
        if style == 'machine':
            r = libtomo.kick_and_drift(*common, mach(False), case['r'], off, nt, len(phi))
        else:
            p12 = np.array(case['phi12'], dtype=ft) if style == 'array' else float(case['phi12'][0])
            r = libtomo.kick_and_drift(*common, np.array(case['phi0'], dtype=ft), np.array(case['dE0'], dtype=ft),
                                       np.array(case['drift'], dtype=ft), p12, case['h'], case['dt'],
                                       case['r'], off, nt, len(phi))
        return r

    for style in (['array'] if single else ['array', 'scalar', 'machine'] if case['const12'] else ['array']):
        add('lib-' + style, lambda: lib(style))
    prog = {k: RV(case[k]) for k in ('v1', 'v2', 'phi0', 'phi12', 'dE0', 'drift')}
    prog.update(h=R(case['h']), dt=case['dt'], np=case['np'])
    return dict(prog=prog, start=case['r'], off=off, phi=RV(phi), en=RV(en), rtol='1e-4' if single else '1e-7', obs=obs)
