"""C20: validity conditions."""
from harness.lib import R, RV, call, quiet
from harness import gens

TRACE = 'T_Validity'
MODELS = [dict(module='MC_Validity', cfg='MC_Validity.cfg', cfg_thorough='MC_Validity_T.cfg', emit=True, workers=4),
          dict(module='MC_Frames', cfg='MC_Frames.cfg', emit=True, workers=4)]
ASSUMPTIONS = ['numbers are real (no NaN); an accepted machine is also physically solvable']
NAMES = {'e_rest': 'rest_energy'}
FILM = ('filmstart', 'filmstop', 'filmstep')
OPS = ["ftn-none", "ftn-zero", "ftn-charge", "self-no-phiwrap", "self-no-vself", "self-nothing", "self-ok",
       "coords-1", "coords-2", "coords-scalar", "coords-none", "coords-one", "coords-three", "coords-unequal",
       "coords-noniter", "track-1", "track-2", "track-three", "track-last", "track-high", "track-low"]
INTS = {'dturns', 'niter', 'snpt', 'machine_ref_frame', 'beam_ref_frame', 'h_num', 'filmstart', 'filmstop', 'filmstep'}


def gen(rng, tier, beh):
    ms = [b['m'] for b in beh['MC_Validity'] if b['kind'] == 'machine']
    tr = [b['ops'] for b in beh['MC_Validity'] if b['kind'] == 'tracker']
    fr = [b['f'] for b in beh['MC_Frames'] if b['kind'] == 'layout']
    big = tier != 'quick'
    if not big:
        rng.shuffle(ms)
        ms = ms[:1500]
    tr = tr + [[rng.choice(OPS) for _ in range(rng.randint(3, 14))] for _ in range(60 if not big else 600)]
    cases = [dict(kind='assert', ms=ms[k:k + 300]) for k in range(0, len(ms), 300)]
    cases += [dict(kind='tracker', hs=tr[k:k + 60], seed=rng.randrange(10 ** 6)) for k in range(0, len(tr), 60)]
    cases += [dict(kind='frames', fs=fr[k:k + 400]) for k in range(0, len(fr), 400)]
    cases += [dict(kind='build', seed=rng.randrange(10 ** 6)) for _ in range(40 if not big else 400)]
    cases += [dict(kind='small', seed=rng.randrange(10 ** 6)) for _ in range(8 if not big else 60)]
    cases += [dict(kind='rules', seed=rng.randrange(10 ** 6)) for _ in range(12 if not big else 100)]
    cases += [dict(kind='start', seed=rng.randrange(10 ** 6)) for _ in range(6 if not big else 40)]
    return cases


OFFSET = ('array_greater', 'array_greater_eq', 'array_less', 'array_less_eq', 'array_in_range')


def val(x):
    return None if x == 'none' else (float(x) if '.' in x or 'e' in x else int(x))


def rec(kind, out, res, **k):
    return dict(kind=kind, outcome=out, mro=[] if out == 'ok' else res, **k)


def digest(m):
    import hashlib
    import numpy as np
    h = hashlib.sha1()
    for k in sorted(vars(m)):
        v = getattr(m, k)
        h.update(k.encode())
        h.update(np.ascontiguousarray(v).tobytes() if isinstance(v, np.ndarray) else repr(v).encode())
    return h.hexdigest()


def settings(m):
    d = {}
    for k in ('dtbin', 'dturns', 'niter', 'snpt', 'h_num', 'b0', 'mean_orbit_rad', 'bending_rad', 'e_rest',
              'machine_ref_frame', 'beam_ref_frame', 'h_ratio', 'pickup_sensitivity', 'g_coupling') + FILM:
        v = getattr(m, k)
        d[k] = 'none' if v is None else R(v)
    return d


def execute(case):
    import random
    import re
    import types
    import numpy as np
    from longitudinal_tomography import assertions as A
    from longitudinal_tomography import exceptions as E
    from longitudinal_tomography.tracking.machine import Machine
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tracking.particles import Particles
    from longitudinal_tomography.utils.tomo_input import Frames
    rng = random.Random(case.get('seed', 0))
    recs = []
    kind = case['kind']
    if kind == 'assert':
        for m in case['ms']:
            o = types.SimpleNamespace(**{k: val(v) for k, v in m.items()})
            before = digest(o)
            out, res = call(A.assert_machine_input, o)
            recs.append(rec('machine', out, res, m=m, via='assert_machine_input', before=before, after=digest(o)))
    elif kind == 'build':
        good = gens.machine_kwargs(rng, niter=rng.randint(1, 30), filmstart=0, filmstop=2, filmstep=1)
        for n in range(20):
            kw = dict(good)
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                f = rng.choice(['dtbin', 'dturns', 'niter', 'snpt', 'h_num', 'b0', 'mean_orbit_rad', 'bending_rad',
                                'e_rest', 'machine_ref_frame', 'beam_ref_frame', 'h_ratio', 'pickup_sensitivity',
                                'g_coupling', 'film', 'film', 'none'])
                if f == 'film':
                    kw.update(filmstart=rng.choice([0, 1, 2, -1, None]), filmstop=rng.choice([0, 1, 2, 3, -1, None]),
                              filmstep=rng.choice([1, 1, 2, 3, 4, 0, -1, None]))
                elif f != 'none':
                    bad = [None, -1, 0, -2.5, -1e-6] if f not in INTS else [None, -1, 0, -7]
                    if f in ('h_ratio', 'pickup_sensitivity', 'g_coupling'):
                        bad += [.5, 0.0]
                    if f in ('beam_ref_frame', 'machine_ref_frame'):
                        bad += [0, 1]
                    if f in ('snpt', 'niter'):
                        bad += [1, 2]
                    kw[NAMES.get(f, f)] = rng.choice(bad)
            mode = rng.choice(['constructor', 'values_at_turns', 'later'])
            if mode == 'constructor':
                full = Machine(vat_now=False, **kw)
                out, res = call(Machine, **kw)
                recs.append(rec('machine', out, res, m=settings(full), via=mode, before='', after=''))
            else:
                if mode == 'later':
                    full = Machine(**good)
                    for k, v in kw.items():
                        k = 'e_rest' if k == 'rest_energy' else 'q' if k == 'charge' else k
                        if hasattr(full, k):
                            setattr(full, k, v)
                else:
                    full = Machine(vat_now=False, **kw)
                before = digest(full)
                st = settings(full)
                out, res = call(full.values_at_turns)
                recs.append(rec('machine', out, res, m=st, via=mode, before=before, after=digest(full)))
    elif kind == 'frames':
        for f in case['fs']:
            fr = Frames(f['n'], f['len'], f['skip'], f['sl'], f['se'], f['rebin'], 1e-9)
            out, res = call(A.assert_frame_inputs, fr)
            recs.append(rec('frame', out, res, f=f))
    elif kind == 'small':
        vals = [-2, -1, -1e-9, 0, 1e-9, .5, 1, 1.0000001, 2, 3, 7.25]
        errs = [ValueError, E.InputError, E.MachineParameterError, AssertionError, E.EnergyBinningError]
        for op in ('greater', 'less', 'equal', 'not_equal', 'less_or_equal', 'greater_or_equal', 'inrange'):
            for _ in range(14):
                x, a, b = rng.choice(vals), rng.choice(vals), rng.choice(vals)
                if rng.random() < .3:
                    x = rng.choice([a, b])
                e = rng.choice(errs)
                args = (x, 'x', a) + ((b,) if op == 'inrange' else ()) + (e,) + (('more',) if rng.random() < .5 else ())
                out, res = call(getattr(A, 'assert_' + op), *args)
                recs.append(rec('scalar', out, res, op=op, x=R(x), a=R(a), b=R(b), err=e.__name__))
        for op in ('array_greater', 'array_greater_eq', 'array_less', 'array_less_eq', 'array_in_range',
                   'array_not_equal', 'only_valid_particles'):
            for _ in range(14):
                a, b = rng.choice(vals), rng.choice(vals)
                v = [rng.choice(vals + [a] * 8) for _ in range(rng.randint(1, 6))]
                if rng.random() < .5:      # all but one on the good side
                    lo, hi = min(a, b), max(a, b)
                    a, b = lo, hi
                    v = {'array_greater': [a + 1] * 5, 'array_greater_eq': [a] * 5, 'array_less': [a - 1] * 5,
                         'array_less_eq': [a] * 5, 'array_in_range': [a, b, a, b, (a + b) / 2],
                         'array_not_equal': [a] * 5, 'only_valid_particles': [0, .5 * a, .9 * a, 0, 0]}[op]
                    if rng.random() < .7:
                        v[rng.randrange(5)] = rng.choice([a, b, a - 1e-6, a + 1e-6, b + 1e-6, b - 1e-6])
                e = rng.choice(errs)
                off = rng.choice([0, 0, 3]) if op in OFFSET else 0
                words = []

                def said(f, *a, **k):
                    try:
                        return f(*a, **k)
                    except Exception as e:
                        words.append(str(e))
                        raise
                arr = np.array(v, dtype=float)
                if op == 'only_valid_particles':
                    if len(v) % 2 == 0:
                        arr = arr.reshape(2, -1)
                    out, res = call(A.assert_only_valid_particles, arr, a)
                    e = E.InvalidParticleError
                else:
                    args = (arr,) + (('x',) if op == 'array_not_equal' else ()) + (a,) + \
                        ((b,) if op == 'array_in_range' else ()) + (e,)
                    kw = {'index_offset': off} if off else {}
                    out, res = call(said, getattr(A, 'assert_' + op), *args, **kw)
                found = re.search(r'index: *\[([-0-9 \n]*)\]', words[-1]) if words else None
                recs.append(rec('array', out, res, op=op, off=off if found or out == 'ok' else -1, named=[int(x) for x in found.group(1).split()] if found else [], v=RV(v), a=R(a), b=R(b), err=e.__name__))
        for op in ('array_shape_equal', 'array_numel_equal'):
            for _ in range(12):
                want = tuple(rng.choice([2, 3]) for _ in range(1 if op == 'array_numel_equal' else rng.choice([1, 2])))
                shapes = [want if rng.random() < .6 else tuple(rng.choice([2, 3]) for _ in range(rng.choice([1, 2])))
                          for _ in range(rng.choice([1, 2, 2, 3]))]
                w = want[0] if op == 'array_numel_equal' and rng.random() < .7 else want
                out, res = call(getattr(A, 'assert_' + op), tuple(np.zeros(s) for s in shapes),
                                tuple('abc'[:len(shapes)]), w)
                recs.append(rec('shape', out, res, op=op, shapes=[list(s) for s in shapes], want=list(want)))
        for _ in range(60):
            n = rng.randint(1, 6)
            i = rng.randint(-n - 3, n + 2)
            w = rng.random() < .6
            out, res = call(A.assert_index_ok, i, n, **({'wrap_around': w} if w or rng.random() < .5 else {}))
            recs.append(rec('index', out, res, i=i, n=n, wrap=w, got=int(res) if out == 'ok' else 0))
        for _ in range(30):
            fields = ['a', 'b', 'c', 'd'][:rng.randint(1, 4)]
            o = types.SimpleNamespace(**{f: rng.choice([0, 1, np.zeros(3), '', []]) for f in fields})
            miss = [f for f in fields if rng.random() < .25]
            for f in miss:
                setattr(o, f, None) if rng.random() < .5 else delattr(o, f)
            e = rng.choice(errs)
            out, res = call(A.assert_fields, o, 'o', fields, e, *(['msg'] if rng.random() < .5 else []))
            recs.append(rec('fields', out, res, missing=miss, err=e.__name__, what='object'))
        for what, need in (('Tracking', ['vrf1_at_turn', 'vrf2_at_turn', 'q', 'nprofiles', 'drift_coef', 'dturns',
                                         'phi0', 'phi12', 'h_ratio', 'deltaE0', 'synch_part_x']),
                           ('Particles', ['snpt', 'h_num', 'omega_rev0', 'eta0', 'dtbin', 'phi0', 'synch_part_y',
                                          'dturns', 'phi12', 'beam_ref_frame', 'full_pp_flag', 'demax', 'e0',
                                          'min_dt', 'max_dt', 'time_at_turn'])):
            kw = gens.machine_kwargs(rng, snpt=1, nbins=24, vrf2=0.0, vrf2dot=0.0, phi12=0.0, bdot=0.0, b0=.3, charge=1, rest_energy=.93827231e9, h_num=1)
            for f in [None] + rng.sample(need, 5):
                m = Machine(**kw)
                miss = [] if f is None else [f] + ([rng.choice(need)] if rng.random() < .2 else [])
                for g in set(miss):
                    setattr(m, g, None) if rng.random() < .6 or not hasattr(m, '__dict__') or g not in vars(m) \
                        else delattr(m, g)
                if what == 'Tracking':
                    out, res = call(Tracking, m)
                else:
                    out, res = call(Particles().homogeneous_distribution, m, 0)
                recs.append(rec('fields', out, res, missing=miss, err='MachineParameterError', what=what))
        m = Machine(**gens.machine_kwargs(rng, snpt=1, nbins=24))
        for bad in (None, 3, 'machine', types.SimpleNamespace(**vars(m))):
            out, res = call(Tracking, bad)
            recs.append(rec('area', out, res, want='MachineParameterError', what='not a machine'))
        for x in (-1, -1e-9, -.5, 0, 0.0, 1e-9, 5, 23.5):
            m.synch_part_x = x
            out, res = call(Tracking, m)
            recs.append(rec('area', out, res, want='MachineParameterError' if x < 0 else 'ok', what='synchronous bin'))
    elif kind == 'rules':
        recs = rules(rng)
    elif kind == 'start':
        kw = gens.machine_kwargs(rng, nprofiles=rng.randint(2, 6), snpt=1)
        n = kw['nprofiles']
        t = Tracking(Machine(**kw))
        d, e = np.linspace(-.4, .3, 5), np.linspace(-1e3, 2e3, 5)
        for r in range(-n - 2, n + 3):
            with quiet():
                out, res = call(t.track, r, init_distr=(d, e))
            rows = []
            if out == 'ok':
                rows = [i for i in range(n) if np.array_equal(res[0][i], d) and np.array_equal(res[1][i], e)]
            recs.append(rec('start', out, res, r=r, n=n, rows=rows))
    elif kind == 'tracker':
        kw = gens.machine_kwargs(rng, nprofiles=4, dturns=2)
        for ops in case['hs']:
            recs.append(history(rng, kw, ops))
    return recs


def history(rng, kw, ops):
    import types
    import numpy as np
    from longitudinal_tomography.tracking.machine import Machine
    from longitudinal_tomography.tracking.tracking import Tracking
    t = Tracking(Machine(**kw))
    t.particles.xorigin, t.particles.dEbin = 0.0, 1e3
    dist = {1: (np.array([.1, -.2, .3]), np.array([10., 20., -5.])), 2: (np.array([.4, .0]), np.array([1., 2.]))}
    good = types.SimpleNamespace(phiwrap=6.3, vself=np.zeros((4, 5000)))

    def do(op):
        what, _, arg = op.partition('-')
        if what == 'ftn':
            t.enable_fortran_output({'none': None, 'zero': 0.0, 'charge': 2.5}[arg])
        elif what == 'self':
            p = types.SimpleNamespace(**vars(good))
            for a in {'no-phiwrap': ['phiwrap'], 'no-vself': ['vself'], 'nothing': ['phiwrap', 'vself'], 'ok': []}[arg]:
                setattr(p, a, None) if rng.random() < .5 else delattr(p, a)
            t.enable_self_fields(p)
        elif what == 'coords':
            a, b = dist[1]
            bad = {'1': dist[1], '2': dist[2], 'scalar': 4.5, 'none': None, 'one': (a,), 'three': (a, b, b),
                   'unequal': rng.choice([(a, b[:-1]), (a[:-1], b)]),
                   'noniter': rng.choice([(a, 3.0), (2, b), (None, None), (1, 2)])}[arg]
            t.particles.coordinates_dphi_denergy = bad
        else:
            a, b = dist[1]
            n = t.machine.nprofiles
            with quiet():
                if arg in '12':
                    t.track(rng.choice([0, 1, 2, -n, -2]), init_distr=dist[int(arg)])
                elif arg == 'three':
                    t.track(0, init_distr=(a, b, a))
                else:
                    t.track({'last': rng.choice([n - 1, -1]), 'high': n, 'low': -n - 1}[arg], init_distr=dist[2])
    steps = []
    for op in ops:
        out, res = call(do, op)
        d, e = t.particles.coordinates_dphi_denergy
        cur = 9
        if d is None and e is None:
            cur = 0
        else:
            for k, (x, y) in dist.items():
                if d is not None and e is not None and np.array_equal(d, x) and np.array_equal(e, y):
                    cur = k
        ch = getattr(t, '_profile_charge', 'unknown')
        steps.append(dict(op=op, outcome=out, mro=[] if out == 'ok' else res, ftn=bool(t.fortran_flag),
                          self=bool(t.self_field_flag), dist=cur, charge='none' if ch is None else ch if ch == 'unknown' else R(ch)))
    return dict(kind='tracker', steps=steps)


def rules(rng):
    import numpy as np
    from longitudinal_tomography.compat import fortran
    from longitudinal_tomography.data import post_process, pre_process
    from longitudinal_tomography.data.profiles import Profiles
    from longitudinal_tomography.tomography.tomography import TomographyCpp
    from longitudinal_tomography.tracking.machine import Machine
    from longitudinal_tomography.tracking.particles import Particles
    from longitudinal_tomography.tracking.programs_machine import ProgramsMachine
    from longitudinal_tomography.utils.tomo_input import Frames
    recs = []

    def add(rule, fn, obj=None, **r):
        before = obj() if obj else ''
        with quiet():
            out, res = call(fn)
        recs.append(rec('rule', out, res, r=dict(rule=rule, **r), before=before, after=obj() if obj else ''))
    kw = gens.machine_kwargs(rng, snpt=1, nbins=24, nprofiles=rng.randint(2, 5), vrf2=0.0, vrf2dot=0.0, phi12=0.0,
                             bdot=0.0, b0=.3, charge=1, rest_energy=.93827231e9, h_num=1)
    n = kw['nprofiles']
    m = Machine(**kw)
    p = Profiles(m, kw['dtbin'], np.ones((n, 24)))
    dig = lambda: digest_of(p.waterfall, m.nbins, m.synch_part_y)
    for _ in range(10):
        rows = rng.choice([n, n, n, n - 1, n + 1])
        w = np.array([[rng.choice([-1, 0, 0, rng.choice([-3, .5])]) for _ in range(12)] for _ in range(rows)], float)
        if rng.random() < .4:
            w = -np.abs(w)
        val, it = (w, True) if rng.random() < .85 else (rng.choice([3, None, 2.5]), False)

        def assign():
            p.waterfall = val
        add('waterfall', assign, dig, iter=it, rows=rows, n=n, positive=bool((w > 0).any()))
    for _ in range(6):
        p2 = Profiles(m, kw['dtbin'], np.random.RandomState(rng.randrange(999)).rand(n, 24))
        charge = rng.random() < .6
        m.g_coupling, m.zwall_over_n = 1.0, 1.0
        if charge:
            p2.profile_charge = 1e10
        good = rng.random() < .5
        arr = np.ones((n, 24)) if good else rng.choice([np.ones((n, 23)), np.ones((n + 1, 24)), np.ones(24)])
        it = rng.random() < .8
        arr = arr if it else rng.choice([3, 2.5])
        fn = rng.choice([lambda: p2.calc_self_fields(filtered_profiles=arr),
                         lambda: p2.calc_self_fields(in_filter=lambda w: arr)])
        add('selffield', fn, lambda: digest_of(p2.waterfall, getattr(p2, 'vself', None), getattr(p2, 'dsprofiles', None),
                                                getattr(p2, 'phiwrap', None)), charge=charge, iter=it, shape=good)
    for x in (0, 0.0, -1e6, 1e6):
        m3 = Machine(**dict(kw, demax=x, beam_ref_frame=0))
        add('demax', lambda: Particles().homogeneous_distribution(m3, 0), x=R(x))
    wf = np.arange(36.).reshape(3, 12)
    for _ in range(30):
        l, r = rng.randint(-2, 13), rng.randint(-14, 14)
        add('cut', lambda: pre_process.cut_waterfall(wf, l, r), n=12, l=l, r=r)
    img = np.random.RandomState(3).rand(4, 4)
    for x in (-1, -1e-9, 0, 1e-9, 50, 99.999, 100, 100.0001, 101):
        add('fraction', lambda: post_process.emittance_fractional(img, np.arange(4.), np.arange(4.), fraction=x), x=R(x))
    for x in (-1, -1e-9, .05, .5, 1, 1.0, 1.00001, 2, 5):
        add('percent', lambda: fortran.calc_baseline(np.ones((2, 40)), 0, x), x=R(x))
    t = np.linspace(0, 1, 5)
    for k in (0, 1, 2, 3):
        both = rng.random() < .5
        a = dict(dturns=3, voltage_function=np.array([t, t + 5e3, t]), momentum_function=np.array([t, t + 1e9]),
                 mean_orbit_rad=25., bending_rad=8., trans_gamma=4.1, rest_energy=.938e9, nprofiles=3, nbins=20,
                 dtbin=1e-8, t_ref=.1, vat_now=False)
        add('harmonics', lambda: ProgramsMachine(harmonics=[1, 2, 3][:k], **a), n=k)
    for both in (True, False):
        add('phases', lambda: ProgramsMachine(harmonics=[1, 2], phi12=.1, **a,
                                              **({'phase_function': np.array([t, t, t])} if both else {})), both=both)
    tm = TomographyCpp(np.ones((n, 10)), np.zeros((2, n)))
    for _ in range(12):
        cols, nd = rng.choice([n, n, n, n - 1, n + 1]), rng.choice([2, 2, 2, 1, 3])
        lo, hi = rng.choice([0, 0, -1, -3]), rng.choice([9, 9, 10, 15])
        x = np.array([[rng.randint(0, 9) for _ in range(cols)] for _ in range(3)])
        x.flat[rng.randrange(x.size - 1)] = lo
        x.flat[x.size - 1] = hi
        it = rng.random() < .85
        v = {1: x.ravel(), 2: x, 3: x[None]}[nd] if it else rng.choice([4, 2.5, True])

        def assign():
            tm.xp = v
        add('xp', assign, lambda: digest_of(tm.xp, tm.nparts, tm.yp, tm.waterfall), iter=it, ndim=nd, cols=cols, n=n,
            lo=int(x.min()), hi=int(x.max()), nbins=10)
    for _ in range(6):
        fr = Frames(2, 5, 0, 0, 0, 1, 1e-9)
        it, ln = rng.random() < .8, rng.choice([10, 10, 9, 11, 5, 0])
        v = np.arange(ln) if it else rng.choice([3, None])

        def assign():
            fr.raw_data = v
        fr.raw_data = np.ones(10)
        add('rawdata', assign, lambda: digest_of(fr.raw_data), iter=it, rows=ln, n=10)
    for de, li in ((True, True), (False, True), (True, False), (False, False)):
        m4 = Machine(**kw)
        ps = Particles()
        with quiet():
            ps.homogeneous_distribution(m4, 0)
        if not de:
            ps.dEbin = None
        if not li:
            ps.imin = ps.imax = None
        add('plotinfo', lambda: fortran.write_plotinfo(m4, ps, 1.0), debin=de, limits=li)
    return recs


def digest_of(*vals):
    import hashlib
    import numpy as np
    h = hashlib.sha1()
    for v in vals:
        h.update(np.ascontiguousarray(v).tobytes() if isinstance(v, np.ndarray) else repr(v).encode())
    return h.hexdigest()
