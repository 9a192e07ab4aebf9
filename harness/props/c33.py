"""C33: sessions - results depend on the present inputs only, whatever was done before."""
import ast
import json
import os
import pickle
import struct
os.environ['OPENBLAS_NUM_THREADS'] = '1'    # a process that forks has one thread
from harness import gens
from harness.lib import R, call, quiet, machine_args

TRACE = 'T_Session'
MODELS = [dict(module='MC_Session', cfg='MC_Session.cfg', cfg_thorough='MC_Session_T.cfg', emit=True, workers=4),
          dict(module='MC_Session', cfg='MC_Session_N1.cfg', expect_violation=True, workers=2),
          dict(module='MC_Session', cfg='MC_Session_N2.cfg', expect_violation=True, workers=2)]
ASSUMPTIONS = ['the numbers of turns, profiles and bins of a machine are not changed after it is built',
               'the new process is forked from one that has imported the library and called nothing']
OMP = 1
NP, NB, DT = 4, 24, 3
CONTENT = {'w1': 11, 'w2': 12, 'w3': 13, 'x1': 21, 'x2': 22, 'x3': 23, 'i1': 31, 'i2': 32}
ARRAYS = ['factor', 'factor', 'vrf1', 'vrf2', 'vrf1dot', 'phi12', 'h_ratio', 'b0', 'bdot', 'h_num', 'q', 'trans_gamma', 'machine_ref_frame']
AREA = ['demax', 'snpt', 'full_pp_flag', 'synch_part_x', 'filmstart', 'beam_ref_frame', 'dtbin', 'min_dt', 'max_dt',
        'g_coupling', 'zwall_over_n', 'pickup_sensitivity', 'h_ratio', 'phi12']


# ------------------------------------------------------------------ contents
def rs(c, salt=0):
    import numpy as np
    return np.random.RandomState(CONTENT.get(c, 0) or (int(c) + 1000 * salt))


def waterfall(c, nb=NB, n=NP):
    import numpy as np
    r = rs(c)
    k = np.arange(nb)
    return np.array([np.exp(-((k - nb * r.uniform(.4, .6)) / (nb * r.uniform(.1, .25))) ** 2) * r.uniform(.8, 1.2)
                     for _ in range(n)]) + r.uniform(0, .02, (n, nb))


def points(c, n=NP, parts=50, nb=NB):
    return rs(c).randint(0, nb, (parts, n)).astype('int32')


def distribution(c):
    r = rs(c)
    return r.uniform(-1, 1, 40), r.uniform(-3e5, 3e5, 40)


# ------------------------------------------------------------- observations
def observed(out, res):
    import numpy as np
    if out != 'ok':
        return dict(outcome=res[0], form=[], vals=[])
    form, vals = [], []

    def put(x):
        if isinstance(x, dict):
            for k in sorted(x):
                form.append(str(k))
                put(x[k])
        elif isinstance(x, (tuple, list)):
            for y in x:
                put(y)
        elif x is None or isinstance(x, (str, bool, np.bool_)):
            form.append(repr(x))
        else:
            a = np.asarray(x)
            form.append(f'{a.shape} {a.dtype}')
            a = a.astype(float).ravel()
            idx = sorted({int(k) for k in np.linspace(0, a.size - 1, 14)}) if a.size else []
            fin = a[np.isfinite(a)]
            vals.append([R(a[k]) for k in idx] + [R(np.abs(fin).mean()) if fin.size else '0.0', R(len(fin) / max(a.size, 1))])
    put(res)
    return dict(outcome='ok', form=form, vals=vals)


# --------------------------------------------------------- doing one thing
def build(s):
    import numpy as np
    v = {k: ast.literal_eval(x) for k, x in s.items()}
    kind = v.pop('kind')
    v.pop('factor')
    if 'q' in v:
        v['charge'] = v.pop('q')
    if kind == 'machine':
        from longitudinal_tomography.tracking.machine import Machine
        m = Machine(**v)
        m.values_at_turns()
        return m
    from longitudinal_tomography.tracking.programs_machine import ProgramsMachine
    p0, v1, v2 = v.pop('p0'), v.pop('v1'), v.pop('v2')
    t = np.array([0.0, 1e-4])
    return ProgramsMachine(voltage_function=np.array([t, [v1, 1.1 * v1], [v2, .9 * v2]]),
                           momentum_function=np.array([t, [p0, p0 * 1.00001]]), **v)


def change(m, name, old, new):
    if name == 'factor':
        m.vrf1_at_turn *= float(new) / float(old)
    else:
        setattr(m, name, ast.literal_eval(new))


def programme(m):
    return [m.phi0, m.e0, m.beta0, m.eta0, m.omega_rev0, m.drift_coef, m.deltaE0, m.vrf1_at_turn, m.vrf2_at_turn,
            m.time_at_turn, m.phi12]


def compute(m):
    m.values_at_turns()
    return programme(m)


def area(m):
    from longitudinal_tomography.tracking.phase_space_info import PhaseSpaceInfo
    p = PhaseSpaceInfo(m)
    p.find_binned_phase_energy_limits()
    return [p.dEbin, p.xorigin, p.imin, p.imax, p.jmin, p.jmax]


def fields(p):
    p.calc_profilecharge()
    p.calc_self_fields()
    return [p.waterfall, p.profile_charge, p.phiwrap, p.wrap_length, p.vself, p.dsprofiles]


def track(t, prof, init):
    x, y = t.track(int(prof), init_distr=None if init == 'auto' else distribution(init))
    return [x, y] + ([t.particles.dEbin, t.particles.xorigin] if init == 'auto' else [])


def run(t, niter, how):
    w = t.run(niter=int(niter)) if how == 'run' else t.run_hybrid(niter=int(niter))
    return [w, t.diff, t.recreated, t.waterfall]


def precision(p):
    from longitudinal_tomography.utils.tomo_config import AppConfig
    AppConfig.set_single_precision() if p == 'single' else AppConfig.set_double_precision()


def functions():
    import numpy as np
    from longitudinal_tomography.compat import fortran
    from longitudinal_tomography.cpp_routines import libtomo
    from longitudinal_tomography.data import data_treatment as dt, post_process as pp, pre_process as pre
    from longitudinal_tomography.data.profiles import Profiles
    from longitudinal_tomography.tomography.tomography_multibunch import Tomography as Multi
    from longitudinal_tomography.tracking import particles as pts
    from longitudinal_tomography.tracking.machine import Machine
    from longitudinal_tomography.utils import tomo_config as conf, tomo_input as ti, tomo_output as to, tomographics as tg

    def num(c, lo, hi):
        return float(rs(c, 7).uniform(lo, hi))

    def mach(c, **k):
        m = Machine(**machine_args(nprofiles=NP, nbins=NB, dturns=DT, dtbin=3.2e-8, synch_part_x=12.0, snpt=1,
                                   vrf1=num(c, 3000, 9000), b0=num(c, .14, .2), **k))
        m.values_at_turns()
        return m

    def image(c):
        k = np.arange(NB) - 11.5
        r = rs(c)
        d = np.exp(-k[:, None] ** 2 / r.uniform(10, 30) - k ** 2 / r.uniform(10, 30)) * r.uniform(.9, 1.1, (NB, NB))
        return d / d.sum()

    def wide(c):
        return waterfall(c, nb=60)

    def lost(c):
        return rs(c).uniform(-.1, NB + .1, (NP, 40)), rs(c, 3).uniform(0, NB, (NP, 40))

    def lines(c):
        r = rs(c)
        a = ['comment\n'] * 98
        a[12], a[14] = 'pipe\n', '/tmp/\n'
        for k, v in {16: 5, 18: 0, 20: 60, 22: 1e-9, 24: r.randint(1, 9), 26: r.randint(0, 3), 28: r.randint(0, 3),
                     31: r.randint(0, 9), 34: 0, 36: 1, 39: r.uniform(10, 40), 41: -1e6, 43: 1, 45: 3, 47: 1, 49: 20, 51: 4, 53: 0,
                     55: 1, 57: 1, 61: r.uniform(2e3, 9e3), 63: 0., 65: 0., 67: 0., 69: 1., 71: 2., 73: .4, 75: .157, 77: .795,
                     79: 25., 81: 8.239, 83: 4.1, 85: .938e9, 87: 1., 91: 0, 93: 0., 95: 0., 97: .36}.items():
            a[k] = f'{v}\n'
        return a

    def profiles(c, w):
        p = Profiles(mach(c), 1e-9, w)
        return pre.fit_synch_part_x(p)

    def loaded(c, w):
        m = mach(c)
        p = ti.raw_data_to_profiles(w, m, 1 + int(c) % 3, 2e-8)
        return [p.waterfall, m.dtbin, m.synch_part_x, m.nbins]

    def multi(c, w, x):
        t = Multi(w, x)
        t.run([0, 2], [0, 0], [NB, NB], niter=2)
        return [t.weight_combined, t.diff]

    def parsed(c):
        m, f = ti.txt_input_to_machine(lines(c))
        return [{k: v for k, v in vars(m).items() if isinstance(v, (int, float, str))},
                {k: v for k, v in vars(f).items() if isinstance(v, (int, float, str))}]

    return {
        'rebin': (lambda c: (wide(c),), lambda c, w: pre.rebin(w, 1 + int(c) % 4, 1e-9, num(c, 10, 40))),
        'get_cuts': (lambda c: (wide(c),), lambda c, w: pre.get_cuts(w, margin=2)),
        'cut_waterfall': (lambda c: (wide(c),), lambda c, w: pre.cut_waterfall(w, 3 + int(c) % 5, 50)),
        'baseline': (lambda c: (wide(c),), lambda c, w: fortran.calc_baseline(w, int(c) % NP)),
        'fit': (lambda c: (waterfall(c),), profiles),
        'load': (lambda c: (wide(c),), loaded),
        'filter_lost': (lost, lambda c, x, y: pts.filter_lost(x, y, NB)),
        'ready': (lost, lambda c, x, y: pts.ready_for_tomography(x, y, NB)),
        'coords': (lost, lambda c, x, y: pts.physical_to_coords(x / 9, y * 1e4, mach(c), num(c, -1, 1), num(c, 1e3, 2e3))),
        'image': (lambda c: (points(c)[:, 0].copy(), points(c)[:, 1].copy(), rs(c).uniform(0, 1, 50)),
                  lambda c, x, y, w: conf.make_phase_space(x, y, w, NB)),
        'phase_space': (lambda c: (points(c)[:, 0].copy(), points(c)[:, 1].copy(), rs(c).uniform(0, 1, 50)),
                        lambda c, x, y, w: dt.phase_space_from_coordinates(x, y, w, NB, num(c, 5, 15), num(c, 5, 15), 1e-9, num(c, 1, 9))),
        'picture': (lambda c: (points(c), points(c)[:, ::-1].copy(), rs(c).uniform(0, 1, 50)),
                    lambda c, x, y, w: to.create_phase_space_image(x, y, w, NB, int(c) % NP)),
        'post': (lambda c: (image(c), np.arange(NB) * 1e-9, np.arange(NB) * num(c, 1e3, 2e3)),
                 lambda c, d, t, e: pp.post_process(d, t, e, num(c, 1.1e9, 3e9))),
        'fraction': (lambda c: (image(c), np.arange(NB) * 1e-9, np.arange(NB) * num(c, 1e3, 2e3)),
                     lambda c, d, t, e: pp.emittance_fractional(d, t, e, fraction=num(c, 20, 95))),
        'rms': (lambda c: (image(c),), lambda c, d: tg.rms_params(d, num(c, 1e-9, 2e-9), num(c, 1e3, 2e3))),
        'density': (lambda c: (image(c),), lambda c, d: tg.emittance_density_calc(d, 1e-9, num(c, 1e3, 2e3), num(c, .2, .9))),
        'matched': (lambda c: (), lambda c: tg.matched_area_calc(mach(c), num(c, 1e-7, 3e-7))),
        'late matched': (lambda c: (), lambda c: tg.matched_area_calc(mach(c), 2e-7, idx_frame=int(c) % NP)),
        'tangent': (lambda c: (np.arange(NB) * 1e-9, waterfall(c)[0]), lambda c, x, y: tg.foot_tangent_fit_dq(x, y, 1.0)),
        'back': (lambda c: (points(c) + NB * np.arange(NP, dtype=np.int32), waterfall(c).ravel()),
                 lambda c, f, w: libtomo.back_project(np.zeros(50), f.astype(np.int32), w, 50, NP)),
        'project': (lambda c: (points(c) + NB * np.arange(NP, dtype=np.int32), rs(c).uniform(0, 1, 50)),
                    lambda c, f, w: libtomo.project(np.zeros((NP, NB)), f.astype(np.int32), w, 50, NP, NB)),
        'multi': (lambda c: (waterfall(c), np.clip(points(c) - 4, 0, NB)), multi),
        'parse': (lambda c: (), parsed),
    }


FUNCTIONS = ['rebin', 'get_cuts', 'cut_waterfall', 'baseline', 'fit', 'load', 'filter_lost', 'ready', 'coords', 'image',
             'phase_space', 'picture', 'post', 'fraction', 'rms', 'density', 'matched', 'late matched', 'tangent', 'back',
             'project', 'multi', 'parse']


def evaluate(tag):
    """What a tag stands for, from nothing."""
    from longitudinal_tomography.data.profiles import Profiles
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.tracking.tracking import Tracking

    def machine(snap, cur):
        m = build(snap)
        for k in sorted(cur):
            if cur[k] != snap[k]:
                change(m, k, snap[k], cur[k])
        return m

    def prof(snap, cur, w):
        p = Profiles(machine(snap, cur), 1e-9, waterfall(w))
        return p, fields(p)

    what = tag[0]
    if what == 'programme':
        return programme(build(tag[1]))
    if what == 'area':
        return area(machine(tag[1], tag[2]))
    if what == 'fields':
        return prof(*tag[1:])[1]
    if what == 'track':
        precision(tag[3])
        t = Tracking(machine(tag[1], tag[2]))
        if tag[6]:
            t.enable_self_fields(prof(*tag[6][1:])[0])
        return track(t, tag[4], tag[5])
    if what == 'run':
        precision(tag[3])
        t = Tomography(waterfall(tag[1]), points(tag[2]))
        precision(tag[4])
        return run(t, tag[5], tag[6])
    precision(tag[3])
    args, fn = functions()[tag[1]]
    return fn(tag[2], *args(tag[2]))


# ------------------------------------------------------- the new processes
SERVER = None
KNOWN = {}


def recv(fd, n):
    b = b''
    while len(b) < n:
        d = os.read(fd, n - len(b))
        if not d:
            raise EOFError
        b += d
    return b


def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<I', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def get(fd):
    return pickle.loads(recv(fd, struct.unpack('<I', recv(fd, 4))[0]))


def setup():
    """A process that only ever forks: each of its children computes one result."""
    global SERVER
    import longitudinal_tomography.tomography.tomography         # noqa: F401
    import longitudinal_tomography.tracking.phase_space_info     # noqa: F401
    import longitudinal_tomography.tracking.programs_machine     # noqa: F401
    import longitudinal_tomography.tracking.tracking             # noqa: F401
    functions()
    a, b = os.pipe()
    c, d = os.pipe()
    if os.fork():
        os.close(a)
        os.close(d)
        SERVER = (b, c)
        return
    os.close(b)
    os.close(c)
    try:
        while True:
            tag = get(a)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    with quiet():
                        r = observed(*call(evaluate, tag))
                    send(d, r)
                    code = 0
                finally:
                    os._exit(code)
            if os.waitpid(pid, 0)[1]:
                send(d, dict(outcome='crashed', form=[], vals=[]))
    except EOFError:
        pass
    finally:
        os._exit(0)


def fresh(tag):
    key = json.dumps(tag, sort_keys=True)
    if key not in KNOWN:
        send(SERVER[0], tag)
        KNOWN[key] = get(SERVER[1])
    return KNOWN[key]


# ------------------------------------------------------------------ sessions
def gen(rng, tier, beh):
    b = [x['ops'] for x in beh['MC_Session']]
    rng.shuffle(b)
    b = b[:320] if tier == 'quick' else b[:3000]
    cases = [dict(kind='small', ops=b[k:k + 20], seed=rng.randrange(10 ** 6)) for k in range(0, len(b), 20)]
    n = 1 if tier == 'quick' else 10
    cases += [dict(kind='random', seed=rng.randrange(10 ** 6)) for _ in range(60 * n)]
    cases += [dict(kind='objects', seed=rng.randrange(10 ** 6)) for _ in range(20 * n)]
    cases += [dict(kind='functions', seed=rng.randrange(10 ** 6)) for _ in range(30 * n)]
    return cases


def settings(rng):
    import math
    if rng.random() < .7:
        a = gens.machine_kwargs(rng, nprofiles=NP, nbins=NB, dturns=DT)
        a = machine_args(**{k: v for k, v in a.items() if k != 'max_dt'})
        a['q'] = a.pop('charge')
        a['kind'] = 'machine'
        a['output_dir'] = '/tmp/'
    else:
        p0 = rng.uniform(.4e9, 1e9)
        er = .93827231e9
        T = 2 * math.pi * 25.0 / 299792458.0 * math.sqrt(1 + (er / p0) ** 2)
        a = dict(kind='programs', p0=p0, v1=rng.uniform(4e3, 8e3), v2=rng.uniform(0, 900), dturns=DT, nprofiles=NP, nbins=NB,
                 mean_orbit_rad=25.0, bending_rad=8.239, trans_gamma=4.1, rest_energy=er, harmonics=[1, 2], h_num=1,
                 dtbin=T * rng.uniform(.6, .9) / NB, t_ref=5.4 * T, phi12=rng.uniform(-.5, .5), synch_part_x=12.0, snpt=1,
                 demax=rng.choice([1e6, 2e6]), machine_ref_frame=0, beam_ref_frame=rng.randrange(NP),
                 full_pp_flag=False, filmstart=0, min_dt=0.0, q=1, g_coupling=.5, zwall_over_n=20.0, pickup_sensitivity=.36)
        a['max_dt'] = NB * a['dtbin']
    a['g_coupling'], a['zwall_over_n'] = 0.5, 20.0
    a['filmstop'] = NP
    a['factor'] = 1.0       # the voltages of the programme, changed by hand since it was computed
    a.pop('self_field_flag', None)
    return {k: repr(v) for k, v in a.items()}


def value(rng, cur, name):
    v = ast.literal_eval(cur[name])
    if name in ('filmstart', 'beam_ref_frame', 'machine_ref_frame'):
        return repr(rng.randrange(NP))
    if name == 'snpt':
        return repr(rng.choice([1, 2, 3]))
    if name in ('q', 'h_num'):
        return repr(rng.choice([1, 2]))
    if name == 'full_pp_flag':
        return repr(not v)
    if name == 'demax':
        return repr(rng.choice([-1e6, 8e5, 1.5e6]))
    if name == 'h_ratio':
        return repr(rng.choice([2.0, 3.0]))
    if name == 'min_dt':
        return repr(ast.literal_eval(cur['dtbin']) * rng.choice([0, 1, 3]))
    if name == 'max_dt':
        return repr(ast.literal_eval(cur['dtbin']) * rng.choice([NB, NB - 2]))
    if name == 'factor':
        return repr(rng.choice([1.0, 2.0, .5]))
    if name == 'phi12':
        return repr(rng.uniform(-.5, .5))
    if name == 'vrf2':
        return repr(ast.literal_eval(cur['vrf1']) * rng.uniform(.05, .3))
    if name == 'vrf1dot':
        return repr(rng.choice([0.0, 2e5, -2e5]))
    return repr(v * rng.uniform(.95, 1.05))


class Session:
    def __init__(self, rng):
        self.rng, self.ms, self.ts, self.ps, self.os, self.prec = rng, [], [], [], [], 'double'
        self.ops, self.seen, self.ended, self.bufs, self.fns = [], [], False, {}, functions()

    def do(self, op, **k):
        """Perform an operation and record it; indices count from zero here."""
        tag, fn = [], None
        rec = dict(op=op, **k)
        if op == 'build':
            s = rec['settings'] = settings(self.rng) if k['settings'] is None else k['settings']
            out, m = call(build, s)
            if out != 'ok':
                return False
            self.ms.append([m, dict(s), dict(s)])
        elif op == 'set':
            i = k['machine']
            m, snap, cur = self.ms[i]
            rec['machine'] = i + 1
            if k['name'] in 'ab':
                rec['name'] = self.rng.choice([n for n in (ARRAYS if k['name'] == 'a' else AREA) if n in cur])
                rec['value'] = value(self.rng, cur, rec['name'])
            change(m, rec['name'], cur[rec['name']], rec['value'])
            self.ms[i][2] = dict(cur, **{rec['name']: rec['value']})
        elif op in ('compute', 'area'):
            i = k['machine']
            rec['machine'] = i + 1
            m, snap, cur = self.ms[i]
            tag = ['programme', cur] if op == 'compute' else ['area', snap, cur]
            fn = (lambda: compute(m)) if op == 'compute' else (lambda: area(m))
            if op == 'compute':
                tag = ['programme', dict(cur, factor='1.0')]
                self.ms[i][1:] = tag[1], tag[1]
        elif op == 'precision':
            self.prec = k['value']
            precision(self.prec)
        elif op == 'tracker':
            from longitudinal_tomography.tracking.tracking import Tracking
            rec['machine'] = k['machine'] + 1
            out, t = call(Tracking, self.ms[k['machine']][0])
            if out != 'ok':
                return False
            self.ts.append([t, k['machine'], []])
        elif op == 'profiles':
            from longitudinal_tomography.data.profiles import Profiles
            rec['machine'] = k['machine'] + 1
            m, snap, cur = self.ms[k['machine']]
            p = Profiles(m, 1e-9, waterfall(k['w']))
            tag = ['fields', snap, cur, k['w']]
            self.ps.append([p, k['machine'], tag])
            fn = lambda: fields(p)
        elif op == 'refield':
            p, i, _ = self.ps[k['profiles']]
            rec['profiles'] = k['profiles'] + 1
            tag = ['fields', self.ms[i][1], self.ms[i][2], k['w']]
            self.ps[k['profiles']][2] = tag
            p.waterfall = waterfall(k['w'])
            fn = lambda: fields(p)
        elif op == 'enable':
            rec.update(tracker=k['tracker'] + 1, profiles=k['profiles'] + 1)
            p, i, t = self.ps[k['profiles']]
            if p.vself is None:
                return False
            self.ts[k['tracker']][0].enable_self_fields(p)
            self.ts[k['tracker']][2] = t
        elif op == 'track':
            t, i, f = self.ts[k['tracker']]
            rec['tracker'] = k['tracker'] + 1
            tag = ['track', self.ms[i][1], self.ms[i][2], self.prec, k['prof'], k['init'], f]
            fn = lambda: track(t, k['prof'], k['init'])
        elif op == 'tomo':
            from longitudinal_tomography.tomography.tomography import Tomography
            self.os.append([Tomography(waterfall(k['w']), points(k['x'])), k['w'], k['x'], self.prec])
        elif op == 'points':
            rec['tomo'] = k['tomo'] + 1
            self.os[k['tomo']][0].xp = points(k['x'])
            self.os[k['tomo']][2] = k['x']
        elif op == 'run':
            t, w, x, p = self.os[k['tomo']]
            rec['tomo'] = k['tomo'] + 1
            tag = ['run', w, x, p, self.prec, k['niter'], k['how']]
            fn = lambda: run(t, k['niter'], k['how'])
        elif op == 'call':
            tag = ['call', k['fn'], k['content'], self.prec]
            args, f = self.fns[k['fn']]
            a = args(k['content'])
            if self.rng.random() < .6:
                # the same arrays as before, holding other numbers
                old = self.bufs.setdefault(k['fn'], a)
                for o, n in zip(old, a):
                    o[...] = n
                a = old
            fn = lambda: f(k['content'], *a)
        ob = dict(outcome='', form=[], vals=[])
        if tag:
            ob = observed(*call(fn))
            if op in ('profiles', 'refield') and ob['outcome'] != 'ok':
                self.ps[k.get('profiles', -1)][0].vself = None
        self.ops.append(rec)
        self.seen.append(dict(ob, tag=tag))
        self.ended = op == 'compute' and ob['outcome'] != 'ok'     # a refused machine is not used further
        return not self.ended

    def record(self):
        import copy
        fr = [fresh(s['tag']) if s['tag'] else dict(outcome='', form=[], vals=[]) for s in self.seen]
        precision('double')
        return copy.deepcopy(dict(ops=self.ops, seen=self.seen, fresh=fr))


def from_model(rng, ops):
    s = Session(rng)
    first = settings(rng)
    tr = {'w1': rng.choice(['w1', 'w3']), 'x1': rng.choice(['x1', 'x3']), 'i1': rng.choice(['i1', 'i2'])}
    for o in ops:
        k = {a: b for a, b in o.items() if a != 'op'}
        for a in ('machine', 'tracker', 'profiles', 'tomo'):
            if a in k:
                k[a] -= 1
        for a in ('w', 'x', 'init'):
            if a in k:
                k[a] = tr.get(k[a], k[a])
        if o['op'] == 'build':
            # the second machine starts as the first one did, or elsewhere
            k['settings'] = first if not s.ms or rng.random() < .5 else None
        if o['op'] == 'track':
            k['prof'] = str(rng.randrange(NP - 1))
        if o['op'] == 'call':
            k.update(fn=rng.choice(FUNCTIONS) if 'fn' not in tr else tr['fn'], content={'c1': '1', 'c2': '2'}[k['content']])
            tr['fn'] = k['fn']
        if not s.do(o['op'], **k):
            break
    return s.record()


def at_random(rng):
    s = Session(rng)
    s.do('build', settings=None)
    for _ in range(rng.randint(20, 45)):
        if s.ended:
            break
        r, has = rng.random(), lambda q: len(q) > 0
        m = rng.randrange(len(s.ms)) if s.ms else None
        if m is None or (r < .06 and len(s.ms) < 3):
            s.do('build', settings=None if not s.ms or rng.random() < .5 else dict(s.ms[0][1]))
        elif r < .25:
            s.do('set', machine=m, name=rng.choice('ab'), value='')
        elif r < .35:
            s.do('compute', machine=m)
        elif r < .42:
            s.do('area', machine=m)
        elif r < .46:
            s.do('precision', value='double' if s.prec == 'single' else 'single')
        elif r < .53 or not has(s.ts):
            s.do('tracker', machine=m)
        elif r < .57:
            s.do('profiles', machine=m, w=rng.choice(['w1', 'w2', 'w3']))
        elif r < .60 and has(s.ps):
            s.do('refield', profiles=rng.randrange(len(s.ps)), w=rng.choice(['w1', 'w2', 'w3']))
        elif r < .64 and has(s.ps):
            s.do('enable', tracker=rng.randrange(len(s.ts)), profiles=rng.randrange(len(s.ps)))
        elif r < .82:
            i = rng.randrange(len(s.ts))
            s.do('track', tracker=i, prof=str(rng.randrange(NP - 1)), init=rng.choice(['auto', 'i1', 'i2']) if not s.ts[i][2] else 'auto')
        elif r < .86:
            s.do('tomo', w=rng.choice(['w1', 'w2', 'w3']), x=rng.choice(['x1', 'x2', 'x3']))
        elif has(s.os):
            i = rng.randrange(len(s.os))
            if r < .9:
                s.do('points', tomo=i, x=rng.choice(['x1', 'x2', 'x3']))
            else:
                s.do('run', tomo=i, niter=str(rng.randint(0, 3)), how=rng.choice(['run', 'run', 'hybrid']))
    return s.record()


def objects(rng):
    s = Session(rng)
    for k in range(24):
        r = rng.random()
        if k == 0 or r < .1:
            s.do('tomo', w=rng.choice(['w1', 'w2', 'w3']), x=rng.choice(['x1', 'x2', 'x3']))
        elif r < .4:
            s.do('points', tomo=rng.randrange(len(s.os)), x=rng.choice(['x1', 'x2', 'x3']))
        elif r < .45:
            s.do('precision', value='double' if s.prec == 'single' else 'single')
        else:
            s.do('run', tomo=rng.randrange(len(s.os)), niter=str(rng.randint(0, 3)), how=rng.choice(['run', 'hybrid']))
    return s.record()


def calls(rng):
    s = Session(rng)
    fns = rng.sample(FUNCTIONS, 3)
    for _ in range(16):
        if rng.random() < .1:
            s.do('precision', value='double' if s.prec == 'single' else 'single')
        s.do('call', fn=rng.choice(fns), content=str(rng.randint(1, 3)))
    return s.record()


def execute(case):
    import random
    rng = random.Random(case['seed'])
    with quiet():
        precision('double')
        if case['kind'] == 'small':
            return [from_model(rng, o) for o in case['ops']]
        return [dict(random=at_random, functions=calls, objects=objects)[case['kind']](rng)]
