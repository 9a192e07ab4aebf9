"""C34: a call gives back what it took, however it ends; what it handed out stays as it is."""
import ctypes
import gc
import hashlib
import os
import random
import shutil
import sys
from harness import core
from harness.lib import quiet, machine_args
from harness.props import c33

TRACE = 'T_Memory'
MODELS = [dict(module='MC_Memory', cfg='MC_Memory.cfg', cfg_thorough='MC_Memory_T.cfg', emit=True, workers=4)] + \
         [dict(module='MC_Memory', cfg='MC_Memory_N%d.cfg' % k, expect_violation=True, workers=1) for k in (1, 2, 3, 4)]
ASSUMPTIONS = ['memory in use is what the C allocator and the Python allocator report (arenas kept for later use are not in use)',
               'what a process takes once (thread pools, caches of a fixed size) is not a loss: the least growth of several batches counts']
OMP = 2
REPS, BATCHES = 6, 3
N, P, B = 2500, 6, 80
TMP = None


class Stop(Exception):
    pass


class Nowhere:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in
                'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]


LIBC = ctypes.CDLL('libc.so.6')
LIBC.mallinfo2.restype = Info


def live():
    gc.collect()
    m = LIBC.mallinfo2()
    return m.uordblks + m.hblkhd


def now():
    b = live()
    return b, sys.getallocatedblocks(), len(os.listdir('/proc/self/fd'))


def arrays(x):
    """The arrays a result consists of, and the size of the memory they keep."""
    import numpy as np
    seen, out, own = set(), [], {}

    def walk(y, depth):
        if id(y) in seen or depth > 6:
            return
        seen.add(id(y))
        if isinstance(y, np.ndarray):
            out.append(y)
            b = y
            while isinstance(b.base, np.ndarray):
                b = b.base
            own[b.__array_interface__['data'][0]] = b.nbytes
        elif isinstance(y, dict):
            for v in y.values():
                walk(v, depth + 1)
        elif isinstance(y, (tuple, list)):
            for v in y:
                walk(v, depth + 1)
        elif type(y).__module__.startswith('longitudinal_tomography') and hasattr(y, '__dict__'):
            walk(vars(y), depth + 1)
    walk(x, 0)
    return out, sum(own.values())


def digest(x):
    import numpy as np
    h = hashlib.sha256()
    for a in arrays(x)[0]:
        h.update(str((a.shape, a.dtype)).encode() + np.ascontiguousarray(a).tobytes())
    return h.hexdigest()


def stopping(at):
    def f(i, n):
        f.n += 1
        if f.n > at:
            raise Stop
    f.n = 0
    return f


def operations():
    """name -> (endings, fn(rng, ending)).  A call that is cut stops at the callback."""
    import numpy as np
    from longitudinal_tomography.compat import fortran, tomoscope
    from longitudinal_tomography.cpp_routines import libtomo
    from longitudinal_tomography.data import pre_process as pre
    from longitudinal_tomography.data.profiles import Profiles
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.tomography.tomography_multibunch import Tomography as Multi
    from longitudinal_tomography.tracking.machine import Machine
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.utils import tomo_config as conf, tomo_input as ti

    r0 = np.random.RandomState(5)
    xp = r0.randint(0, B, (N, P)).astype(np.int32)
    wf = np.array([np.bincount(xp[:, j], minlength=B) for j in range(P)]).astype(float)
    en, ph = r0.uniform(-3e5, 3e5, N), r0.uniform(-1, 1, N)
    dt, nt = 3, 3 * (P - 1)

    def mach(**k):
        m = Machine(**machine_args(nprofiles=P, nbins=B, dturns=dt, dtbin=1e-8, synch_part_x=B / 2, snpt=1, vrf1=6000., b0=.157, **k))
        m.values_at_turns()
        return m

    def some(rng):
        """The particles seen from another profile on, and their profiles."""
        k, s = rng.randrange(P), rng.randrange(B)
        return (np.ascontiguousarray((np.roll(xp, k, axis=1) + s) % B).astype(np.int32),
                np.ascontiguousarray(np.roll(wf, (k, s), axis=(0, 1))) * rng.uniform(.9, 1.1))

    def cb(rng, ends, most):
        return stopping(rng.randrange(most)) if ends == 'cut' else rng.choice([None, lambda i, n: None])

    def rec(ft):
        def f(rng, ends):
            x, w = some(rng)
            w = (w / N * (ends != 'refused')).astype(ft)
            return libtomo.reconstruct(x, w, 3, B, N, P, False, cb(rng, ends, 3))
        return f

    def rec_multi(ft):
        i = lambda *a: np.array(a, dtype=np.int32)
        def f(rng, ends):
            x, w = some(rng)
            w = (w / N * (ends != 'refused')).astype(ft)
            return libtomo.reconstruct_multi(x // 2, w, i(0, B // 2), i(B // 2, B), i(0, B // 2), 3, B, N, P, 2, False, cb(rng, ends, 3))
        return f

    def kd(ft, arr):
        o = np.ones(nt + 1, dtype=ft)
        def f(rng, ends):
            x, y = np.zeros((P, N), dtype=ft), np.zeros((P, N), dtype=ft)
            if ends == 'refused':
                return libtomo.kick_and_drift(x, y, None, None)
            r = rng.randrange(P)
            return libtomo.kick_and_drift(x, y, en.astype(ft), ph.astype(ft), o, o, o, o, o, o if arr else 0.5, 1.0, dt, r, 0, nt, N,
                                          False, cb(rng, ends, P - 1))
        return f

    def image(rng, ends):
        q = some(rng)[0]
        x = q[:, 0] + (B if ends == 'refused' else 0)
        return conf.make_phase_space(x, q[:, 1].copy(), np.ones(N), B)

    def tomo(rng, ends):
        x, w = some(rng)
        t = Tomography(w, None if ends == 'refused' else x)
        t.run(niter=3, callback=cb(rng, ends, 3))
        return t

    def hybrid(rng, ends):
        x, w = some(rng)
        t = Tomography(w, None if ends == 'refused' else x)
        return t.run_hybrid(niter=2), t

    def multi(rng, ends):
        x, w = some(rng)
        t = Multi(w, None if ends == 'refused' else x // 2)
        t.run([0, B // 2], [0, B // 2], [B // 2, B], niter=2)
        return t

    def track(auto):
        def f(rng, ends):
            t = Tracking(mach())
            d = None if auto else (ph, en)
            return t.track(P + 7 if ends == 'refused' else rng.randrange(P - 1), init_distr=d, callback=cb(rng, ends, P - 1))
        return f

    def fields(rng):
        p = Profiles(mach(g_coupling=1., zwall_over_n=10., pickup_sensitivity=.36), 1e-9, some(rng)[1] * 1e8)
        p.calc_profilecharge()
        p.calc_self_fields()
        return p

    def self_track(rng, ends):
        p = fields(rng)
        t = Tracking(p.machine)
        t.enable_self_fields(p)
        return t.track(P + 7 if ends == 'refused' else rng.randrange(P - 1))

    def profiles(rng, ends):
        p = fields(rng)
        if ends == 'refused':
            p.waterfall = 'none'
        return p

    def bad_machine(rng, ends):
        if ends == 'refused':
            return mach(filmstep=0)
        return mach()

    def file(rng, ends):
        path = os.path.join(TMP, 'in%d.dat' % (ends == 'done'))
        if not os.path.exists(path):
            text = c33_lines(random.Random(1))
            raw = os.path.join(TMP, 'raw.dat')
            np.savetxt(raw, np.arange(300.0))
            text[12] = raw + '\n'
            with open(path, 'w') as fh:
                fh.writelines(text if ends == 'done' else text[:40])
        p, raw = ti.get_user_input(path)
        return ti.txt_input_to_machine(p), raw

    def save(rng, ends):
        d = TMP if ends == 'done' else os.path.join(TMP, 'nothere')
        d += '/'
        fortran.save_profile(wf, 1, d)
        fortran.save_phase_space(np.ones((B, B)), 1, d)
        fortran.save_difference(np.ones(4), d, 1)
        tomoscope.save_profile(wf[0], 1, d)
        tomoscope.save_image(xp, xp, np.ones(N), B, 1, d)

    def frames(rng, ends):
        f = ti.Frames(framecount=P, framelength=B, skip_frames=0, skip_bins_start=2, skip_bins_end=1,
                      rebin=1, dtbin=1e-9)
        return f.to_waterfall(rng.random() + np.arange(float(P * B - (ends == 'refused'))))

    def rebin(rng, ends):
        return pre.rebin(some(rng)[1], 3 if ends == 'done' else 0, 1e-9, 4.0)

    out = {'reconstruct': (2, rec(float)), 'reconstruct single': (2, rec(np.float32)),
           'reconstruct multi': (2, rec_multi(float)), 'reconstruct multi single': (2, rec_multi(np.float32)),
           'kick and drift': (2, kd(float, True)), 'kick and drift scalar': (2, kd(float, False)),
           'kick and drift single': (2, kd(np.float32, True)), 'image': (1, image), 'tomography': (2, tomo), 'hybrid': (1, hybrid),
           'multi bunch': (1, multi), 'track': (2, track(False)), 'track automatically': (2, track(True)),
           'track with fields': (1, self_track), 'profiles': (1, profiles), 'machine': (1, bad_machine), 'read files': (1, file),
           'save': (1, save), 'frames': (1, frames), 'rebin': (1, rebin)}
    for k, (args, fn) in c33.functions().items():
        def g(rng, ends, args=args, fn=fn):
            c = str(rng.randint(1, 10 ** 6))
            a = args(c)
            return fn(c, *a) if ends == 'done' else fn(c, *[None for _ in a], *([] if a else [None]))
        out['small ' + k] = (1, g)
    return out


def c33_lines(rng):
    a = ['comment\n'] * 98
    a[14] = '/tmp/\n'
    for k, v in {16: 5, 18: 0, 20: 60, 22: 1e-9, 24: 3, 26: 1, 28: 2, 31: 0, 34: 0, 36: 1, 39: 20., 41: -1e6, 43: 1, 45: 3, 47: 1,
                 49: 20, 51: 4, 53: 0, 55: 1, 57: 1, 61: 6e3, 63: 0., 65: 0., 67: 0., 69: 1., 71: 2., 73: .4, 75: .157, 77: .795,
                 79: 25., 81: 8.239, 83: 4.1, 85: .938e9, 87: 1., 91: 0, 93: 0., 95: 0., 97: .36}.items():
        a[k] = f'{v}\n'
    return a


FIRST = ['reconstruct', 'reconstruct single', 'reconstruct multi', 'reconstruct multi single', 'kick and drift',
         'kick and drift scalar', 'kick and drift single', 'tomography', 'track', 'track automatically']
REST = ['image', 'hybrid', 'multi bunch', 'track with fields', 'profiles', 'machine', 'read files', 'save', 'frames', 'rebin']


def gen(rng, tier, beh):
    b = sorted({str(x['ops']): x['ops'] for x in beh['MC_Memory']}.items())
    b = [v for _, v in b]
    # for every function: two results kept, a call that ends early, and the first one dropped
    two = [o for o in b if [(x['op'], x.get('keep')) for x in o[:2]] == [('call', True)] * 2 and o[-1] == dict(op='drop', which=1)
           and o[2]['op'] == 'call' and o[2]['ends'] != 'done']
    rng.shuffle(b)
    b = b[:60] if tier == 'quick' else b[:1200]
    names = FIRST * 2 + REST + ['small ' + f for f in c33.FUNCTIONS]
    cases, turn = [], 0
    each = FIRST + REST + ['small ' + f for f in c33.FUNCTIONS]
    for k in range(0, len(each), 4):
        cases.append(dict(seed=rng.randrange(10 ** 6),
                          histories=[dict(ops=rng.choice(two), fns=[n] * 4) for n in each[k:k + 4]]))
    for k in range(0, len(b), 5):
        hs = []
        for ops in b[k:k + 5]:
            if rng.random() < .5:
                # the same function throughout
                fns, turn = [names[turn % len(names)]] * len(ops), turn + 1
            else:
                fns = [names[(turn + j) % len(names)] for j in range(len(ops))]
                turn += len(ops)
            hs.append(dict(ops=ops, fns=fns))
        cases.append(dict(histories=hs, seed=rng.randrange(10 ** 6)))
    return cases


def attempt(f, rng, ends):
    try:
        return 'done', f(rng, ends)
    except Stop:
        return 'cut', None
    except Exception:
        return 'refused', None


def history(rng, h, table):
    ops, fns = [], []
    for o, name in zip(h['ops'], h['fns']):
        o = dict(o)
        if o['op'] == 'call' and o['ends'] == 'cut' and table[name][0] < 2:
            o['ends'] = 'refused'
        ops.append(o)
        fns.append(name)
    for o, name in zip(ops, fns):                   # what is taken once
        for ends in ('refused', 'done') if o['op'] == 'call' else ():
            attempt(table[name][1], rng, ends)
    held, got, gone = {}, [], set()
    start = now()[0]
    said = []
    for k, (o, name) in enumerate(zip(ops, fns), 1):
        g = dict(bytes=0, objects=0, files=0, size=0, live=0, held=[])
        if o['op'] == 'drop':
            # the kept call meant may have ended otherwise
            if o['which'] in held:
                del held[o['which']]
        else:
            f, best, end = table[name][1], None, None
            for n in range(4 * BATCHES):
                if n >= BATCHES and best[0] < 16 * REPS and best[1] < 3 * REPS and best[2] <= 0:
                    break
                a = now()
                for _ in range(REPS):
                    attempt(f, rng, o['ends'])
                z = now()
                d = [y - x for x, y in zip(a, z)]
                best = d if best is None else [min(x, y) for x, y in zip(best, d)]
            g['bytes'], g['objects'], g['files'] = best
            end, res = attempt(f, rng, o['ends'])
            o['ends'], o['fn'] = end, name
            if end == 'done' and o['keep']:
                g['size'] = arrays(res)[1]
                held[k] = (res, digest(res))
            del res
        got.append(g)
        g['live'] = now()[0] - start
        g['held'] = [[j, digest(r) == d] for j, (r, d) in sorted(held.items())]
    return dict(ops=ops, got=got, reps=REPS)


def execute(case):
    global TMP
    rng = random.Random(case['seed'])
    TMP = core.scratch('memory-')
    try:
        with quiet():
            sys.stdout = Nowhere()
            table = operations()
            return [history(rng, h, table) for h in case['histories']]
    finally:
        shutil.rmtree(TMP, ignore_errors=True)
