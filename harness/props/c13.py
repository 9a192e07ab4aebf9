"""C13: rebinning."""
from harness.lib import R, RM, call, quiet

TRACE = 'T_Frames'
MODELS = [dict(module='MC_Frames', cfg='MC_Frames.cfg', cfg_thorough='MC_Frames_T.cfg', emit=True, workers=4)]
ASSUMPTIONS = ['the factor does not exceed the number of samples per profile']
BATCH = 40


def gen(rng, tier, beh):
    pairs = [(b['n'], b['r']) for b in beh['MC_Frames'] if b['kind'] == 'rebin']
    for _ in range(250 if tier == 'quick' else 4000):
        n = rng.randint(1, 120)
        pairs.append((n, min(n, rng.choice([1, 2, 3, n, max(1, n - 1), rng.randint(1, n)]))))
    pairs += [(n, r) for n in (1000, 777, 512) for r in (1, 3, rng.randint(2, 40))]
    return [dict(pairs=pairs[k:k + BATCH], seed=rng.randrange(10 ** 6)) for k in range(0, len(pairs), BATCH)]


def execute(case):
    import random
    import numpy as np
    from longitudinal_tomography.data import data_treatment, pre_process
    rng = random.Random(case['seed'])
    recs = []
    for n, r in case['pairs']:
        m = rng.randint(1, 4) if n < 500 else rng.choice([2, 20])
        kind = rng.choice(['int', 'float', 'mixed', 'list', 'strided', 'fortran', 'uint8', 'int16', 'int32', 'float32'])
        if kind == 'float32' and n % r:
            kind = 'int16'          # the last bin is a mean, not exact in single precision
        if kind in ('uint8', 'int16', 'int32', 'float32'):   # samples as a digitiser stores them
            lo, hi = dict(uint8=(0, 255), int16=(-2000, 32767), int32=(-2 ** 20, 2 ** 31 - 1), float32=(-9, 65535))[kind]
            wf = [[rng.randint(lo, hi) for _ in range(n)] for _ in range(m)]
        elif kind == 'int':
            wf = [[rng.randint(-3, 50) for _ in range(n)] for _ in range(m)]
        else:
            s = 10.0 ** rng.randint(-6, 6)
            wf = [[s * rng.uniform(-1, 5) for _ in range(n)] for _ in range(m)]
        given = np.array(wf)
        if kind == 'list':
            given = wf
        elif kind in ('uint8', 'int16', 'int32', 'float32'):
            given = np.array(wf).astype(kind)
        elif kind == 'strided':
            given = np.repeat(np.array(wf), 2, axis=1)[:, ::2]
        elif kind == 'fortran':
            given = np.asfortranarray(wf)
        fn = rng.choice([data_treatment.rebin, pre_process.rebin])
        dt0 = rng.choice([None, 1e-9, rng.uniform(1e-10, 1e-6), 2])
        sx0 = rng.choice([None, rng.uniform(0, n), rng.randint(0, n), 0])
        kw = {}
        if dt0 is not None:
            kw['dtbin'] = dt0
        if sx0 is not None:
            kw['synch_part_x'] = sx0
        out, res = call(fn, given, r, **kw)
        rec = dict(kind='rebin', wf=RM(wf), r=r, hasdt=dt0 is not None, dt0=R(dt0 or 0),
                   hassx=sx0 is not None, sx0=R(sx0 or 0), dt='none', sx='absent', got=[])
        if out == 'ok':
            rec['got'] = RM(res[0])
            rec['dt'] = 'none' if res[1] is None else R(res[1])
            if len(res) > 2:
                rec['sx'] = R(res[2])
            rec['after'] = RM(given)
        recs.append(rec)
    return recs
