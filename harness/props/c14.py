"""C14: profiles and their machine."""
from harness.lib import R, RV, RM, call, quiet, make_machine

TRACE = 'T_Frames'
MODELS = [dict(module='MC_Profiles', cfg='MC_Profiles.cfg', cfg_thorough='MC_Profiles_T.cfg', emit=True, workers=4),
          dict(module='MC_Frames', cfg='MC_Frames.cfg', cfg_thorough='MC_Frames_T.cfg', workers=4)]
ASSUMPTIONS = ['at least 20 samples per raw profile, so that the baseline has a sample',
               'waterfalls are given as two-dimensional arrays']
BATCH = 60
WA, WB = 9, 12


def gen(rng, tier, beh):
    hists = beh['MC_Profiles']
    hists = rng.sample(hists, min(len(hists), 1200 if tier == 'quick' else 15000))
    ops = ([dict(op='wf', arg=a) for a in ('A', 'B', 'N', 'scalar', 'count', 'zero', 'negative')]
           + [dict(op='charge', arg='')] * 3
           + [dict(op='self', arg=a) for a in ('default', 'infilter', 'fA', 'fAin', 'fB', 'fscalar', 'inscalar', 'inshape')])
    cases = []
    seqs = [dict(new=dict(w=h['new']['w'], charge=h['new']['charge']),
                 ops=[dict(op=o['op'], arg=o['arg']) for o in h['ops']]) for h in hists]
    for _ in range(60 if tier == 'quick' else 800):
        seqs.append(dict(new=dict(w=rng.choice('ABN'), charge=rng.choice(['none', 'given'])),
                         ops=[rng.choice(ops) for _ in range(rng.randint(5, 12))]))
    for k in range(0, len(seqs), BATCH):
        cases.append(dict(kind='history', seqs=seqs[k:k + BATCH], seed=rng.randrange(10 ** 6)))
    for _ in range(16 if tier == 'quick' else 150):
        cases.append(dict(kind='profiles', seed=rng.randrange(10 ** 6)))
    return cases


def execute(case):
    import random
    import numpy as np
    rng = random.Random(case['seed'])
    with quiet():
        return history(case, rng, np) if case['kind'] == 'history' else profiles(rng, np)


def matrix(rng, np, n, nb):
    return np.array([[rng.uniform(.1, 3) for _ in range(nb)] for _ in range(n)])


def history(case, rng, np):
    from longitudinal_tomography.data.profiles import Profiles
    n = 3
    vals = dict(A=matrix(rng, np, n, WA), B=matrix(rng, np, n, WB), N=matrix(rng, np, n, WA),
                fA=matrix(rng, np, n, WA) - 1, fB=matrix(rng, np, n, WB) - 1)
    for i in range(n):
        for j in rng.sample(range(WA), 4):
            vals['N'][i, j] = rng.choice([-1.0, -.5, 0.0])
    amp = rng.choice([1.0, 1e-15, 1e-7, 1e6])       # however the digitiser counts
    for k in 'ABN':
        vals[k] = vals[k] * amp
    given, sampling, pickup, ref = rng.uniform(1e9, 1e12), rng.uniform(1e-10, 1e-8), rng.uniform(.1, 2), rng.randrange(n)

    def machine():
        m = make_machine(nprofiles=n, nbins=33, dturns=rng.choice([1, 4]), beam_ref_frame=ref,
                         pickup_sensitivity=pickup, g_coupling=1.0, zwall_over_n=rng.choice([0.0, 20.0]))
        m.values_at_turns()
        return m
    other = dict(scalar=3, count=matrix(rng, np, n + rng.choice([-1, 1]), WB),
                 zero=np.zeros((n, WB)), negative=-amp * matrix(rng, np, n, WB))

    def infilter(w):
        w *= .5
        return w + 1

    recs = []
    common = dict(vals={k: RM(v) for k, v in vals.items()}, given=R(given), sampling=R(sampling),
                  pickup=R(pickup), ref=ref)
    for s in case['seqs']:
        m = machine()
        p = Profiles(m, sampling, vals[s['new']['w']].copy(), *([given] if s['new']['charge'] == 'given' else []))
        steps = []
        before = None
        for o in s['ops']:
            arg, intact = None, True
            if o['op'] == 'wf':
                v = vals.get(o['arg'], other.get(o['arg']))
                arg = v.copy() if hasattr(v, 'copy') else v
                keep = v

                def do():
                    p.waterfall = arg
            elif o['op'] == 'charge':
                do = p.calc_profilecharge
            elif o['arg'] == 'default':
                do = p.calc_self_fields
            elif o['arg'].startswith('in'):
                f = dict(infilter=infilter, inscalar=lambda w: 3, inshape=lambda w: w[:, :-1])[o['arg']]

                def do():
                    p.calc_self_fields(in_filter=f)
            else:
                keep = vals.get(o['arg'][:2], 3)
                arg = keep.copy() if hasattr(keep, 'copy') else keep

                def do():
                    p.calc_self_fields(filtered_profiles=arg, **(dict(in_filter=infilter) if o['arg'] == 'fAin' else {}))
            out, res = call(do)
            if hasattr(arg, 'shape'):
                intact = bool(np.array_equal(arg, keep))
            v = p.vself
            steps.append(dict(op=o['op'], arg=o['arg'], outcome=out, mro=[] if out == 'ok' else res,
                              nb=int(m.nbins), w=RM(p.waterfall),
                              charge='none' if p.profile_charge is None else R(p.profile_charge),
                              ds=[] if p.dsprofiles is None else RM(p.dsprofiles),
                              hasv=v is not None, vrows=0 if v is None else v.shape[0],
                              vcols=0 if v is None else v.shape[1], intact=intact,
                              vsame=(v is None and before is None) or
                                    (v is not None and before is not None and np.array_equal(v, before))))
            before = None if v is None else v.copy()
        nw = s['new']
        new = dict(w=nw['w'], nb=WB if nw['w'] == 'B' else WA, charge=nw['charge'], ds='none', vs='none')
        recs.append(dict(module='T_Profiles', kind='history', new=new, steps=steps, **common))
    for arg, want in (('A', 'ok'), ('B', 'ok'), ('N', 'ok'), ('scalar', 'WaterfallError'), ('count', 'WaterfallError'),
                      ('zero', 'WaterfallReducedToZero'), ('negative', 'WaterfallReducedToZero')):
        m = machine()
        v = vals.get(arg, other.get(arg))
        out, res = call(Profiles, m, sampling, v)
        recs.append(dict(module='T_Profiles', kind='new', want=want, outcome=out, mro=[] if out == 'ok' else res,
                         nb=int(m.nbins), wantnb=len(v[0]) if want == 'ok' else 33))
    return recs


def profiles(rng, np):
    from longitudinal_tomography.utils import tomo_input
    from longitudinal_tomography.data import data_treatment as dtreat
    import math
    recs = []
    for _ in range(6):
        n, nb = rng.choice([(rng.randint(2, 6), rng.randint(20, 90))] * 20 + [(120, 100), (4, 1000)])
        r = rng.choice([1, 1, 2, 3, 4, rng.randint(1, 10)])
        ref = rng.randrange(n)
        kind = rng.choice(['bunch', 'noise', 'int', 'bunch'])
        wf = np.zeros((n, nb))
        for i in range(n):
            c, w, off = rng.uniform(.3, .7) * nb, rng.uniform(.06, .2) * nb, rng.uniform(-.3, .3)
            for j in range(nb):
                wf[i, j] = 5 * math.exp(-((j - c) / w) ** 2) + off + rng.gauss(0, .02)
                if kind == 'noise':
                    wf[i, j] = rng.gauss(0, 1)
        if kind == 'bunch' and rng.random() < .3:
            wf = wf * rng.choice([1e-14, 1e-6, 1e7])
        if kind == 'int':
            wf = np.round(wf * 50).astype(int)
        sampling, pickup = rng.uniform(1e-10, 1e-8), rng.uniform(.1, 3)
        sx0 = rng.uniform(0, nb)
        m = make_machine(nprofiles=n, nbins=nb, dtbin=sampling, dturns=rng.choice([1, 5, 12]), synch_part_x=sx0,
                         beam_ref_frame=ref, machine_ref_frame=rng.randrange(n), pickup_sensitivity=pickup)
        m.values_at_turns()
        sxarg = rng.choice([None, rng.uniform(1, nb), 0.0])
        given = wf.copy()
        out, p = call(tomo_input.raw_data_to_profiles, given, m, r, sampling, *([] if sxarg is None else [sxarg]))
        rec = dict(kind='profiles', wf=RM(wf), ref=ref, r=r, sxarg='none' if sxarg is None else R(sxarg), sx0=R(sx0),
                   sampling=R(sampling), pickup=R(pickup), outcome=out, wfafter=RM(given), fit='none', got=[], mnbins=0,
                   mnprofs=0, msy='0', mdt='0', msx='0', psampling='0', charge='0')
        if out == 'ok':
            p.calc_profilecharge()
            rec.update(got=RM(p.waterfall), mnbins=int(m.nbins), msy=R(m.synch_part_y), mnprofs=int(m.nprofiles),
                       mdt=R(m.dtbin), msx=R(m.synch_part_x), psampling=R(p.sampling_time), charge=R(p.profile_charge))
            if kind == 'bunch' and p.waterfall.shape[1] >= 20:
                fo, fit = call(dtreat.fit_synch_part_x, p)
                if fo == 'ok':
                    m.load_fitted_synch_part_x_ftn(fit)
                    rec.update(fit=R(fit[0]), fitsx=R(m.synch_part_x), fitsx2=R(m.fitted_synch_part_x),
                               fitlow0=R(fit[1]), fitlow=R(m.bunchlimit_low), fitup0=R(fit[2]), fitup=R(m.bunchlimit_up))
        recs.append(rec)
    return recs
