"""C11: histories of assignments and runs on a tomography object."""
from harness.lib import R, RV, RM, IM, call, quiet

TRACE = 'T_TomoObject'
MODELS = [dict(module='MC_TomoObject', cfg='MC_TomoObject.cfg', cfg_thorough='MC_TomoObject_T.cfg',
               emit=True, workers=4)]
ASSUMPTIONS = ['coordinates are given as arrays', 'no profile of the waterfall is empty']
BATCH = 100
XARGS = ['a', 'b', 'f', 'z', 'none', 'dim1', 'dim3', 'prof', 'neg', 'over', 'scalar']


def gen(rng, tier, beh):
    hists = beh['MC_TomoObject']
    if tier == 'quick':
        # all pairs are covered by the sampled triples and the walks
        hists = rng.sample(hists, 1500)
    else:
        hists = rng.sample(hists, min(len(hists), 20000))
    ops = ([('x', v) for v in XARGS] + [('x', 'a'), ('x', 'b')] * 2 +
           [('y', v) for v in ('ya', 'yb', 'none', 'scalar', 'yturned')] * 2 +
           [('run', '1'), ('run', '3'), ('hybrid', '2')] * 2)
    walks = []
    for _ in range(150 if tier == 'quick' else 3000):
        x, walk = 'none', []
        for _ in range(rng.randint(5, 14)):
            o, v = rng.choice(ops)
            if o == 'hybrid' and x == 'z':
                continue
            walk.append(dict(op=o, arg=v))
            if o == 'x' and v in ('a', 'b', 'f', 'z', 'none'):
                x = v
        walks.append(walk)
    allh = hists + walks
    cases = []
    for k in range(0, len(allh), BATCH):
        cases.append(dict(hists=allh[k:k + BATCH], seed=rng.randrange(10 ** 6),
                          cls=rng.choice(['single', 'single', 'multi'])))
    return cases


def execute(case):
    import numpy as np
    from longitudinal_tomography.tomography.tomography import Tomography as TS
    from longitudinal_tomography.tomography.tomography_multibunch import Tomography as TM
    rs = np.random.RandomState(case['seed'])
    npf, nb = 4, 6
    W = rs.uniform(.2, 2, (npf, nb))
    W[:, nb - 1] = rs.choice([0.0, -.3], npf)
    W[0, 1] = -.5
    base = dict(a=rs.randint(0, nb - 1, (3, npf)), b=rs.randint(0, nb - 1, (5, npf)),
                f=rs.uniform(0, nb - 1, (3, npf)), z=np.full((3, npf), nb - 1),
                ya=rs.randint(-5, 50, (3, npf)), yb=rs.randint(-5, 50, (5, npf)))
    base['yturned'] = base['ya'].T.copy()     # profiles by particles: as many values, another shape
    # particles spread over the measured bins, so that weights survive
    base['a'][0] = W[:, :nb - 1].argmax(axis=1)
    base['b'][0] = base['a'][0]
    base['f'][0] = base['a'][0] + .5
    base['f'][1, 0] = 0.0
    base['f'][2, 0] = 4.999999
    base['f'][1, 1] = nb - .5        # the last bin reaches up to the width
    base.update(none=None, dim1=base['a'][0], dim3=base['a'][:, :, None], prof=base['a'][:, :-1],
                neg=base['a'].astype(float), over=base['a'].astype(float), scalar=3)
    base['neg'][1, 2] = rs.choice([-1, -.25, -1e-9])
    base['over'][2, 3] = nb + rs.choice([0, .5])
    multi = case['cls'] == 'multi'
    cls = TM if multi else TS

    def given(v):
        if not hasattr(v, 'copy'):
            return v
        v = np.ascontiguousarray(v)
        if v.dtype.kind == 'i':
            return v.astype(rs.choice([np.int32, np.int64, np.float64]))
        return v.copy()

    def spoil(v):
        """The object keeps a copy: what becomes of the caller's array is not its business."""
        if hasattr(v, 'copy') and rs.rand() < .5:
            v[...] = 0

    def make():
        w = W.copy()
        t = cls(w)
        w[...] = 7
        return t

    def do(t, op, arg):
        if op == 'x':
            v = given(base[arg])
            try:
                t.xp = v
            finally:
                spoil(v)
        elif op == 'y':
            v = given(base[arg])
            try:
                t.yp = v
            finally:
                spoil(v)
        elif op == 'run':
            return t.run([0], [0], [nb], niter=int(arg)) if multi else t.run(niter=int(arg))
        else:
            return t.run_hybrid([0], [[-1, nb]], niter=int(arg)) if multi else t.run_hybrid(niter=int(arg))

    def weight(t):
        w = t.weight_combined if multi else t.weight
        return [] if w is None else RV(w)

    def look(t):
        return dict(x=[] if t.xp is None else IM(t.xp), y=[] if t.yp is None else IM(t.yp),
                    nparts=-1 if t.nparts is None else int(t.nparts), water=RM(t.waterfall),
                    w=weight(t), d=[] if t.diff is None else RV(t.diff), rec=RM(t.recreated))

    runs = {}
    with quiet():
        for x in ('a', 'b', 'f'):
            for op, n in (('run', '1'), ('run', '3'), ('hybrid', '2')):
                t = make()
                do(t, 'x', x)
                out, res = call(do, t, op, n)
                if out != 'ok':
                    # the weights died: choose another set of coordinates
                    return execute(dict(case, seed=case['seed'] + 1000003))
                runs['%s/%s/%s' % (x, op + ('m' if multi and op == 'hybrid' else ''), n)] = dict(
                    w=weight(t) if op == 'run' or multi else [], d=RV(t.diff), r=RM(t.recreated))
    vals = {k: IM(base[k].astype(int)) for k in ('a', 'b', 'f', 'z', 'ya', 'yb')}
    recs = []
    with quiet():
        for h in case['hists']:
            t = make()
            if multi and not hasattr(t, 'weight_combined'):
                t.weight_combined = None
            steps = []
            for o in h:
                out, res = call(do, t, o['op'], o['arg'])
                st = dict(op=o['op'] + ('m' if multi and o['op'] == 'hybrid' else ''), arg=o['arg'], outcome=out, mro=[] if out == 'ok' else res)
                st.update(look(t))
                steps.append(st)
            recs.append(dict(kind='history', vals=vals, runs=runs, meas=RM(W), steps=steps,
                             **{'class': case['cls']}))
    # constructors
    for args, want in (((W, None, None), 'ok'), ((W, base['a'], None), 'ok'),
                       ((W, base['a'], base['ya']), 'ok'), ((W, None, base['ya']), 'CoordinateImportError'),
                       ((W, base['a'], base['yb']), 'CoordinateImportError'), ((W, base['a'], base['yturned']), 'CoordinateImportError'),
                       ((W, base['neg'], None), 'XPOutOfImageWidthError'),
                       ((W, base['prof'], None), 'CoordinateImportError'),
                       ((np.zeros((2, 3)), None, None), 'WaterfallReducedToZero'),
                       ((-np.ones((2, 3)), None, None), 'WaterfallReducedToZero')):
        out, res = call(cls, *args)
        recs.append(dict(kind='new', want=want, outcome=out, mro=[] if out == 'ok' else res))
    return recs
