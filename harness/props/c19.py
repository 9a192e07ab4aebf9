"""C19: progress callbacks that complete or raise, in any history."""
from harness.lib import RV, quiet, make_machine

TRACE = 'T_Callbacks'
MODELS = [dict(module='MC_Callbacks', cfg='MC_Callbacks.cfg', cfg_thorough='MC_Callbacks_T.cfg',
               emit=True, workers=4)]
ASSUMPTIONS = ['self-field tracking takes no callback (it is ignored there)']
LEVEL = 'fault_enumeration'
BATCH = 20


def gen(rng, tier, beh):
    hists = list(beh['MC_Callbacks'])
    if tier != 'quick':
        hists = rng.sample(hists, min(len(hists), 6000))
    # longer operations, longer histories
    for _ in range(60 if tier == 'quick' else 600):
        op = rng.choice(['run', 'multi', 'track'])
        h = []
        for _ in range(rng.randint(2, 5)):
            n = rng.randint(0, 2) if op == 'track' else rng.randint(0, 9)
            h.append(dict(op=op, n=n, fail=rng.choice([0, rng.randint(1, 4 if op == 'track' else n + 1)])))
        hists.append(h)
    rng.shuffle(hists)
    # many iterations and many turns
    long = []
    for k in range(6 if tier == 'quick' else 60):
        op = ['run', 'multi', 'track'][k % 3]
        n = rng.randint(0, 2) if op == 'track' else rng.choice([110, 205, 250, 420])
        long.append(dict(hists=[[dict(op=op, n=n, fail=rng.choice([0, rng.randint(1, 200)])), dict(op=op, n=n, fail=0)]],
                         seed=rng.randrange(10 ** 6), prec='double', nested=False, base=False, dturns=rng.choice([60, 130])))
    return long + [dict(hists=hists[k:k + BATCH], seed=rng.randrange(10 ** 6),
                 prec=rng.choice(['double', 'double', 'single']), nested=rng.random() < .3,
                 base=rng.random() < .3, off=rng.choice([0, 0, 0, 1, -1])) for k in range(0, len(hists), BATCH)]


def execute(case):
    import threading
    import numpy as np
    from longitudinal_tomography.utils import tomo_config as conf
    from longitudinal_tomography.tomography.tomography import Tomography as TS
    from longitudinal_tomography.tomography.tomography_multibunch import Tomography as TM
    from longitudinal_tomography.tracking.tracking import Tracking
    rs = np.random.RandomState(case['seed'])
    npf, nb, n, dt = 3, 12, 30, case.get('dturns', 2)
    turns = (npf - 1) * dt
    W = rs.uniform(.5, 1.5, (npf, nb))
    X = rs.randint(0, nb - 3, (n, npf)).astype(np.int32)
    m = make_machine(nprofiles=npf, nbins=nb, dturns=dt, dtbin=4e-8, synch_part_x=6.0, snpt=1)
    ph, en = rs.uniform(-1, 1, 6), rs.uniform(-2e5, 2e5, 6)

    class Stop(BaseException if case['base'] else Exception):
        pass

    def fresh(op):
        return TS(W.copy(), X.copy()) if op == 'run' else TM(W.copy(), X.copy()) if op == 'multi' else Tracking(m)

    def do(obj, op, k, cb):
        if op == 'run':
            w = obj.run(niter=k, callback=cb)
            return [RV(w), RV(obj.diff), RV(obj.recreated.ravel())]
        if op == 'multi':
            obj.run([0, 3], [0, 3], [nb - 3, nb], niter=k, callback=cb)
            return [RV(obj.weight_combined), RV(obj.diff), RV(obj.recreated.ravel())]
        x, y = obj.track(k % (npf - 1), init_distr=(ph, en), callback=cb,
                         **(dict(deltaturn=case['off'] if k % (npf - 1) else abs(case['off'])) if case.get('off') else {}))
        return [RV(x.ravel()), RV(y.ravel())]

    def stored(obj, op):
        w = obj.weight if op == 'run' else getattr(obj, 'weight_combined', None) if op == 'multi' else None
        if w is None:
            return []
        return [RV(w), RV(obj.diff), RV(obj.recreated.ravel())]

    recs = []
    with quiet():
        (conf.AppConfig.set_single_precision if case['prec'] == 'single'
         else conf.AppConfig.set_double_precision)()
        ref = {}
        for op in ('run', 'multi'):
            for k in set(range(10)) | {o['n'] for h in case['hists'] for o in h}:
                ref['%s/%d' % (op, k)] = do(fresh(op), op, k, None)
        for k in range(3):
            ref['track/%d' % k] = do(fresh('track'), 'track', k, None)
        for h in case['hists']:
            op = h[0]['op']
            obj, steps = fresh(op), []
            for o in h:
                calls, exc, threads = [], Stop('at %d' % o['fail']), set()

                def cb(i, t):
                    calls.append([int(i), int(t)])
                    threads.add(threading.get_ident() == threading.main_thread().ident)
                    if case['nested'] and len(calls) == 1:
                        TS(W.copy(), X.copy()).run(niter=2)
                    if len(calls) == o['fail']:
                        raise exc
                st = dict(op=op, n=o['n'], fail=o['fail'], raised=False, same=True, ret=[])
                try:
                    st['ret'] = do(obj, op, o['n'], cb)
                except BaseException as e:
                    st['raised'] = True
                    st['same'] = e is exc
                st.update(calls=calls, thread=threads <= {True}, stored=stored(obj, op))
                steps.append(st)
            recs.append(dict(turns=turns, ref=ref, steps=steps))
        conf.AppConfig.set_double_precision()
    return recs
