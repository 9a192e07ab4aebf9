"""C32: a machine holds the settings given to it and documented defaults for the rest."""
import copy

from harness.lib import R, call

TRACE = 'T_Settings'
MODELS = [dict(module='MC_Settings', cfg='MC_Settings.cfg', cfg_thorough='MC_Settings_T.cfg', emit=True, workers=2),
          dict(module='MC_Settings', cfg='MC_Settings_N.cfg', expect_violation=True, workers=2)]
ASSUMPTIONS = ['the settings of a programme-driven machine are looked at before its programmes are sampled (C26)']

VALUES = dict(
    demax=[-2e6, 3.5e5, 1e6], phi12=[.3, -.25, .75, 0.0], h_ratio=[2.0, 3.0, 0.5], synch_part_x=[12.5, 3.0, 17.0, 0.0], charge=[2, 1, 3],
    h_num=[2, 1, 8], g_coupling=[1.5, 0.0], zwall_over_n=[50.0, 0.0], min_dt=[1e-9, 2.5e-9], max_dt=[15e-9, 11e-9],
    self_field_flag=[True, False], full_pp_flag=[True, False], pickup_sensitivity=[.36, 1.0], machine_ref_frame=[2, 1, 0],
    beam_ref_frame=[1, 2, 0], snpt=[2, 1, 5], niter=[5, 1, 40], filmstart=[1, 2, 0], filmstop=[2, 1, 0], filmstep=[2, 1],
    output_dir=['/tmp/elsewhere'], vrf1dot=[100.0, -50.0], vrf2=[900.0, -400.0, 0.0], vrf2dot=[20.0, -5.0], bdot=[.25, -.1, 0.0])
CONSTANT_FIELD = ('vrf1dot', 'vrf2', 'vrf2dot', 'bdot')
ATTRIBUTE = dict(charge='q', rest_energy='e_rest')
PROGRAMME = ('time_at_turn', 'phi0', 'e0', 'beta0', 'deltaE0', 'eta0', 'drift_coef', 'omega_rev0', 'vrf1_at_turn', 'vrf2_at_turn')


def required(rng, kind):
    v = dict(dturns=rng.randint(1, 4), mean_orbit_rad=rng.choice([25.0, 100.0]), bending_rad=rng.choice([8.239, 70.0]),
             trans_gamma=rng.choice([4.1, 6.1]), rest_energy=rng.choice([.93827231e9, 2e9]), nprofiles=3, nbins=rng.choice([20, 31]),
             dtbin=rng.choice([1e-9, .5e-9]))
    if kind == 'machine':
        v.update(vrf1=rng.choice([2637.0, 8000.0]), b0=rng.choice([.15722, .6]))
    return v


def names(kind):
    return [n for n in VALUES if kind == 'machine' or n not in CONSTANT_FIELD]


def fill(rng, ops, group):
    """Values for the settings of a history; group: abstract setting -> names."""
    out, kinds = [], []
    for o in ops:
        if o['op'] == 'build':
            kind = o['kind']
            given = {n: rng.choice(VALUES[n]) for n in names(kind) if o['names'].get(group[n])}
            given.update(required(rng, kind))
            order = list(given)
            rng.shuffle(order)
            kinds.append(kind)
            out.append(dict(op='build', kind=kind, given=[[n, given[n]] for n in order]))
        else:
            kind = kinds[o['machine'] - 1]
            n = rng.choice([n for n in names(kind) if group[n] == o['name']] or ['snpt'])
            if rng.random() < .1:
                out.append(dict(op='set', machine=o['machine'], name='nbins', value=rng.choice([10, 25])))
            else:
                out.append(dict(op='set', machine=o['machine'], name=n, value=rng.choice(VALUES[n])))
    return out


def gen(rng, tier, beh):
    q = tier == 'quick'
    hs = [h['ops'] for h in beh['MC_Settings']]
    cases = []
    for h in rng.sample(hs, min(len(hs), 150 if q else 3000)):
        share = rng.random()
        cases.append(dict(ops=fill(rng, h, {n: 'a' if rng.random() < share else 'b' for n in VALUES})))
    # every setting on its own, and every one but it; then a machine given nothing
    for n in VALUES:
        for rest in (False, True):
            kind = 'machine' if n in CONSTANT_FIELD else rng.choice(['machine', 'programs'])
            group = {m: 'a' if m == n else 'b' for m in VALUES}
            h = [dict(op='build', kind=kind, names={'a': not rest, 'b': rest}), dict(op='build', kind=kind, names={})]
            cases.append(dict(ops=fill(rng, h, group)))
    return cases


def enc(v):
    return 'none' if v is None else v if isinstance(v, str) else R(v)


def settings(m, kind):
    out = {}
    for n in names(kind) + list(required_names(kind)) + ['synch_part_y']:
        v = getattr(m, ATTRIBUTE.get(n, n), 'missing')
        try:
            out[n] = enc(v)
        except TypeError:
            out[n] = 'not a number'
    return out


def required_names(kind):
    return ('dturns', 'mean_orbit_rad', 'bending_rad', 'trans_gamma', 'rest_energy', 'nprofiles', 'nbins', 'dtbin') + \
        (('vrf1', 'b0') if kind == 'machine' else ())


def build(kind, given, **more):
    import numpy as np
    if kind == 'machine':
        from longitudinal_tomography.tracking.machine import Machine
        return Machine(**given, **more)
    from longitudinal_tomography.tracking.programs_machine import ProgramsMachine
    return ProgramsMachine(voltage_function=np.array([[0.0, 1.0], [3000.0, 3000.0]]),
                           momentum_function=np.array([[0.0, 1.0], [4e8, 5e8]]), harmonics=[1], t_ref=.1, vat_now=False, **given)


def programme(m):
    return [[R(x) for x in getattr(m, n)] for n in PROGRAMME]


def execute(case):
    ms, seen, ops, late = [], [], [], []
    for o in case['ops']:
        if o['op'] == 'build':
            given = dict((n, v) for n, v in o['given'])
            keep = copy.deepcopy(given)
            more = dict(vat_now=False) if o['kind'] == 'machine' else {}
            out, m = call(build, o['kind'], given, **more)
            ops.append(dict(op='build', kind=o['kind'], given={n: enc(v) for n, v in keep.items()}))
            if out == 'ok':
                ms.append((m, o['kind']))
                if o['kind'] == 'machine':
                    before = all(getattr(m, n) is None for n in PROGRAMME)
                    full = {n: keep.get(n, getattr(m, ATTRIBUTE.get(n, n))) for n in list(VALUES) + list(required_names('machine'))}
                    a, b = call(m.values_at_turns), call(build, 'machine', full)
                    if b[0] == 'ok' or a[0] == 'ok':
                        late.append(dict(before=before, late=programme(m) if a[0] == 'ok' else [],
                                         full=programme(b[1]) if b[0] == 'ok' else []))
        else:
            m, kind = ms[o['machine'] - 1]
            setattr(m, ATTRIBUTE.get(o['name'], o['name']), o['value'])
            ops.append(dict(op='set', machine=o['machine'], name=o['name'], value=enc(o['value'])))
        seen.append([settings(m, k) for m, k in ms])
    return [dict(ops=ops, seen=seen, late=late)]
