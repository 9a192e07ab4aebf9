"""C15: parameter files."""
from harness.lib import R, RV, call, quiet
from harness import gens

TRACE = 'T_Input'
MODELS = []
ASSUMPTIONS = ['numbers are written the way Python reads numbers', 'one sample per line, no blank lines after the data',
               'at least two samples']
PARAM = [12, 14, 16, 18, 20, 22, 24, 26, 28, 31, 34, 36, 39, 41, 43, 45, 47, 49, 51, 53, 55, 57, 61, 63, 65, 67, 69,
         71, 73, 75, 77, 79, 81, 83, 85, 87, 91, 93, 95, 97]


def gen(rng, tier, beh):
    return [dict(seed=rng.randrange(10 ** 6)) for _ in range(60 if tier == 'quick' else 600)]


def number(rng, v):
    if isinstance(v, int):
        s = rng.choice(['%d', '%d', '%+d', '%03d']) % v
    else:
        s = rng.choice([repr(v), '%.17e' % v, '%.17E' % v, '%+.17e' % v])
    return rng.choice(['', '', ' ', '  ', '\t']) + s + rng.choice(['', '', ' ', ' \t'])


def values(rng, datapath, outdir):
    a = gens.machine_kwargs(rng)
    sl, se, skip = rng.randint(0, 5), rng.randint(0, 5), rng.randint(0, 3)
    nprof, nb = rng.randint(2, 6), rng.randint(4, 12)
    f0 = rng.randint(1, nprof)
    f1 = rng.randint(f0, nprof)
    v = {12: datapath, 14: outdir, 16: nprof + skip, 18: skip, 20: nb + sl + se, 22: rng.uniform(1e-9, 1e-8),
         24: rng.randint(1, 6), 26: sl, 28: se, 31: rng.randint(-1, 3), 34: rng.randint(-1, 3), 36: rng.randint(1, 4),
         39: rng.choice([-1.0, rng.uniform(0, nb)]), 41: rng.choice([-1e6, rng.uniform(1e5, 1e6)]),
         43: f0, 45: f1, 47: rng.randint(1, f1 - f0 + 1), 49: rng.randint(1, 50), 51: rng.randint(1, 6),
         53: rng.choice([0, 1, 1, 2]), 55: rng.randint(1, nprof), 57: rng.randint(1, nprof),
         61: a['vrf1'], 63: a['vrf1dot'], 65: a['vrf2'], 67: a['vrf2dot'], 69: float(a['h_num']), 71: a['h_ratio'],
         73: a['phi12'] or rng.uniform(-.5, .5), 75: a['b0'], 77: a['bdot'], 79: a['mean_orbit_rad'],
         81: a['bending_rad'], 83: a['trans_gamma'], 85: a['rest_energy'], 87: float(a['charge']),
         91: rng.choice([0, 1]), 93: rng.uniform(0, 3), 95: rng.uniform(0, 50), 97: rng.uniform(.1, 2)}
    return v


def machine_view(m):
    names = ['dtbin', 'dturns', 'synch_part_x', 'demax', 'filmstart', 'filmstop', 'filmstep', 'niter', 'snpt',
             'beam_ref_frame', 'machine_ref_frame', 'vrf1', 'vrf1dot', 'vrf2', 'vrf2dot', 'h_num', 'h_ratio', 'phi12',
             'b0', 'bdot', 'mean_orbit_rad', 'bending_rad', 'trans_gamma', 'e_rest', 'q', 'g_coupling', 'zwall_over_n',
             'pickup_sensitivity', 'nprofiles', 'nbins', 'min_dt', 'max_dt', 'synch_part_y']
    import numpy as np
    d = {}
    for n in names:
        x = getattr(m, n, None)
        try:
            d[n] = R(x) if np.ndim(x) == 0 else 'NaN'
        except (TypeError, ValueError):
            d[n] = 'NaN'
    for n in ('full_pp_flag', 'self_field_flag'):
        d[n] = 'true' if getattr(m, n) else 'false'
    d['output_dir'] = str(m.output_dir)
    return d


def frames_view(f):
    d = {n: R(getattr(f, n)) for n in ('nframes', 'skip_frames', 'nbins_frame', 'sampling_time', 'skip_bins_start',
                                       'skip_bins_end', 'rebin')}
    d['raw_data_path'] = str(f.raw_data_path)
    return d


def execute(case):
    import io
    import os
    import random
    import shutil
    import sys
    import tempfile
    from longitudinal_tomography.utils import tomo_input
    rng = random.Random(case['seed'])
    tmp = tempfile.mkdtemp()
    recs = []
    try:
        for _ in range(3):
            inline = rng.random() < .5
            dpath = 'pipe' if inline else os.path.join(tmp, rng.choice(['data.dat', 'a b.txt', 'raw', 'd.dat ', ' d.dat']))
            v = values(rng, dpath, rng.choice(['/tmp/', 'out dir', tmp, 'pipe/', 'out ', ' out/x']))
            v[39] = float(v[39])
            n = v[16] * v[20]
            words = ['', '!Input data file =', '# comment', '12', 'pipe', '-1.5 # x', 'Number of frames', '1e5', 'a\tb']
            lines = [rng.choice(words) for _ in range(98)]
            for k, x in v.items():
                lines[k] = x if isinstance(x, str) else number(rng, x)
            data = [rng.choice([rng.uniform(-1, 5), float(rng.randint(-9, 9)), rng.uniform(0, 1) * 1e-7]) for _ in range(n)]
            text = [number(rng, x) for x in data]
            if not inline:
                with open(dpath, 'w') as fh:
                    fh.write('\n'.join(text) + '\n')
            eol = rng.choice(['\n', '\n', '\r\n'])
            whole = eol.join(lines + (text if inline else [])) + eol
            path = os.path.join(tmp, 'in.dat')
            with open(path, 'w', newline='') as fh:
                fh.write(whole)
            vals = {str(k): (x if isinstance(x, str) else R(x)) for k, x in v.items()}

            def via(transport, content=whole, inpath=path):
                if transport == 'list':
                    given = [l + rng.choice(['', '\n', '\r\n']) for l in lines]
                    keep = list(given)
                    m, f = tomo_input.txt_input_to_machine(given)
                    return m, f, [], given == keep
                old = sys.stdin
                try:
                    if transport == 'stdin':
                        sys.stdin = io.TextIOWrapper(io.BytesIO(content.encode()))
                        p, raw = tomo_input.get_user_input(*rng.choice([('stdin',), ('',), ()]))
                    else:
                        p, raw = tomo_input.get_user_input(inpath)
                finally:
                    sys.stdin = old
                m, f = tomo_input.txt_input_to_machine(p)
                return m, f, list(raw), True

            for transport in ('list', 'file', 'stdin'):
                with quiet():
                    out, res = call(via, transport)
                rec = dict(kind='parse', transport=transport, vals=vals, outcome=out, data=RV(data), machine={},
                           frames={}, raw=[], unchanged=True)
                if out == 'ok':
                    m, f, raw, same = res
                    rec.update(machine=machine_view(m), frames=frames_view(f), raw=RV(raw), unchanged=bool(same))
                else:
                    rec['mro'] = res
                recs.append(rec)

            def err(what, want, fn):
                with quiet():
                    out, res = call(fn)
                recs.append(dict(kind='error', what=what, want=want, outcome=out, mro=[] if out == 'ok' else res))
            err('a missing input file', 'InputError', lambda: tomo_input.get_user_input(os.path.join(tmp, 'nothere')))
            err('a list of 97 lines', 'InputError', lambda: tomo_input.txt_input_to_machine(lines[:97]))
            err('a list of 99 lines', 'InputError', lambda: tomo_input.txt_input_to_machine(lines + ['']))
            err('no list', 'InputError', lambda: tomo_input.txt_input_to_machine(None))
            for change, what in ((text[:-1], 'one sample too few'), (text + ['1.0'], 'one sample too many'),
                                 (text[:1] * 2, 'far too few samples')):
                if len(change) == n:
                    continue
                if inline:
                    bad = os.path.join(tmp, 'bad.dat')
                    with open(bad, 'w') as fh:
                        fh.write('\n'.join(lines + change) + '\n')
                else:
                    bad = path
                    with open(dpath, 'w') as fh:
                        fh.write('\n'.join(change) + '\n')
                err(what, 'InputError', lambda: tomo_input.get_user_input(bad))
            if not inline:
                os.unlink(dpath)
                err('a missing data file', 'FileNotFoundError', lambda: tomo_input.get_user_input(path))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return recs
