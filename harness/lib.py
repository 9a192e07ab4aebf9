"""Helpers shared by the property modules (encoding, calls, generators)."""
import contextlib
import io
import math
import os
import sys


def R(x):
    """A real as the specification reads it."""
    x = float(x)
    if math.isnan(x):
        return 'NaN'
    if math.isinf(x):
        return 'Infinity' if x > 0 else '-Infinity'
    return repr(x)


def RV(a):
    return [R(x) for x in a]


def RM(a):
    return [[R(x) for x in row] for row in a]


def IV(a):
    return [int(x) for x in a]


def IM(a):
    return [[int(x) for x in row] for row in a]


@contextlib.contextmanager
def quiet():
    """Swallow Python-level and C++-level stdout."""
    sys.stdout.flush()
    saved = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    old = sys.stdout
    try:
        os.dup2(null, 1)
        sys.stdout = io.StringIO()
        yield
    finally:
        sys.stdout = old
        os.dup2(saved, 1)
        os.close(saved)
        os.close(null)


def call(fn, *a, **k):
    """(\"ok\", result) or (exception class name, [names of its bases])."""
    try:
        return 'ok', fn(*a, **k)
    except Exception as e:
        return 'error', [c.__name__ for c in type(e).__mro__]


def close(a, b, rel=1e-9, absol=0.0):
    return abs(a - b) <= max(absol, rel * max(abs(a), abs(b), 1e-300))


BASE_MACHINE = dict(
    output_dir='/tmp/', dtbin=1e-9, dturns=5, synch_part_x=334.0, demax=-1e6,
    filmstart=0, filmstop=0, filmstep=1, niter=20, snpt=4, full_pp_flag=False,
    beam_ref_frame=0, machine_ref_frame=0, vrf1=2637.197030932989, vrf1dot=0.0,
    vrf2=0.0, vrf2dot=0.0, h_num=1, h_ratio=2.0, phi12=0.4007821253666541,
    b0=0.15722, bdot=0.795, mean_orbit_rad=25.0, bending_rad=8.239,
    trans_gamma=4.1, rest_energy=0.93827231e9, charge=1, self_field_flag=False,
    g_coupling=0.0, zwall_over_n=0.0, pickup_sensitivity=0.36, nprofiles=150,
    nbins=760, min_dt=0.0, max_dt=760e-9)


def machine_args(**over):
    a = dict(BASE_MACHINE)
    a.update(over)
    if 'max_dt' not in over:
        a['max_dt'] = a['dtbin'] * a['nbins']
    return a


def make_machine(**over):
    from longitudinal_tomography.tracking.machine import Machine
    return Machine(**machine_args(**over))


LAYOUTS = ('C', 'C', 'F', 'strided', 'reversed', 'window', 'readonly', 'bigendian', 'list', 'narrow')


def laid(a, layout):
    """The same numbers as another kind of array (narrow: a smaller type, for integers only)."""
    import numpy as np
    a = np.array(a)
    if layout == 'F':
        return np.asfortranarray(a)
    if layout == 'strided':
        return np.repeat(a, 2, axis=-1)[..., ::2]
    if layout == 'reversed':
        return a[::-1].copy()[::-1]
    if layout == 'window':
        return np.pad(a, [(1, 2)] * a.ndim, constant_values=1)[tuple([slice(1, -2)] * a.ndim)]
    if layout == 'readonly':
        a.setflags(write=False)
    if layout == 'bigendian':
        return a.astype(a.dtype.newbyteorder('>'))
    if layout == 'list':
        return a.tolist()
    if layout == 'narrow' and a.dtype.kind == 'i':
        return a.astype(np.int16)
    return a


def layout_of(case, salt=0):
    """The layout a case is tried in: a function of the case."""
    import json
    import zlib
    return LAYOUTS[(zlib.crc32(json.dumps(case, sort_keys=True, default=str).encode()) + 7 * salt) % len(LAYOUTS)]
