"""Runs the code under test on cases; journals every case before and after."""
import importlib
import json
import os
import sys
import traceback


def bootstrap():
    """Make /repo's Python and the freshly built extension importable."""
    import importlib.util
    import types
    repo = os.environ['VERIF_REPO']
    sys.path.insert(0, repo)
    if not os.path.exists(os.path.join(repo, 'longitudinal_tomography', '_version.py')):
        v = types.ModuleType('longitudinal_tomography._version')
        v.version = v.__version__ = '3.4.1'
        v.version_tuple = v.__version_tuple__ = (3, 4, 1)
        sys.modules['longitudinal_tomography._version'] = v
    name = 'longitudinal_tomography.cpp_routines.libtomo'
    spec = importlib.util.spec_from_file_location(name, os.environ['VERIF_SO'])
    lib = importlib.util.module_from_spec(spec)
    sys.modules[name] = lib
    spec.loader.exec_module(lib)
    import longitudinal_tomography.cpp_routines as cr
    cr.libtomo = lib
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')


def main(argv):
    prop, inp, outp = argv[1:4]
    out = open(outp, 'w')

    def emit(rec):
        out.write(json.dumps(rec) + '\n')
        out.flush()

    with open(inp) as fh:
        cases = json.load(fh)
    try:
        mod = importlib.import_module('harness.props.' + prop.lower())
    except Exception:
        emit({'fatal': traceback.format_exc()})
        return 4
    try:
        bootstrap()
        if hasattr(mod, 'setup'):
            mod.setup()
        booted = None
    except Exception:
        booted = traceback.format_exc()
    for i, case in cases:
        emit({'begin': i})
        if booted is not None:
            emit({'case': i, 'crash': 'the library cannot be set up: '
                  + booted.strip().splitlines()[-1], 'log': booted[-1500:]})
            continue
        try:
            traces = mod.execute(case)
            if isinstance(traces, dict):
                traces = [traces]
            emit({'case': i, 'traces': traces})
        except Exception as e:
            emit({'case': i, 'crash': 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
                  'log': traceback.format_exc()[-2000:]})
    emit({'begin': None})
    out.close()
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))
