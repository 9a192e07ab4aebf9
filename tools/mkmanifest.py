"""Writes MANIFEST.json from the property list and the property modules."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    try:
        m = importlib.import_module('harness.props.' + i.lower())
    except ModuleNotFoundError:
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    mods = sorted({x['module'] for x in getattr(m, 'MODELS', [])})
    trace = getattr(m, 'TRACES', None) or [m.TRACE]
    tech = 'TLA+ specification; ' + (
        'TLC model checking of %s, ' % ', '.join(mods) if mods else '') + \
        'TLC judges executions recorded from the real code (%s)' % ', '.join(trace)
    if any(x.get('emit') for x in getattr(m, 'MODELS', [])):
        tech += '; TLC-generated behaviours replayed into the code'
    note = ('Executions of the code built from the working tree are accepted or rejected by the TLA+ '
            'specification, clause by clause; coverage is the set of executions run, not all inputs. '
            'Assumes: ' + ('; '.join(m.ASSUMPTIONS) or 'nothing further') + '.')
    cmd = '/opt/venv/bin/python -m harness.check ' + i
    checks.append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': cmd + ' --tier thorough',
                   'evidence_file': 'evidence/%s.json' % i, 'technique': tech,
                   'level': getattr(m, 'LEVEL', 'model_checking'), 'level_note': note})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -m harness.setup', 'checks': checks,
           'not_applicable': na,
           'notes': 'TLA+/TLC. No hooks in /repo: the checks build the extension out of tree from the working tree.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
