"""Common machinery of the checks.

A check (`python -m harness.check C01`) does:
  1. build the C++ extension from /repo's current sources, out of tree;
     meanwhile run the design models of the property under TLC;
  2. run the code under test on the cases of the property, in worker
     processes, recording what it did (harness/worker.py);
  3. let TLC decide each recorded execution against the TLA+ specification
     (spec/T_*.tla); every execution gets a verdict that names a clause;
  4. compare with known_findings.json, write evidence, print the outcome.
"""
import concurrent.futures as cf
import hashlib
import importlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
CACHE = os.path.join(VERIF, '.cache')
SPEC = os.path.join(VERIF, 'spec')
TLA_JAR = '/opt/veriftools/tla/tla2tools.jar'
TLA_CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
    pass


def clean_env(**extra):
    env = {k: v for k, v in os.environ.items()
           if k not in ('PYTHONPATH', 'PYTHONHOME', 'CC', 'CXX', 'CFLAGS',
                        'CXXFLAGS', 'LDFLAGS')}
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PYTHONNOUSERSITE='1', MPLBACKEND='Agg', LANG='C.UTF-8',
               SETUPTOOLS_SCM_PRETEND_VERSION='3.4.1',
               OPENBLAS_NUM_THREADS='1', VERIF_REPO=REPO)
    env.update({k: str(v) for k, v in extra.items()})
    return env


def scratch(prefix):
    os.makedirs(CACHE, exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix, dir=CACHE)


# --------------------------------------------------------------------------
# The extension, built from the working tree, out of tree.

def _source_key():
    h = hashlib.sha256()
    cpp = os.path.join(REPO, 'longitudinal_tomography', 'cpp_routines')
    names = [os.path.join(REPO, 'setup.py'), os.path.join(REPO, 'pyproject.toml')]
    for root, dirs, files in os.walk(cpp):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.cpp', '.h', '.hpp', '.cc', '.cu')):
                names.append(os.path.join(root, f))
    for n in names:
        if os.path.exists(n):
            h.update(os.path.relpath(n, REPO).encode() + b'\0')
            with open(n, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]


def build_extension(variant=''):
    """Path of the shared object built from REPO's current sources.

    The variant 'trace' is compiled for, and linked with, the recording
    runtime harness/native/omptrace.cpp instead of OpenMP's.
    """
    key = _source_key()
    native = os.path.join(VERIF, 'harness', 'native')
    env = clean_env()
    if variant:
        h = hashlib.sha256()
        for f in ('omptrace.cpp', 'cxx-trace.sh'):
            with open(os.path.join(native, f), 'rb') as fh:
                h.update(fh.read())
        key += '-' + variant + h.hexdigest()[:8]
    outdir = os.path.join(CACHE, 'ext', key)
    so = os.path.join(outdir, 'libtomo.so')
    if os.path.exists(so):
        return so
    tmp = scratch('build-')
    try:
        if variant:
            runtime = os.path.join(tmp, 'omptrace.o')
            r = subprocess.run(['g++', '-O2', '-std=c++17', '-fPIC', '-c',
                                os.path.join(native, 'omptrace.cpp'), '-o', runtime],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise MachineryError('omptrace: ' + r.stdout.decode()[-2000:])
            wrapper = os.path.join(native, 'cxx-trace.sh')
            env.update(CC=wrapper, CXX=wrapper, VT_RUNTIME=runtime,
                       LDSHARED=wrapper + ' -shared', LDCXXSHARED=wrapper + ' -shared')
        pkg = os.path.join(tmp, 'src', 'longitudinal_tomography', 'cpp_routines')
        os.makedirs(os.path.dirname(pkg))
        shutil.copytree(
            os.path.join(REPO, 'longitudinal_tomography', 'cpp_routines'), pkg,
            ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.o'))
        shutil.copy(os.path.join(REPO, 'setup.py'), os.path.join(tmp, 'src'))
        with open(os.path.join(tmp, 'src', '_b.py'), 'w') as fh:
            fh.write(
                'import sys, runpy\n'
                'from pybind11.setup_helpers import ParallelCompile\n'
                'ParallelCompile(default=%d).install()\n'
                "sys.argv=['setup.py','build_ext','--build-lib','../out',"
                "'--build-temp','../tmp']\n"
                "runpy.run_path('setup.py', run_name='__main__')\n" % NCPU)
        r = subprocess.run([PY, '_b.py'], cwd=os.path.join(tmp, 'src'),
                           env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=600)
        found = []
        for root, _, files in os.walk(os.path.join(tmp, 'out')):
            found += [os.path.join(root, f) for f in files
                      if f.startswith('libtomo') and f.endswith('.so')]
        if r.returncode != 0 or len(found) != 1:
            raise MachineryError('extension build failed:\n'
                                 + r.stdout.decode(errors='replace')[-4000:])
        os.makedirs(outdir, exist_ok=True)
        part = so + '.%d' % os.getpid()
        shutil.copy(found[0], part)
        os.replace(part, so)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return so


# --------------------------------------------------------------------------
# TLC

_java_lock = threading.Lock()


def java_classes():
    with _java_lock:
        src = os.path.join(SPEC, 'java', 'Num.java')
        with open(src, 'rb') as fh:
            key = hashlib.sha256(fh.read()).hexdigest()[:16]
        out = os.path.join(CACHE, 'java-' + key)
        if not os.path.exists(os.path.join(out, 'Num.class')):
            tmp = scratch('javac-')
            r = subprocess.run(['javac', '-nowarn', '-cp', TLA_JAR, '-d', tmp, src],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise MachineryError('javac failed: ' + r.stdout.decode())
            try:
                os.rename(tmp, out)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        return out


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct', out)
        self.transitions, self.states = (
            (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', '')))
            if m else (0, 0))

    def tagged(self, tag):
        """The tuples printed by PrintT(<<tag, ...>>) as Python lists."""
        res, lines = [], iter(self.out.splitlines())
        for line in lines:
            if re.match(r'<< ?"%s",' % tag, line):
                while not line.endswith('>>'):      # TLC breaks long tuples into lines
                    line += ' ' + next(lines)
                res.append(json.loads('[' + line[2:-2] + ']'))
        return res


def tlc(module, cfg=None, env=None, workers=1, heap='3g', timeout=800, args=()):
    classes = java_classes()
    meta = scratch('tlc-')
    cfg = cfg or module + '.cfg'
    cmd = ['java', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC',
           '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta, '-XX:TieredStopAtLevel=4',
           '-cp', ':'.join([classes, TLA_JAR, TLA_CM]), 'tlc2.TLC',
           '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers),
           '-config', cfg] + list(args) + [module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=clean_env(**(env or {})),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(r.stdout.decode(errors='replace'), r.returncode)


# --------------------------------------------------------------------------
# Executing cases on the code under test

def _run_worker(prop, so, chunk, workdir, tag, omp, timeout):
    """Run cases in worker processes; returns list of (case index, record)."""
    done, deaths = {}, []
    todo = list(chunk)
    attempt = 0
    while todo:
        attempt += 1
        inp = os.path.join(workdir, '%s-%d.in.json' % (tag, attempt))
        outp = os.path.join(workdir, '%s-%d.out' % (tag, attempt))
        with open(inp, 'w') as fh:
            json.dump(todo, fh)
        env = clean_env(OMP_NUM_THREADS=omp, OMP_WAIT_POLICY='passive', MPLCONFIGDIR=os.path.join(workdir, 'mpl'),
                        VERIF_SO=so, HOME=workdir, TMPDIR=workdir)
        t0 = time.time()
        hung = False
        with open(outp + '.log', 'wb') as log:
            p = subprocess.Popen([PY, '-m', 'harness.worker', prop, inp, outp],
                                 cwd=VERIF, env=env, stdout=log, stderr=log,
                                 stdin=subprocess.DEVNULL)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc, hung = None, True
        current, fatal = None, None
        if os.path.exists(outp):
            with open(outp) as fh:
                for line in fh:
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        break
                    if 'begin' in rec:
                        current = rec['begin']
                    elif 'fatal' in rec:
                        fatal = rec['fatal']
                    else:
                        done[rec['case']] = rec
                        current = None
        with open(outp + '.log', errors='replace') as fh:
            logtxt = fh.read()[-3000:]
        if fatal is not None:
            raise MachineryError('worker: ' + fatal + '\n' + logtxt)
        if current is None and not hung and rc == 0:
            break
        if current is None:
            if hung or rc is None:
                raise MachineryError('worker hung outside a case\n' + logtxt)
            if rc < 0 and all(i in done for i, _ in todo):
                # died while shutting down, after all cases
                deaths.append((todo[-1][0], 'died at exit with signal %d' % -rc))
                break
            raise MachineryError('worker failed rc=%s\n%s' % (rc, logtxt))
        why = ('did not terminate within %d s' % timeout if hung
               else 'process died (rc=%s)' % rc)
        done[current] = {'case': current, 'crash': why, 'log': logtxt[-800:]}
        todo = [c for c in todo if c[0] not in done]
        if attempt >= 4:
            break
    return done, deaths


def execute(prop, so, cases, workers=6, omp=2, timeout=400):
    workdir = scratch('work-')
    os.makedirs(os.path.join(workdir, 'mpl'), exist_ok=True)
    try:
        # so: variant name -> shared object ('' is the production build)
        chunks = []
        for variant in sorted(so):
            indexed = [(i, c) for i, c in enumerate(cases) if c.get('variant', '') == variant]
            n = max(1, min(workers, len(indexed)))
            chunks += [(so[variant], indexed[k::n]) for k in range(n) if indexed]
        records, deaths = {}, []
        with cf.ThreadPoolExecutor(max(1, workers)) as ex:
            futs = [ex.submit(_run_worker, prop, lib, c, workdir, 'w%d' % k, omp, timeout)
                    for k, (lib, c) in enumerate(chunks)]
            for f in futs:
                d, dd = f.result()
                records.update(d)
                deaths += dd
        return records, deaths
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


# --------------------------------------------------------------------------
# Judging recorded executions with TLC

def judge(module, records, shards=6, heap='3g', timeout=800, cfg=None):
    """records: list of (id, record). Returns ({id: [verdicts]}, TlcResult list)."""
    if not records:
        return {}, []
    workdir = scratch('judge-')
    try:
        # balance the shards by record size
        sized = sorted(((len(json.dumps(r)), i, r) for i, r in records),
                       key=lambda t: -t[0])
        n = max(1, min(shards, len(records)))
        bins, load = [[] for _ in range(n)], [0] * n
        for s, i, r in sized:
            k = load.index(min(load))
            bins[k].append((i, r))
            load[k] += s

        def one(k):
            """TLC on bin k.  A record the specification cannot even be
            evaluated on (wrong kind of value) does not conform: it gets a
            verdict of its own and TLC goes on behind it."""
            todo, outs = bins[k], []
            for attempt in range(4):
                path = os.path.join(workdir, 't%d-%d.json' % (k, attempt))
                with open(path, 'w') as fh:
                    json.dump([dict(r, id=i) for i, r in todo], fh)
                res = tlc(module, cfg=cfg, env={'TRACE': path}, heap=heap, timeout=timeout)
                outs.append(res)
                res.extra = {}
                if res.tagged('@DONE'):
                    return outs
                seen = {t[1] for t in res.tagged('@V')}
                rest = [x for x in todo if x[0] not in seen]
                if not rest or not re.search(r'The error occurred when TLC was evaluating|TLC was unable to fingerprint'
                                                 r'|java.lang.RuntimeException|Attempted to', res.out) \
                        or re.search(r'OutOfMemory|StackOverflow|java heap', res.out, re.I):
                    keep = os.path.join(VERIF, 'replay', 'tlc-%s-%d.json' % (module, k))
                    os.makedirs(os.path.dirname(keep), exist_ok=True)
                    shutil.copy(path, keep)
                    out = '\n'.join(l for l in res.out.splitlines()
                                    if not re.match(r'Loading|Parsing|Semantic proc|Linting|.*override|Warning: Please', l))
                    raise MachineryError('TLC did not finish %s (input kept in %s)\n%s'
                                         % (module, keep, out[-6000:]))
                why = re.search(r'Error: (?!TLC threw|The behavior|The error occ)(.*)|^For input string.*|^:? ?Attempted.*|produced the following error:\n(.*)',
                                res.out, re.M)
                res.extra[rest[0][0]] = ('bad:recorded values do not fit the specification: '
                                         + (why.group(0)[:160] if why else '?'))
                todo = rest[1:]
                if not todo:
                    return outs
            for i, _ in todo:
                outs[-1].extra[i] = 'skip:not judged, earlier records do not fit the specification'
            return outs

        verdicts, results = {}, []
        with cf.ThreadPoolExecutor(n) as ex:
            for outs in ex.map(one, range(n)):
                for res in outs:
                    results.append(res)
                    for _, i, v in res.tagged('@V'):
                        lst = verdicts.setdefault(i, [])
                        if v not in lst:
                            lst.append(v)
                    for i, v in res.extra.items():
                        verdicts.setdefault(i, []).append(v)
        for i, _ in records:
            if i not in verdicts:
                raise MachineryError('no verdict for record %s in %s' % (i, module))
        return verdicts, results
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


# --------------------------------------------------------------------------
# Known findings

def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as fh:
        data = json.load(fh)
    return {f['id']: f for f in data['findings'] if f['property'] == prop}


# --------------------------------------------------------------------------

def load_prop(prop):
    return importlib.import_module('harness.props.' + prop.lower())


def run_model(m, tier):
    cfg = m.get('cfg_thorough') if tier == 'thorough' and m.get('cfg_thorough') else m.get('cfg')
    res = tlc(m['module'], cfg=cfg, workers=m.get('workers', 2),
              heap=m.get('heap', '4g'), env=m.get('env'),
              timeout=m.get('timeout', 600), args=m.get('args', ()))
    bad = 'Error:' in res.out or res.rc not in (0,)
    if m.get('expect_violation'):
        ok = 'is violated' in res.out or 'was violated' in res.out or 'deadlock' in res.out.lower()
        if not ok:
            raise MachineryError('negative control %s (%s) was not rejected' % (m['module'], cfg))
    elif bad:
        out = '\n'.join(l for l in res.out.splitlines() if 'override' not in l)
        raise MachineryError('design model %s (%s) failed:\n%s' % (m['module'], cfg, out[-5000:]))
    return res


def run_check(prop, tier, seed, replay=None):
    t0 = time.time()
    mod = load_prop(prop)
    rng = random.Random('%s/%s/%d' % (prop, tier, seed))
    models = list(getattr(mod, 'MODELS', []))
    timing = {}
    with cf.ThreadPoolExecutor(4) as ex:
        fso = {v: ex.submit(build_extension, v) for v in [''] + list(getattr(mod, 'VARIANTS', []))}
        fmod = [ex.submit(run_model, m, tier) for m in models]
        model_results = [f.result() for f in fmod]
        behaviours = {}
        for m, r in zip(models, model_results):
            if m.get('emit'):
                behaviours[m['module']] = [json.loads(x) for x in sorted({t[1] for t in r.tagged('@G')})]
        if replay:
            cases = [replay['input']]
        else:
            cases = mod.gen(rng, tier, behaviours)
        so = {v: f.result() for v, f in fso.items()}
    timing['prepare'] = time.time() - t0
    records, deaths = execute(prop, so, cases,
                              workers=getattr(mod, 'WORKERS', 6),
                              omp=getattr(mod, 'OMP', 2),
                              timeout=getattr(mod, 'TIMEOUT', 400))
    timing['execute'] = time.time() - t0
    violations, known_hits = [], {}
    extra_cov = {}
    to_judge = {}
    for i, rec in sorted(records.items()):
        if 'crash' in rec:
            violations.append((i, 'crash: ' + rec['crash'], rec.get('log', '')))
            continue
        for k, tr in enumerate(rec['traces']):
            to_judge.setdefault(tr.pop('module', getattr(mod, 'TRACE', None)), []).append(
                ('%d.%d' % (i, k), tr))
    for i, why in deaths:
        violations.append((i, 'crash: ' + why, ''))
    tally, samples, results = {}, [], []
    njudged = 0
    kf = known_findings(prop)
    for module, recs in sorted(to_judge.items()):
        verdicts, res = judge(module, recs, shards=getattr(mod, 'SHARDS', 6),
                              heap=getattr(mod, 'HEAP', '3g'))
        results += res
        njudged += len(recs)
        recmap = dict(recs)
        for rid, vs in sorted(verdicts.items(), key=lambda t: tuple(map(int, t[0].split('.')))):
            for v in vs:
                key = v.split('|')[0]
                tally[key] = tally.get(key, 0) + 1
                if v.startswith('known:'):
                    name = v[6:].split('|')[0]
                    if name in kf:
                        known_hits.setdefault(name, rid)
                        continue
                    violations.append((int(rid.split('.')[0]), 'unlisted ' + v, ''))
                elif v.startswith('bad:'):
                    violations.append((int(rid.split('.')[0]), v[4:], ''))
                elif not v.startswith(('ok', 'skip', 'triv')):
                    raise MachineryError('unknown verdict %r' % v)
            if len(samples) < 2 and any(v.startswith('ok') for v in vs):
                samples.append({'record': shorten(recmap[rid]), 'verdicts': vs})
    post = getattr(mod, 'post', None)
    if post and not replay:
        for i, clause in post(cases, records):
            violations.append((i, clause, ''))
    wall = time.time() - t0
    nontrivial = sum(v for k, v in tally.items() if k.startswith(('ok', 'known')) and 'trivial' not in k)
    cov = {
        'states': sum(r.states for r in model_results) + sum(r.states for r in results),
        'transitions': sum(r.transitions for r in model_results) + sum(r.transitions for r in results),
        'traces_validated_against_impl': njudged,
        'design_models': [{'module': m['module'], 'cfg': m.get('cfg', m['module'] + '.cfg'),
                           'states': r.states, 'transitions': r.transitions,
                           'negative_control': bool(m.get('expect_violation'))}
                          for m, r in zip(models, model_results)],
        'trace_modules': sorted(k for k in to_judge if k),
        'cases_executed': len(records),
        'verdicts_by_clause': tally,
        'evaluations': len(records),
        'distinct_nontrivial': nontrivial,
        'rule': getattr(mod, 'RULE', 'a case is non-trivial when the specification '
                        'judged its execution by at least one clause (verdict not skip/trivial)'),
        'samples': samples or [{'note': 'no accepted record'}],
    }
    cov.update(extra_cov)
    if not replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
            json.dump({'property': prop, 'tier': tier, 'seed': seed,
                       'level': getattr(mod, 'LEVEL', 'model_checking'),
                       'coverage': cov,
                       'assumptions': getattr(mod, 'ASSUMPTIONS', []),
                       'wall_s': round(wall, 2), 'violations': len(violations)},
                      fh, indent=1)
    for name, rid in sorted(known_hits.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, name, kf[name]['what']))
    if violations:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        seen = set()
        for i, clause, log in violations:
            short = clause.split('|')[0]
            if short in seen or len(seen) >= 8:
                continue
            seen.add(short)
            path = os.path.join(VERIF, 'replay', '%s-%d.json' % (prop, len(seen)))
            with open(path, 'w') as fh:
                json.dump({'property': prop, 'tier': tier, 'seed': seed, 'clause': clause,
                           'input': cases[i], 'log': log,
                           'how': 'python -m harness.check %s --replay %s' % (prop, path)},
                          fh, indent=1)
            print('VIOLATION property=%s replay=%s clause=%s' % (prop, path, clause[:300]))
            if log:
                print('   ' + log.strip().replace('\n', '\n   ')[-1500:])
        return 1
    print('OK property=%s tier=%s cases=%d traces=%d states=%d wall=%.1fs %s' % (
        prop, tier, len(records), njudged, cov['states'], wall, json.dumps(tally, sort_keys=True)))
    return 0


def shorten(x, depth=0):
    if isinstance(x, list):
        return [shorten(v, depth + 1) for v in x[:6]] + (['... %d items' % len(x)] if len(x) > 6 else [])
    if isinstance(x, dict):
        return {k: shorten(v, depth + 1) for k, v in x.items()}
    return x
