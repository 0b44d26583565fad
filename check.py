#!/usr/bin/env python3
"""check.py PID: decides property PID on /repo's current working tree.

1. every obligation of specs/<pid>.py is generated from the current source by the pyvc verifier and discharged (Z3);
2. counterexamples of refuted obligations are replayed on the real code, and the concrete oracle of the property
   (oracle/<pid>.py) is run on generated inputs as a bounded supplement;
3. exit 0 (held) or exit 1 with VIOLATION lines; evidence/<PID>.json is rewritten.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
APP = '/opt/venv/bin/python'
REPO = os.environ.get('PYVC_REPO', '/repo')


def reexec():
    try:
        import z3  # noqa
    except ImportError:
        for c in ('python3-vt', VT):
            p = shutil.which(c)
            if p and os.environ.get('PYVC_REEXEC') != '1':
                os.environ['PYVC_REEXEC'] = '1'
                os.execv(p, [p] + sys.argv)
        raise


ENV = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig', OMP_NUM_THREADS='1')


# ------------------------------------------------------------------ proof part
STATE = {}


def load(pid):
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(30000)
    from pyvc.interp import Interp, PyRaise
    from pyvc.values import Unsupported
    spec = importlib.import_module('specs.' + pid.lower()).spec
    from specs.lib import PRELOAD
    I = Interp(REPO)
    problems = []
    for m in PRELOAD:
        try:
            I.import_module(m)
        except PyRaise as e:
            problems.append('%s: importing raises %s' % (m, e.exc.cls.name))
        except Unsupported as e:
            problems.append('%s: unsupported: %s' % (m, e))
        except Exception as e:
            problems.append('%s: %s %s' % (m, type(e).__name__, e))
    STATE['I'], STATE['spec'] = I, spec
    return I, spec, problems


def worker(i):
    from pyvc import vc
    ob = STATE['spec'].obls[i]
    t = time.time()
    try:
        r = vc.run(STATE['I'], ob).as_dict()
    except BaseException as e:
        r = dict(name=ob.name, paths=0, infeasible=0, discharged={}, failures=[], undecided=[('*', 'verifier: %s: %s' % (type(e).__name__, str(e)[:300]))],
                 assumptions=[], entered={}, contracts={}, queries=0, solver_time=0, wall=round(time.time() - t, 3))
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
    r['bounded'] = ob.bounded
    return i, r


def prove(pid, deadline, jobs):
    I, spec, problems = load(pid)
    n = len(spec.obls)
    results = [None] * n
    order = list(range(n))
    if n == 0:
        return [], problems, spec
    ctx = mp.get_context('fork')
    pool = ctx.Pool(min(jobs, n))
    try:
        it = pool.imap_unordered(worker, order, chunksize=1)
        for _ in range(n):
            left = deadline - time.time()
            if left <= 0:
                break
            try:
                i, r = it.next(timeout=left)
            except (mp.TimeoutError, StopIteration):
                break
            results[i] = r
    finally:
        pool.terminate()
        pool.join()
    for i, r in enumerate(results):
        if r is None:
            ob = spec.obls[i]
            results[i] = dict(name=ob.name, paths=0, infeasible=0, discharged={}, failures=[], undecided=[('*', 'check deadline reached')], assumptions=[],
                              entered={}, contracts={}, queries=0, solver_time=0, wall=0, bounded=ob.bounded)
    return results, problems, spec


# ------------------------------------------------------------------ concrete part
def oracle(pid, cases, gen, seed, tier, budget, hard):
    if not os.path.exists(os.path.join(HERE, 'oracle', pid.lower() + '.py')):
        return None
    d = tempfile.mkdtemp(prefix='pyvc_')
    try:
        req, out = os.path.join(d, 'req.json'), os.path.join(d, 'out.json')
        json.dump(dict(cases=cases, gen=gen, seed=seed, tier=tier, budget=budget), open(req, 'w'))
        env = dict(os.environ)
        env.update(ENV)
        env['PYVC_REPO'] = REPO
        env['HOME'] = d
        env['TMPDIR'] = d
        try:
            p = subprocess.run([APP, os.path.join(HERE, 'oracle', 'run.py'), pid, req, out], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=hard)
        except subprocess.TimeoutExpired:
            return dict(error='oracle timed out', replayed=[], generated=0, failures=[], errors=1)
        try:
            return json.load(open(out))
        except Exception:
            return dict(error='oracle died: rc=%s %s' % (p.returncode, p.stderr.decode(errors='replace')[-600:]), replayed=[], generated=0, failures=[], errors=1)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ known findings
def known(pid):
    """entries 'known: property=C13 key=<key> -- <text>'"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(.+?) -- (.*)$', l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    if '--replay' in sys.argv:
        r = json.load(open(args[0]))
        o = oracle(r['property'], [r['case']], False, 1, 'quick', 60, 120)
        print(json.dumps(o['replayed'], indent=1))
        sys.exit(1 if any(x['fails'] for x in o['replayed']) else 0)
    pid = args[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    quick = tier == 'quick'
    jobs = int(os.environ.get('PYVC_JOBS', '6'))
    os.environ['PYVC_TIER'] = tier
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    for f in os.listdir(os.path.join(HERE, 'evidence', 'replays')):
        if f.startswith(pid + '-'):
            os.remove(os.path.join(HERE, 'evidence', 'replays', f))

    results, problems, spec = prove(pid, t0 + (420 if quick else 3000), jobs)

    refuted = []        # definite refutations
    undecided = []
    for r in results:
        for f in r['failures']:
            if f['tainted']:
                undecided.append((r['name'], f['name'] + ': refutation not definite'))
            else:
                refuted.append((r, f))
        for n, w in r['undecided']:
            undecided.append((r['name'], '%s: %s' % (n, w)))
    cases, seen = [], set()
    for r, f in refuted:
        if f['case'] is None:
            continue
        k = json.dumps(f['case'], sort_keys=True, default=str)
        if k not in seen and len(cases) < 80:
            seen.add(k)
            cases.append(json.loads(k))
    left = 860 - (time.time() - t0) if quick else 7000
    budget = min(100 if quick else 1200, max(20, left - 60))
    orc = oracle(pid, cases, True, seed, tier, budget, min(left - 10, budget + 160))

    kn = known(pid)
    hit = {}
    concrete = []       # (key, case, detail)
    if orc:
        for x in orc['replayed']:
            for f in x['fails']:
                concrete.append((f[0], x['case'], f[1] if len(f) > 1 else '', 'counterexample of a refuted obligation'))
        for x in orc['failures']:
            concrete.append((x['key'], x['case'], x['detail'], 'generated input'))
        if orc.get('load_error') and orc.get('load_in_repo'):
            concrete.append(('import failure', dict(kind='import'), orc['load_error'], 'import of the package'))
    viol, seen = [], set()
    for k, c, d, src in concrete:
        if k in kn:
            hit[k] = d
        elif k not in seen:
            seen.add(k)
            viol.append((k, c, d, src))
    proofviol, seen = [], set()
    for r, f in refuted:
        k = 'proof: %s / %s' % (r['name'], f['name'])
        if k in kn:
            hit[k] = f['detail']
        elif k not in seen:
            seen.add(k)
            proofviol.append((k, r, f))

    for k, d in hit.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]))
    lines = []
    n = 0
    for k, c, d, src in viol[:6]:
        n += 1
        path = os.path.join(HERE, 'evidence', 'replays', '%s-%d.json' % (pid, n))
        rel = [dict(obligation=x[0], detail=x[2]['detail'], case=x[2]['case']) for x in proofviol[:10]]
        json.dump(dict(property=pid, key=k, detail=d, case=c, source=src, refuted_obligations=rel,
                       replay='python3 /verif/check.py --replay %s' % path), open(path, 'w'), indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s: %s [%s]' % (k, d[:200], src))
    if not viol:
        for k, r, f in proofviol[:6]:
            n += 1
            path = os.path.join(HERE, 'evidence', 'replays', '%s-%d.json' % (pid, n))
            json.dump(dict(property=pid, failed_obligation=k, verifier_output=f['detail'], case=f['case'],
                           note='no input of the real code was found on which the failure shows'), open(path, 'w'), indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
            print('  refuted: %s: %s' % (k, f['detail'][:300]))

    # evidence
    ub = [r for r in results if not r['bounded']]
    bo = [r for r in results if r['bounded']]

    def tally(rs):
        d = sum(sum(r['discharged'].values()) for r in rs)
        return d + sum(len(r['failures']) for r in rs) + sum(len(r['undecided']) for r in rs), d
    nob, nd = tally(ub)
    bob, bd = tally(bo)
    entered = {}
    for r in results:
        for k, v in r['entered'].items():
            entered[k] = entered.get(k, 0) + (v if isinstance(v, int) else 1)
    from specs import trusted
    assum = sorted(set(a for r in results for a in r['assumptions']) | set(spec.assumptions) | set(problems))
    cov = dict(obligations=nob, discharged=nd, checker_cmd='python3 /verif/check.py %s' % pid,
               trusted_base=trusted.TRUSTED, backend='z3 %s' % __import__('z3').get_version_string(),
               solver_queries=sum(r['queries'] for r in results), solver_s=round(sum(r['solver_time'] for r in results), 2),
               functions_under_contract=sorted(entered), obligations_by_contract=[
                   dict(name=r['name'], paths=r['paths'], infeasible=r['infeasible'], discharged=sum(r['discharged'].values()), conditions=sorted(r['discharged']),
                        refuted=len(r['failures']), undecided=len(r['undecided']), bounded=r['bounded'], wall=r['wall']) for r in results],
               bounded_obligations=bob, bounded_discharged=bd, bounded_labels=sorted(set(r['bounded'] for r in bo)),
               undecided=[list(map(str, u))[:2] for u in undecided[:40]])
    if orc:
        cov['concrete_supplement'] = dict(evaluations=orc.get('generated', 0) + len(orc.get('replayed', [])), kinds=orc.get('kinds', {}), errors=orc.get('errors', 0),
                                          error_sample=orc.get('error_sample', [])[:3], note='bounded: generated inputs run on the real code against the oracle; never counted as proved',
                                          error=orc.get('error'), load_error=orc.get('load_error'))
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=getattr(spec, 'level', 'proof'), coverage=cov, assumptions=assum, wall_s=round(time.time() - t0, 2),
              violations=len(lines))
    if getattr(spec, 'level', 'proof') != 'proof':
        cov['explanation'] = getattr(spec, 'explanation', '')
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)

    print('%s: %d obligations, %d discharged; bounded %d/%d; undecided %d; refuted %d; concrete evaluations %s, failures %d (%.1fs)' % (
        pid, nob, nd, bd, bob, len(undecided), len(refuted), (orc or {}).get('generated'), len(concrete), time.time() - t0))
    for u in undecided[:8]:
        print('  undecided: %s: %s' % (u[0], u[1].split('\n')[0][:200]))
    for l in lines:
        print(l)
    sys.stdout.flush()
    sys.exit(1 if lines else 0)


if __name__ == '__main__':
    reexec()
    for k, v in ENV.items():
        os.environ.setdefault(k, v)
    main()
