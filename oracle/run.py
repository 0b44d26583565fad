"""Runs the concrete oracle of one property against the real code (under /opt/venv, the interpreter of the test suite).

usage: run.py PID REQUEST.json OUT.json
REQUEST: {"cases": [...], "gen": bool, "seed": int, "tier": "quick"|"thorough", "budget": seconds}
OUT:     {"replayed": [{"case":..., "fails":[[key, detail],...], "error":...}], "generated": n, "failures": [...], "errors": n}
"""
import contextlib
import importlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, REPO)
sys.path.append(os.path.join(HERE, 'stubs'))
warnings.simplefilter('ignore')


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def one(mod, case, limit=30):
    """-> (fails, error)"""
    lib = sys.modules.get('oracle.lib')
    live = lib.Fails.live if lib else []
    del live[:]
    r, err = _one(mod, case, limit)
    if err:
        r = r + [list(map(str, f)) for fs in live for f in fs]
    return r, err


def _one(mod, case, limit):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            r = mod.run_case(case)
        return [list(map(str, f)) for f in (r or [])], None
    except Timeout:
        return [], 'timeout'
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            return [], type(e).__name__
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if f.filename.startswith(os.path.join(REPO, 'src'))]
        inner = tb[-1]
        msg = '%s: %s' % (type(e).__name__, str(e)[:300])
        if last and (inner.filename.startswith(REPO) or 'site-packages' in inner.filename or 'stubs' in inner.filename or inner.filename.startswith('/usr')
                     or inner.filename.startswith('/opt') or inner.filename.startswith('<')):
            f = last[-1]
            return [['crash %s in %s' % (type(e).__name__, f.name), msg + ' at %s:%s' % (f.filename, f.lineno)]], None
        return [], 'oracle: ' + msg + ' at %s:%s' % (inner.filename, inner.lineno)
    finally:
        signal.alarm(0)


def main():
    pid, req, out = sys.argv[1:4]
    req = json.load(open(req))
    t0 = time.time()
    res = dict(replayed=[], generated=0, failures=[], errors=0, error_sample=[])
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            mod = importlib.import_module('oracle.' + pid.lower())
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(REPO)]
        res['load_error'] = '%s: %s' % (type(e).__name__, str(e)[:500])
        res['load_in_repo'] = bool(inrepo)
        json.dump(res, open(out, 'w'))
        return
    for c in req.get('cases', []):
        fails, err = one(mod, c)
        res['replayed'].append(dict(case=c, fails=fails, error=err))
    if req.get('gen', True):
        rng = random.Random(req.get('seed', 1))
        budget = req.get('budget', 60)
        keys = {}
        kinds = {}
        for c in mod.gen_cases(rng, req.get('tier', 'quick')):
            if time.time() - t0 > budget:
                res['budget_exhausted'] = True
                break
            fails, err = one(mod, c)
            res['generated'] += 1
            k = str(c.get('kind'))
            kinds[k] = kinds.get(k, 0) + 1
            if err:
                res['errors'] += 1
                if len(res['error_sample']) < 5:
                    res['error_sample'].append([err, c])
            for f in fails:
                n = keys.get(f[0], 0)
                keys[f[0]] = n + 1
                if n < 3:
                    res['failures'].append(dict(case=c, key=f[0], detail=f[1] if len(f) > 1 else ''))
        res['failure_counts'] = keys
        res['kinds'] = kinds
    res['wall'] = time.time() - t0
    json.dump(res, open(out, 'w'), default=str)


if __name__ == '__main__':
    sys.setrecursionlimit(10000)
    main()
    sys.stdout.flush()
    os._exit(0)
