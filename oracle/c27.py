"""Threads that create equations without a name: free running, and stepped through every schedule with two switches at the
level of byte code."""
import importlib
import os
import sys
import threading
from .lib import *

SRC = os.path.join(os.environ.get('PYVC_REPO', '/repo'), 'src')
GEN = {'equations': C + 'equation', 'connections': S + 'problem'}


class Stepped:
    """two threads running f; the first takes a steps, then the second b steps, then each runs to its end"""

    def __init__(self, f, plan):
        self.f, self.plan = f, plan
        self.cv = threading.Condition()
        self.left = [0, 0]
        self.done = [False, False]
        self.res = [None, None]
        self.steps = [0, 0]

    def trace(self, t):
        def loc(frame, ev, arg):
            if ev == 'opcode':
                self.step(t)
            return loc

        def glob(frame, ev, arg):
            if frame.f_code.co_filename.startswith(SRC):
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return loc
        return glob

    def step(self, t):
        with self.cv:
            self.steps[t] += 1
            self.left[t] -= 1
            if self.left[t] <= 0:
                self.cv.notify_all()
                self.cv.wait_for(lambda: self.left[t] > 0, 5)

    def run(self, t):
        with self.cv:
            self.cv.wait_for(lambda: self.left[t] > 0, 5)
        sys.settrace(self.trace(t))
        try:
            self.res[t] = attempt(self.f)
        finally:
            sys.settrace(None)
            with self.cv:
                self.done[t] = True
                self.cv.notify_all()

    def go(self):
        th = [threading.Thread(target=self.run, args=(i,), daemon=True) for i in (0, 1)]
        for x in th:
            x.start()
        for t, n in list(self.plan) + [(0, 10 ** 9), (1, 10 ** 9), (0, 10 ** 9)]:
            with self.cv:
                if self.done[t]:
                    continue
                self.left[t] = n
                self.cv.notify_all()
                # a thread that waits for a lock the other holds does not reach its end: go on with the other
                self.cv.wait_for(lambda: self.done[t] or self.left[t] <= 0, .3)
        for x in th:
            x.join(5)
        return self.res


def schedules(F, what, f, key, limit=24):
    s = Stepped(f, [])
    r = s.go()
    n = min(s.steps[0] + 1, limit)
    F.check(all(x and x[0] == 'ok' for x in r), what + ' fail', str(r))
    seen = []
    for a in range(1, n + 1):
        for b in [1, 2, 3] + list(range(4, n + 1, 3)):
            s = Stepped(f, [(0, a), (1, b)])
            r = s.go()
            if not F.check(all(x and x[0] == 'ok' for x in r), what + ' fail', str(r)):
                return
            seen += [key(x[1]) for x in r]
            if not F.check(key(r[0][1]) != key(r[1][1]), what + ': same name', '%r twice when the other thread runs %d steps after %d' % (key(r[0][1]), b, a)):
                return
    F.check(len(set(seen)) == len(seen), what + ': name again', str([x for x in seen if seen.count(x) > 1][:3]))


def together(n, f):
    """f(i) in n threads at once"""
    out = [None] * n
    bar = threading.Barrier(n)

    def go(i):
        bar.wait()
        out[i] = attempt(lambda: f(i))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        th = [threading.Thread(target=go, args=(i,)) for i in range(n)]
        for x in th:
            x.start()
        for x in th:
            x.join()
    finally:
        sys.setswitchinterval(old)
    return out


def run_case(c):
    F = Fails()
    E = get(C + 'equation', 'Equation')
    rng = random.Random(c.get('seed', 1))
    v = get(C + 'variable', 'Variable')('v', U([0] * 7))
    x = v()
    if c['kind'] == 'schedules':
        schedules(F, 'equations', lambda: E('', 'text'), lambda e: e.name, 60)
        for k, m in sorted(GEN.items()):
            mod = importlib.import_module(m)
            if hasattr(mod, 'gen_rnd_str'):
                schedules(F, 'names of ' + k, mod.gen_rnd_str, str)
    elif c['kind'] == 'threads':
        n, k = c['n'], c['each']
        M = get(S + 'model', 'Model')('m')
        fs = [lambda: M.createEquation('', 'text', x, check_equation=False).name, lambda: E('', 'text').name + '_m']
        which = [[rng.choice([0, 0, 1]) for _ in range(k)] for _ in range(n)]
        r = together(n, lambda i: [fs[w]() for w in which[i]])
        if F.check(all(a[0] == 'ok' for a in r), 'creation fails', str(r)[:200]):
            names = [y for a in r for y in a[1]]
            F.check(len(set(names)) == len(names), 'same name twice', str([y for y in names if names.count(y) > 1][:3]))
            F.check(len(M.equations) == sum(w == 0 for l in which for w in l), 'equations of the model', '%d of %d are left' % (len(M.equations), sum(w == 0 for l in which for w in l)))
    elif c['kind'] == 'one after the other':
        # threads that end before others start, the main one in between
        names = []
        for i in range(c['n']):
            if i % 3 == 0:
                names += [E('', 'text').name for _ in range(c['each'])]
            else:
                t = threading.Thread(target=lambda: names.extend(E('', 'text').name for _ in range(c['each'])))
                t.start()
                t.join()
        F.check(len(set(names)) == len(names), 'same name twice', str([y for y in names if names.count(y) > 1][:3]))
    else:
        M, P = get(S + 'model', 'Model')('m'), get(S + 'problem', 'Problem')('p')
        w = get(C + 'variable', 'Variable')('w', U([0] * 7))()
        r = together(c['n'], lambda i: [P.createConnection('', M, x, w) for _ in range(c['each'])])
        F.check(all(a[0] == 'ok' for a in r), 'connection fails', str(r)[:200])
        F.check(len(M.equations) == c['n'] * c['each'], 'connections', '%d of %d are left' % (len(M.equations), c['n'] * c['each']))
    return F


def gen_cases(rng, tier):
    yield dict(kind='schedules', seed=1)
    for i in range(12 if tier == 'quick' else 200):
        for k in ('threads', 'one after the other', 'connections'):
            yield dict(kind=k, n=rng.choice([2, 3, 8]), each=rng.choice([1, 3, 20, 150 if k == 'threads' else 60]), seed=rng.randrange(10 ** 6))
