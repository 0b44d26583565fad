from .lib import *
import numpy as np
import scipy.optimize
from pyneqsys.symbolic import SymbolicSys

Z = [0] * 7
REC = dict(on=False)
_init, _solve, _root = SymbolicSys.__init__, SymbolicSys.solve, scipy.optimize.root


def init(self, x, exprs, *a, **k):
    if REC['on']:
        REC['names'], REC['exprs'] = list(x), list(exprs)
    return _init(self, x, exprs, *a, **k)


def solve(self, x0, *a, **k):
    if REC['on']:
        REC['x0'] = list(x0)
        REC['on'] = False
        try:
            x, s = _solve(self, x0, *a, **k)
        finally:
            REC['on'] = True
        if REC.get('fake') is not None:
            x, s = np.array(REC['fake']), dict(s, success=True)
        if REC.get('fail'):
            s = dict(s, success=False)
        return x, s
    return _solve(self, x0, *a, **k)


def root(fun, x0, *a, **k):
    if REC['on']:
        REC['root'] = (fun, list(x0))
        if REC.get('polished') is not None:
            return scipy.optimize.OptimizeResult(success=REC['polish_ok'], x=np.array(REC['polished']))
    return _root(fun, x0, *a, **k)


SymbolicSys.__init__, SymbolicSys.solve, scipy.optimize.root = init, solve, root


def system(kind, n, seed, order=0):
    """n equations in n unknowns with a known solution"""
    rng = random.Random(seed)
    M, P = get(S + 'model', 'Model'), get(S + 'problem', 'Problem')
    ms = [M('M%d' % i) for i in range(rng.choice([1, 1, 2]))]
    names = rng.sample(['x', 'y', 'z', 'u', 'v', 'w', 'aa', 'a', 'x1', 'x10', 'T'], n)
    vs = [rng.choice(ms).createVariable(nm, U(Z)) for nm in names]
    sol = {v.name: rng.choice([-3., -1.5, .5, 1., 2., 4.]) for v in vs}
    if kind == 'nonlinear':
        sol = {k: abs(v) for k, v in sol.items()}
    A = np.array([[rng.choice([0, 0, 1., -2.]) for j in range(n)] for i in range(n)]) + np.diag([7.] * n)
    for i in range(n):
        e = None
        for j, v in enumerate(vs):
            if A[i, j]:
                t = v() * float(A[i, j])
                e = t if e is None else e + t
        r = sum(A[i, j] * sol[v.name] for j, v in enumerate(vs))
        if kind == 'nonlinear':
            e, r = e + vs[i]() * vs[i]() * 3.0, r + 3 * sol[vs[i].name] ** 2
        q = rng.choice(['res', 'two', 'par'])
        m = ms[0]
        if q == 'res':
            e = e - float(r)
        elif q == 'two':
            e = e == float(r)
        else:
            p = m.createParameter('p%d' % i, U(Z))
            p.setValue(float(r))
            e = e == p()
        m.createEquation('e%d' % i, '', e, check_equation=False)
    pr = P('p')
    pr.addModels(ms)
    pr.resolve()
    return pr, vs, sol


def run_case(c):
    from .c14 import conf, KEYS
    F = Fails()
    k, kind = c['kind'], c.get('type', 'linear')
    create = get(S + 'solvers', '_createSolver')
    mech = c.get('mech')
    n = c.get('size', 2)
    REC.clear()
    REC['on'] = False
    if k == 'unsolvable':
        M, P = get(S + 'model', 'Model'), get(S + 'problem', 'Problem')
        m = M('m')
        x, y = m.createVariable('x', U(Z)), m.createVariable('y', U(Z))
        if kind == 'linear':
            m.createEquation('a', '', x() + y() - 1.0)
            m.createEquation('b', '', x() + y() - 2.0)
        else:
            m.createEquation('a', '', x() * x() + 1.0)
            m.createEquation('b', '', y() * y() + 3.0 + x() * x())
            if mech == 'sympy':
                m.createEquation('c', '', x() * x() + 2.0)
        pr = P('p')
        pr.addModels(m)
        pr.resolve()
        s = create(pr, conf(**{KEYS[kind]: mech}))
        r = attempt(s.solve)
        F.check(r[0] == 'raise', 'an unsolvable system gets a solution', '%r %s' % (r[1], c))
        return F
    pr, vs, sol = system(kind, n, c.get('seed', 1))
    b = pr.equation_block
    order = list(b._var_list)
    rng = random.Random(c.get('seed', 1) + 7)
    F.check(sorted(order) == sorted(sol), 'unknowns', c)
    cf = conf(**{KEYS[kind]: mech})
    guess = {}
    if c.get('guess'):
        ks = sorted(sol)
        rng.shuffle(ks)
        guess = {q: sol[q] + rng.uniform(-.3, .3) for q in ks}
    if k == 'missing':
        guess = {q: sol[q] for q in sorted(sol)[:-1]} if n > 1 else {'nobody': 1.0}
        if mech is None:
            cf[KEYS[kind]] = 'symbolicsys'
    cf['initial_guess'] = guess
    if c.get('polish'):
        cf['initial_guess_solver'] = c['polish']
    s = create(pr, cf)
    if k == 'missing':
        r = attempt(s.solve)
        F.check(r[0] == 'raise', 'an incomplete initial guess is accepted', c)
        return F
    REC['on'] = True
    if c.get('success') is False:
        REC['fail'] = True
    if k == 'symbolicsys' and c.get('fake'):
        REC['fake'] = [10.0 + i for i in range(n)]
    if c.get('polish') and c.get('polish_fake') is not None:
        REC['polished'] = [sol[q] + .01 * (i + 1) for i, q in enumerate(order)]
        REC['polish_ok'] = c['polish_fake']
    try:
        r = attempt(s.solve)
    finally:
        REC['on'] = False
    if k == 'symbolicsys':
        F.check([str(q) for q in REC.get('names', [])] == order, 'not every unknown is handed over in order', '%r %s' % (REC.get('names'), c))
        ex = REC.get('exprs', [])
        F.check(len(ex) == len(b._equations_list) and all(p == q for p, q in zip(ex, b._equations_list)), 'not every equation is handed over', c)
        start = [guess[q] for q in order] if guess else [1.0] * n
        if c.get('polish'):
            f, g = REC.get('root', (None, None))
            F.check(g == start, 'the guess to polish is not matched to the unknowns', '%r %r %s' % (g, start, c))
            if f is not None:
                env = {q: 0.3 + i for i, q in enumerate(order)}
                got = attempt(f, [env[q] for q in order])
                want = [float(e.evalf(subs=env)) for e in b._equations_list]
                F.check(got[0] == 'ok' and len(got[1]) == len(want) and all(close(float(p), q) for p, q in zip(got[1], want)), 'the compiled equations differ', '%r %r %s' % (got[1], want, c))
            if REC.get('polished') is not None and REC['polish_ok']:
                start = REC['polished']
        if not c.get('polish') or REC.get('polished') is not None:
            F.check(len(REC.get('x0', [])) == n and all(close(float(p), q) for p, q in zip(REC['x0'], start)), 'initial guess not matched to the unknowns', '%r %r %s' % (REC.get('x0'), start, c))
        if c.get('success') is False:
            F.check(r[0] == 'raise', 'failure is not reported', '%r %s' % (r[1], c))
            return F
    if not F.check(r[0] == 'ok', 'no solution', '%r %s' % (r[1], c)):
        return F
    if not F.check(hasattr(r[1], 'items'), 'the solution maps no unknowns', '%r %s' % (r[1], c)):
        return F
    got = {str(q): v for q, v in r[1].items()}
    F.check(len(got) == len(r[1]) and sorted(got) == sorted(sol), 'labels', '%r %s' % (r[1], c))
    if k == 'symbolicsys' and c.get('fake'):
        want = dict(zip(order, REC['fake']))
    elif k == 'symbolicsys' or kind == 'linear':
        want = sol
    else:
        want = None
    for q, v in got.items():
        F.check(np.ndim(v) == 0 and attempt(float, v)[0] == 'ok', 'a value is not a number', '%r %s' % (v, c))
    if want and kind == 'linear' or c.get('fake'):
        F.check(all(q in got and close(float(got[q]), want[q], 1e-5) for q in want), 'values under wrong labels', '%r %r %s' % (got, want, c))
    else:
        env = {q: float(v) for q, v in got.items()} if all(attempt(float, v)[0] == 'ok' for v in got.values()) else None
        if env:
            res = [abs(float(e.evalf(subs=env))) for e in b._equations_list]
            F.check(max(res) < 1e-4, 'values under wrong labels', '%r %r %s' % (got, res, c))
    return F


def gen_cases(rng, tier):
    for kind, mechs in (('linear', ('sympy', 'scipy', None, 'symbolicsys')), ('nonlinear', ('*', None, 'symbolicsys', 'sympy'))):
        for m in mechs:
            if kind == 'linear' or m == 'sympy':      # (the Levenberg-Marquardt routine may report success at a mere minimum)
                yield dict(kind='unsolvable', type=kind, mech=m)
    for n in range(120 if tier == 'quick' else 1500):
        kind = rng.choice(['linear', 'nonlinear'])
        mech = rng.choice({'linear': ['symbolicsys'], 'nonlinear': ['*', None, 'symbolicsys']}[kind])
        pol = rng.choice([None, None, 'hybr', 'anderson']) if kind == 'nonlinear' else None
        yield dict(kind='symbolicsys', type=kind, mech=mech, guess=rng.random() < .5, success=rng.random() < .85, fake=rng.random() < .5,
                   polish=pol, polish_fake=rng.choice([True, False]) if pol else None, size=rng.randint(1, 6), seed=rng.randrange(10 ** 6))
    for n in range(40 if tier == 'quick' else 400):
        yield dict(kind=rng.choice(['sympy', 'scipy']), type='linear', mech=rng.choice([None, 'sympy', 'scipy']), size=rng.randint(1, 6), seed=rng.randrange(10 ** 6))
    for n in range(6 if tier == 'quick' else 40):
        yield dict(kind='sympy', type='nonlinear', mech='sympy', size=1, seed=rng.randrange(10 ** 6))
    for n in range(10):
        yield dict(kind='missing', type=rng.choice(['linear', 'nonlinear']), mech='symbolicsys', size=rng.randint(1, 4), seed=rng.randrange(10 ** 6))
