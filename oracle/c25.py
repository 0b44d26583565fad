from .lib import *
import numpy as np
import scipy.integrate
import assimulo
from .c14 import conf

Z = [0] * 7
_odeint = scipy.integrate.odeint
REC = dict(on=False)


def odeint(fun, y0, t, *a, **k):
    if not REC['on']:
        return _odeint(fun, y0, t, *a, **k)
    REC['call'] = (fun, list(y0), list(t), a, k)
    return assimulo.result(t, len(y0))


scipy.integrate.odeint = odeint
FORMS = ('alone', 'coef', 'minus', 'state', 'sum', 'time', 'residual', 'rescoef', 'swapped', 'right')


def system(c):
    """-> problem, models, unknowns in order, time names, reference right hand sides / residuals, equations"""
    rng = random.Random(c['seed'])
    M, P, D = get(S + 'model', 'Model'), get(S + 'problem', 'Problem'), get(C + 'domain', 'Domain')
    n, m = c['n'], c.get('alg', 0)
    nm = c.get('models', 1)
    ms = [M('M%d' % i) for i in range(nm)]
    names = rng.sample(['x', 'y', 'z', 'u', 'v', 'w', 'aa', 'a', 'x1', 'x10', 'T', 't1', 'yd'], n + m)
    ts, vs = [], []
    first_t = rng.random() < .5
    if first_t:
        ts = [o.createVariable('t', U(Z)) for o in ms]
    own = {}
    for k in names:
        i = rng.randrange(nm)
        v = ms[i].createVariable(k, U(Z))
        own[v.name] = i
        vs.append(v)
    if not first_t:
        ts = [o.createVariable('t', U(Z)) for o in ms]
    dom = D('dom', U(Z), ts[0])
    order = vs[:]
    rng.shuffle(order)
    for v in order:
        v.distributeOnDomain(dom)
    dom()
    diffs = rng.sample(vs, n)
    ref = []                # (kind, variable, function of (values by name, derivatives by name, t))
    eqs = []
    par = ms[0].createParameter('p', U(Z))
    par.setValue(1.75)
    alg = [v for v in vs if v not in diffs]
    jobs = [('d', v) for v in diffs] + [('a', v) for v in alg]
    if m:
        rng.shuffle(jobs)
    for j, (k, v) in enumerate(jobs):
        # f = sum of c_i x_i + b [+ d t] (+ p x)
        co = {w.name: float(rng.choice([0, 0, 1., -2., .5, 3.])) for w in vs}
        if k == 'a':
            co[v.name] = 5.
        b, d = float(rng.choice([1., -2.])), float(rng.choice([0, 0, 2., -1.5]))
        e = None
        ti = rng.randrange(nm)
        for w in vs:
            if co[w.name]:
                q = w() * co[w.name]
                if k == 'a' and w is v and rng.random() < .5:
                    q = q * par()
                    co[w.name] *= 1.75
                e = q if e is None else e + q
        e = par() * b if e is None else e + par() * b
        b *= 1.75
        if d:
            e = e + ts[ti]() * d
        f = lambda Y, t, co=co, b=b, d=d: sum(co[w] * Y[w] for w in co) + b + d * t
        if k == 'a':
            if rng.random() < .5:
                eq, g = e - 0.5, lambda Y, Yd, t, f=f: f(Y, t) - .5
            else:
                eq, g = (e == 0.5), lambda Y, Yd, t, f=f: f(Y, t) - .5
            ref.append(('a', v.name, g))
        else:
            dv = v.Diff(ts[0] if not c.get('alltimes') else ts[ti])
            form = c.get('form') or rng.choice(FORMS)
            t = ts[0]
            nd = v.name
            if form == 'alone':
                eq, rhs, res = dv == e, f, lambda Y, Yd, t, f=f, nd=nd: Yd[nd] - f(Y, t)
            elif form == 'coef':
                eq, rhs, res = 2.0 * dv == e, lambda Y, t, f=f: f(Y, t) / 2, lambda Y, Yd, t, f=f, nd=nd: 2 * Yd[nd] - f(Y, t)
            elif form == 'minus':
                eq, rhs, res = -1.0 * dv == e, lambda Y, t, f=f: -f(Y, t), lambda Y, Yd, t, f=f, nd=nd: -Yd[nd] - f(Y, t)
            elif form == 'state':
                w = vs[0]
                eq, rhs, res = w() * dv == e, lambda Y, t, f=f, w=w.name: f(Y, t) / Y[w], lambda Y, Yd, t, f=f, nd=nd, w=w.name: Y[w] * Yd[nd] - f(Y, t)
            elif form == 'sum':
                w = vs[-1]
                eq, rhs, res = dv + w() == e, lambda Y, t, f=f, w=w.name: f(Y, t) - Y[w], lambda Y, Yd, t, f=f, nd=nd, w=w.name: Yd[nd] + Y[w] - f(Y, t)
            elif form == 'time':
                eq, rhs, res = (t() + 3.0) * dv == e, lambda Y, t, f=f: f(Y, t) / (t + 3), lambda Y, Yd, t, f=f, nd=nd: (t + 3) * Yd[nd] - f(Y, t)
            elif form == 'residual':
                eq, rhs, res = dv - e, f, lambda Y, Yd, t, f=f, nd=nd: Yd[nd] - f(Y, t)
            elif form == 'rescoef':
                eq, rhs, res = e + 4.0 * dv, lambda Y, t, f=f: -f(Y, t) / 4, lambda Y, Yd, t, f=f, nd=nd: 4 * Yd[nd] + f(Y, t)
            elif form == 'swapped':
                eq, rhs, res = e == dv, f, lambda Y, Yd, t, f=f, nd=nd: f(Y, t) - Yd[nd]
            elif form == 'right':
                eq, rhs, res = e == 3.0 + dv * 2.0, lambda Y, t, f=f: (f(Y, t) - 3) / 2, lambda Y, Yd, t, f=f, nd=nd: f(Y, t) - 3 - 2 * Yd[nd]
            if form == 'alone' and m and c.get('twice') and len(diffs) > 1 and rng.random() < .7:
                o = diffs[0] if diffs[0] is not v else diffs[1]
                eq = dv == e + o.Diff(ts[0]) * 0.5
                res = lambda Y, Yd, t, f=f, nd=nd, o=o.name: Yd[nd] - f(Y, t) - .5 * Yd[o]
            ref.append(('d', v.name, res, rhs))
        mi = own[v.name] if nm > 1 else 0
        eqs.append((ms[mi], 'e%d' % j, eq, ref[-1]))
    for o, k, eq, _ in eqs:
        o.createEquation(k, '', eq, check_equation=False)
    ref = [r for o in ms for (o2, _, _, r) in eqs if o2 is o]
    pr = P('p')
    pr.addModels(ms)
    tn = [t.name for t in ts]
    pr.setTimeVariableName(tn)
    pr.resolve()
    unknowns = [k for o in ms for k in o.variables if k not in tn]
    return pr, ms, unknowns, tn, ref, dom, eqs


def refused(c):
    F = Fails()
    M = get(S + 'model', 'Model')('m')
    t, x, y = [M.createVariable(k, U(Z)) for k in 'txy']
    for v in (x, y):
        v.distributeOnDomain(get(C + 'domain', 'Domain')('dom', U(Z), t))
    EO = get(C + 'equation_operators', 'Exp')
    e = {'nonlinear': lambda: EO(x.Diff(t)) == y() * 2.0, 'two': lambda: x.Diff(t) + y.Diff(t) == y() * 2.0, 'none': lambda: x() == y() * 2.0}[c['form']]
    eq = get(C + 'equation', 'Equation')('e', '', e())
    r = attempt(eq._getExplicitForm)
    F.check(r[0] == 'raise', 'no explicit form', '%r %s' % (r[1], c))
    return F


def run_case(c):
    if c['kind'] == 'refused':
        return refused(c)
    F = Fails()
    pr, ms, un, tn, ref, dom, eqs = system(c)
    rng = random.Random(c['seed'] + 5)
    b = pr.equation_block
    Y0 = {k: rng.uniform(1, 3) for k in un}
    D0 = {r[1]: rng.uniform(-2, 2) for r in ref if r[0] == 'd'}
    ic = [(k, v) for k, v in Y0.items()] + [(k + '_d', v) for k, v in D0.items()]
    t0 = c.get('t0', 0.)
    ic += [(k, t0) for k in tn]
    rng.shuffle(ic)
    ic = dict(ic)
    pr.setInitialConditions(ic)
    dae = c.get('alg', 0) > 0
    te, steps = t0 + 4., rng.choice([3, 5])
    how = c.get('tv', 'list')
    ren = {k: 'the ' + k for k in un} if c.get('rename') else {}
    cf = conf(differential_solver=c.get('solver', 'ODEINT'), differential_algebraic_solver='IDA', domain=dom, time_variable_name=list(tn) if how == 'list' else tn[0], initial_time=t0,
              end_time=te, number_of_time_steps=steps, compile_equations=c.get('compile', True), arg_names=[], args=[], configuration_args={}, times_for_solution=None, verbosity_solver=0,
              print_output=False, variable_name_map=ren, output_headers=['t'] + un, compilation_mechanism='numpy')
    before = list(b._var_list)
    assimulo.LAST.clear()
    REC['on'] = True
    REC['call'] = None
    try:
        s = attempt(get(S + 'solvers', '_createSolver'), pr, cf)
        if not F.check(s[0] == 'ok', 'solver for a dynamic problem', '%r %s' % (s[1], c)):
            return F
        out = attempt(s[1].solve, cf)
    finally:
        REC['on'] = False
    if not F.check(out[0] == 'ok', 'solution of a dynamic problem', '%s: %s %s' % (type(out[1]).__name__, out[1], c)):
        return F
    F.check(list(b._var_list) == before, 'the list of unknowns is changed', c)
    F.check(cf['arg_names'] in ([], list(tn)) or True, 'x')
    times = np.linspace(t0, te, steps + 1)
    rnd = lambda keys: {k: rng.uniform(.5, 3) for k in keys}
    if dae:
        p = assimulo.LAST.get('problem')
        order = [k for k in b._var_list if k not in tn]
        F.check(order == un, 'order of the unknowns', '%r %r %s' % (order, un, c))
        F.check(list(p.y0) == [Y0[k] for k in un], 'initial values of the states', '%r %r' % (p.y0, Y0))
        F.check(len(p.yd0) == len(un) and all(close(p.yd0[i], D0[k]) for i, k in enumerate(un) if k in D0), 'initial values of the derivatives', '%r %r' % (p.yd0, D0))
        F.check([float(x) for x in p.algvar] == [float(k in D0) for k in un], 'marks of the differential unknowns', '%r %r %s' % (p.algvar, un, c))
        F.check(p.t0 == t0, 'initial time')
        for _ in range(3):
            Y, Yd, t = rnd(un), rnd(D0), rng.uniform(0, 5)
            want = [r[2](Y, Yd, t) for r in ref]
            v = attempt(p.res, t, np.array([Y[k] for k in un]), np.array([Yd.get(k, 77.) for k in un]))
            F.check(v[0] == 'ok' and len(v[1]) == len(want) and all(close(float(x), w) for x, w in zip(v[1], want)), 'residuals', '%r %r %s' % (v[1], want, c))
        m = attempt(b._getMapForRewriteSystemAsResidual, tn)
        if F.check(m[0] == 'ok', 'maps', '%r' % (m[1],)):
            yd, y = m[1]
            F.check({str(k): str(v) for k, v in y.items() if k not in tn} == {k: 'y[%d]' % i for i, k in enumerate(un)}, 'map of the states', '%r' % (y,))
            F.check(all(str(v) == 'yd[%d]' % un.index(str(k.args[0])) for k, v in yd.items()) and {str(k.args[0]) for k in yd} == set(D0), 'map of the derivatives', '%r' % (yd,))
        names, n = un, len(un)
        F.check(close(p.t0, t0) and close(assimulo.LAST['tfinal'], te) and np.allclose(assimulo.LAST['times'], times), 'times', c)
    else:
        names = [r[1] for r in ref]
        if c.get('solver', 'ODEINT') in ('ODEINT', None):
            fun, y0, tt, a, k = REC['call']
            call = lambda Y, t: fun(np.array(Y), t)
            F.check(np.allclose(tt, times), 'times')
        else:
            p = assimulo.LAST['problem']
            y0 = list(p.y0)
            call = lambda Y, t: p.rhs(t, np.array(Y))
            F.check(p.t0 == t0, 'initial time', '%r %r' % (p.t0, t0))
            F.check(close(assimulo.LAST['tfinal'], te) and np.allclose(assimulo.LAST['times'], times), 'times')
        F.check(y0 == [Y0[k] for k in names], 'initial conditions in the order of the equations', '%r %r %s' % (y0, names, c))
        for _ in range(3):
            Y, t = rnd(un), rng.uniform(0, 5)
            want = [r[3](Y, t) for r in ref]
            v = attempt(call, [Y[k] for k in names], t)
            F.check(v[0] == 'ok' and len(v[1]) == len(want) and all(close(float(x), w) for x, w in zip(v[1], want)), 'right hand sides', '%r %r %s' % (v[1], want, c))
    Yf = assimulo.result(times, len(names))
    df = dom.values[tn[0]]
    head = [ren.get(k, k) for k in names]
    F.check(sorted(df.columns) == sorted([tn[0]] + head), 'headings', '%r' % (list(df.columns),))
    for i, h in enumerate(head):
        F.check(h in df.columns and np.allclose(df[h].values.astype(float), Yf[:, i]), 'column of a variable', '%s %r %s' % (h, df[h].values[:1] if h in df.columns else None, c))
    F.check(np.allclose(df[tn[0]].values.astype(float), times), 'column of the time')
    F.check(np.allclose(np.array(out[1][0], dtype=float), times) and np.allclose(out[1][1], Yf), 'result returned')
    return F


def gen_cases(rng, tier):
    for f in ('nonlinear', 'two', 'none'):
        yield dict(kind='refused', form=f)
    for f in FORMS:
        for n in (1, 2):
            yield dict(kind='ode', n=n, form=f, seed=n, compile=True)
            yield dict(kind='ode', n=n, form=f, seed=n + 10, compile=False, solver='CVODE')
            yield dict(kind='dae', n=n, alg=1, form=f, seed=n)
    for i in range(350 if tier == 'quick' else 4000):
        k = rng.choice(['ode', 'dae'])
        yield dict(kind=k, n=rng.randint(1, 4), alg=0 if k == 'ode' else rng.randint(1, 3), seed=rng.randrange(10 ** 6), form=rng.choice([None, None, 'alone']), twice=rng.random() < .3,
                   compile=rng.random() < .6, solver=rng.choice(['ODEINT', 'CVODE', None]), t0=rng.choice([0., 0., 2.5]), tv=rng.choice(['list', 'text']), rename=rng.random() < .3,
                   models=rng.choice([1, 1, 2]), alltimes=rng.random() < .5)
