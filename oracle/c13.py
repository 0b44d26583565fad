from .lib import *

Z = [0] * 7


def check(F, c, pr, models, eqs, reg_v, reg_p, resolved=True):
    """eqs: all equations in order; reg_*: {name: object} in order of registration"""
    b = pr.equation_block
    if not F.check(b is not None, 'no equation system', c):
        return
    same = lambda l, w: isinstance(l, list) and len(l) == len(w) and all(x is y for x, y in zip(l, w))
    F.check(same(pr._equation_list, eqs) and same(b.equations, eqs), 'equations are lost, duplicated or reordered', '%d %d %s' % (len(b.equations), len(eqs), c))
    for t in ('linear', 'nonlinear', 'differential'):
        F.check(same(b._equation_groups[t], [e for e in eqs if e.type == t]), 'wrong %s group' % t, c)
    used = {k for e in eqs for k in e.objects_declared}
    for nm, d, reg, l in (('unknowns', b.variable_dict, reg_v, b._var_list), ('parameters', b.parameter_dict, reg_p, b._param_list)):
        want = [k for k in reg if k in used]
        F.check(list(d) == want, 'wrong ' + nm, '%r %r %s' % (list(d), want, c))
        F.check(all(d[k] is reg[k] for k in want if k in d), '%s are not the objects of the models' % nm, c)
        if resolved:
            F.check(list(l) == want, 'wrong names of ' + nm, '%r %s' % (l, c))
    if resolved:
        F.check(len(b._equations_list) == len(eqs), 'wrong number of residuals', c)
        for e, s in zip(eqs, b._equations_list):
            env = {k: 0.3 + 0.7 * i for i, k in enumerate(sorted(used))}
            w = e.eval({k: env[k] for k in e.objects_declared})
            if e.type == 'differential':
                continue
            g = s.evalf(subs=env) if hasattr(s, 'evalf') else s
            F.check(close(complex(g), complex(w)), 'the system holds something else than the residual of an equation', '%s %s %s' % (s, e.equation_expression.symbolic_object, c))


def run_case(c):
    import random
    F = Fails()
    rng = random.Random(c.get('seed', 1))
    M, P = get('src.sloth.model', 'Model'), get('src.sloth.problem', 'Problem')
    D = get(C + 'domain', 'Domain')
    n = c.get('models', 1)
    k = c['kind']
    if k == 'late':
        class Late(M):
            def DeclareVariables(self):
                self.x = self.createVariable('x', U(Z))
                self.y = self.createVariable('y', U(Z))

            def DeclareParameters(self):
                self.q = self.createParameter('q', U(Z))

            def DeclareEquations(self):
                self.createEquation('e', '', self.x() + self.q())
        pr = P('p')
        m = Late('M')
        if c['before']:
            m()
        pr.addModels(m)
        for i in range(2):
            pr.resolve()
            check(F, c, pr, [m], list(m.equations.values()), m.variables, m.parameters)
        return F
    ms, reg_v, reg_p = [], {}, {}
    pr = P('p')
    other = P('o')
    near = rng.random() < .4
    if c.get('shape') is not None:
        n = len(c['shape'])
    for i in range(n):
        m = M(['M0', 'x_M0', 'x_x_M0', 'M3', 'M4'][i % 5] if near else 'M%d' % i)
        ms.append(m)
        vs = [m.createVariable(x, U(Z)) for x in rng.sample(['a', 'b', 'c', 'd', 'aa', 'E'], rng.randint(1, 4))]
        qs = [m.createParameter(x, U(Z)) for x in rng.sample(['p', 'q', 'a', 'M0'], rng.randint(0, 2)) if x + '_' + m.name not in m.variables]
        ks = [m.createConstant(x, U(Z)) for x in rng.sample(['k', 'l'], rng.randint(0, 2))]
        t = None
        if rng.random() < .3:
            t = m.createVariable('t', U(Z))
            dom = D('dom', U(Z), t)
            for v in vs:
                v.distributeOnDomain(dom)
        alls = vs + qs + ks
        foreign = [o for x in ms[:-1] for o in list(x.variables.values()) + list(x.parameters.values())]
        for j in range(c['shape'][i] if c.get('shape') is not None else rng.randint(0, 4)):
            os = rng.sample(alls, rng.randint(1, min(3, len(alls))))
            if foreign and rng.random() < .3:
                os.append(rng.choice(foreign))
            e = None
            for o in os:
                e = o() if e is None else rng.choice([lambda: e + o(), lambda: e - o(), lambda: e * o()])()
            if t is not None and rng.random() < .4:
                e = rng.choice(vs).Diff(t) == e
            elif rng.random() < .4:
                e = e == rng.choice(alls)()
            elif rng.random() < .1:
                e = e == 2.5
            m.createEquation('eq%d' % j + ('_x' * rng.randint(0, 2) if near else ''), '', e, check_equation=False)
        if rng.random() < .5 and i:
            pr.addModels(m)
    for m in ms:
        reg_v.update(m.variables)
        reg_p.update(m.parameters)
    pr = P('p')
    if rng.random() < .5:
        pr.addModels(list(ms))
    else:
        for m in ms:
            pr.addModels(m)
    F.check(list(pr.models) == [m.name for m in ms] and all(pr.models[m.name] is m for m in ms), 'models', c)
    F.check(list(pr.variable_dict) == list(reg_v) and list(pr.parameter_dict) == list(reg_p), 'registered objects', c)
    F.check(not other.models and not other.variable_dict and not other.parameter_dict, 'another problem was changed', c)
    eqs = [e for m in ms for e in m.equations.values()]
    st = [(dict(m.variables), dict(m.parameters), dict(m.equations)) for m in ms]
    for i in range(2):
        pr.resolve()
        check(F, c, pr, ms, eqs, reg_v, reg_p)
    pr._buildEquationBlock()
    check(F, c, pr, ms, eqs, reg_v, reg_p, False)
    for m, s in zip(ms, st):
        F.check((m.variables, m.parameters, m.equations) == s, 'a model was changed', c)
    return F


def gen_cases(rng, tier):
    for b in (False, True):
        yield dict(kind='late', before=b)
    for n in range(300 if tier == 'quick' else 5000):
        yield dict(kind='system', models=rng.choice([1, 1, 2, 3, 4]), seed=rng.randrange(10 ** 6))
