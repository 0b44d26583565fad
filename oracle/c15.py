from .lib import *

Z = [0] * 7


def build(c):
    """a problem from a description: models with unknowns, parameters, time variables and equations"""
    rng = random.Random(c['seed'])
    M, P, D = get(S + 'model', 'Model'), get(S + 'problem', 'Problem'), get(C + 'domain', 'Domain')
    ms, times, extra = [], [], 0
    tname = c.get('tname', 't')
    determined = set()
    n_unknown = 0
    occ = {}
    for i in range(c.get('models', 1)):
        m = M(c.get('mname', 'M') + (str(i) if i else ''))
        ms.append(m)
        pool = rng.sample(['x', 'y', 'zt', 'tt', 't2', 'temp', 'e', 'u'], c['nv'])
        vs = [m.createVariable(n, U(Z)) for n in pool if n != tname]
        ps = []
        for j in range(c['np']):
            p = m.createParameter('p%d' % j, U(Z), value=rng.choice([0, 0, 2.5, -1]))
            if rng.random() < .5:
                p.setValue(1.5 + j)
            ps.append(p)
        t = None
        if c.get('dynamic'):
            t = m.createVariable(tname, U(Z))
            times.append(t)
            dom = D('dom%d' % i, U(Z), t)
            for v in vs:
                v.distributeOnDomain(dom)
        for j in range(c['ne']):
            e = None
            if not vs + ps:
                continue
            used = rng.sample(vs + ps, min(len(vs + ps), rng.randint(1, 3)))
            for o in used:
                e = o() if e is None else e + o() * 2.0
            k = rng.choice(['alg', 'alg', 'diff', 'difft', 'diffonly', 'diffmul', 'diffside', 'diffexp']) if t is not None and vs else 'alg'
            if c.get("shape") and t is not None and vs:
                k = c['shape']
            if k != 'diffonly':
                occ.update({o.name: o for o in used})
            if k == 'alg':
                eq = e - 1.0 if rng.random() < .5 else (e == 1.0)
            else:
                v = rng.choice(vs)
                occ[v.name] = v
                d = v.Diff(t)
                if k == 'diff':
                    eq = d == e
                elif k == 'difft':
                    eq = d == e + t()
                elif k == 'diffonly':
                    eq = d == t()
                elif k == 'diffmul':
                    eq = t() * d - e
                elif k == 'diffside':
                    eq = d - t() - e
                elif k == 'diffexp':
                    eq = d == get(C + 'equation_operators', 'Exp')(t()) * e
                if k != 'diff':
                    determined.add(t.name)
                    occ[t.name] = t
            m.createEquation('e%d' % j, '', eq, check_equation=False)
    pr = P('p')
    pr.addModels(ms)
    if times and not c.get('no_time'):
        pr.setTimeVariableName([t.name for t in times] if len(times) > 1 or rng.random() < .5 else times[0].name)
    else:
        determined = set() if c.get('no_time') else determined
    pr.resolve()
    V, Q = get(C + 'variable', 'Variable'), get(C + 'parameter', 'Parameter')
    nv = sum(type(o) is V for o in occ.values())
    nq = sum(type(o) is Q and not o.is_specified for o in occ.values())
    ne = sum(len(m.equations) for m in ms)
    return pr, ms, nv, nq, ne, len(determined)


def run_case(c):
    F = Fails()
    pr, ms, nv, nq, ne, nt = build(c)
    A = get(S + 'analysis', 'DOF_Analysis')
    b = pr.equation_block
    F.check(len(b._var_list) == nv, 'number of unknowns', '%r %d %s' % (b._var_list, nv, c))
    dof = nv + nq - ne - nt
    st = lambda: (list(b._var_list), list(b._equations_list), list(b.equations), {k: (v.is_specified, v.value) for k, v in b.parameter_dict.items()},
                  {k: list(v) for k, v in b._equation_groups.items()}, list(b.variable_dict), pr.time_variable_name and list(pr.time_variable_name))
    before = st()
    no = c.get('optimized', 0)
    r = attempt(A(pr, no)._makeSanityChecks)
    if dof == 0:
        F.check(r[0] == 'ok', 'a square system is refused', '%r %s' % (str(r[1])[:90], c))
    else:
        F.check(r[0] == 'raise', 'a system with %s degrees of freedom is accepted' % ('too few' if dof < 0 else 'remaining'), '%d %s' % (dof, c))
        if r[0] == 'raise':
            m = str(r[1]).lower()
            F.check(('over' in m) == (dof < 0) and ('under' in m) == (dof > 0), 'the wrong kind of misspecification is reported', '%d %s %s' % (dof, m[:80], c))
    F.check(st() == before, 'the check changes the problem', c)
    F.check((attempt(A(pr)._makeSanityChecks)[0] == 'ok') == (r[0] == 'ok'), 'the check is not repeatable', c)
    return F


def gen_cases(rng, tier):
    for sh in ('diff', 'difft', 'diffonly', 'diffmul', 'diffside', 'diffexp'):
        for ne in (0, 1, 2):
            for m in (1, 2):
                for s in range(2):
                    yield dict(kind='dof', nv=2, np=1, ne=ne, models=m, dynamic=True, shape=sh, seed=s)
    for n in range(400 if tier == 'quick' else 5000):
        yield dict(kind='dof', nv=rng.randint(0, 4), np=rng.randint(0, 2), ne=rng.randint(0, 4), models=rng.choice([1, 1, 1, 2]), dynamic=rng.random() < .6,
                   tname=rng.choice(['t', 't', 'temp', 'e', 'time']), mname=rng.choice(['M', 'e', 't']), no_time=rng.random() < .1, optimized=rng.choice([0, 0, 1, 2]), seed=rng.randrange(10 ** 6))
