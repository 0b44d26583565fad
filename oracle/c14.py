from .lib import *
import sys

Z = [0] * 7
TYPES = ('linear', 'nonlinear', 'differential')
WANT = {(0, 0, 1): 'differential', (1, 0, 1): 'differential-algebraic', (0, 1, 1): 'differential-algebraic', (1, 1, 1): 'differential-algebraic',
        (0, 1, 0): 'nonlinear', (1, 1, 0): 'nonlinear', (1, 0, 0): 'linear', (0, 0, 0): None}
CLASS = {'linear': 'LASolver', 'nonlinear': 'NLASolver', 'differential': 'DSolver', 'differential-algebraic': 'DaeSolver'}
KEYS = {'linear': 'linear_solver', 'nonlinear': 'nonlinear_solver', 'differential': 'differential_solver', 'differential-algebraic': 'differential_algebraic_solver'}
OPTS = {'linear': (None, 'sympy', 'scipy', 'symbolicsys'), 'nonlinear': (None, '*', 'symbolicsys', 'sympy'), 'differential': ('ODEINT', 'CVODE'),
        'differential-algebraic': ('IDA',)}


def build(types, models=1, seed=0):
    """a square problem with equations of these types, spread over models"""
    rng = random.Random(seed)
    M, P, D = get('src.sloth.model', 'Model'), get('src.sloth.problem', 'Problem'), get(C + 'domain', 'Domain')
    E = get(C + 'equation_operators', 'Exp')
    ms = [M('M%d' % i) for i in range(models)]
    tm = ms[0]
    t = tm.createVariable('t', U(Z)) if 'differential' in types else None
    dom = D('dom', U(Z), t) if t is not None else None
    ks = [t_ for t_ in types]
    for j, ty in enumerate(ks):
        m = ms[j % models]
        x = m.createVariable('x%d' % j, U(Z))
        if ty == 'linear':
            m.createEquation('e%d' % j, '', x() - 2.0 * j - 1.0)
        elif ty == 'nonlinear':
            m.createEquation('e%d' % j, '', rng.choice([lambda: x() * x() - 4.0, lambda: E(x()) - 3.0])())
        else:
            x.distributeOnDomain(dom)
            m.createEquation('e%d' % j, '', x.Diff(t) == -1.0 * x(), check_equation=False)
    pr = P('p')
    pr.addModels(ms)
    return pr, ms, t, dom


def conf(**kw):
    d = dict(linear_solver=None, nonlinear_solver='*', differential_solver='ODEINT', differential_algebraic_solver='IDA', domain=None, time_variable_name=None,
             arg_names=[], args=[], compile_equations=True, compilation_mechanism='numpy', times_for_solution=None, initial_guess={}, initial_guess_solver=None,
             number_of_time_steps=10, variable_name_map={}, initial_time=0.0, end_time=1.0, problem_type=None, configuration_args={}, print_output=False,
             output_headers=None, verbosity_solver=0, is_dynamic=False, number_parameters_to_optimize=0)
    d.update(kw)
    return d


ROUTES = (('symbolicsys', 'pyneqsys'), ('scipy', '/scipy/linalg/'), ('scipy', '/numpy/linalg/'), ('sympy', '/sympy/solvers/solvers.py'))


def routine_used(f):
    """which external routine f enters first"""
    seen = []

    def prof(frame, event, arg):
        if event == 'call' and not seen:
            fn, nm = frame.f_code.co_filename, frame.f_code.co_name
            for r, pat in ROUTES:
                if pat in fn and (nm in ('solve', '__init__', 'from_callback') or 'pyneqsys' in fn):
                    seen.append(r)
    sys.setprofile(prof)
    try:
        r = attempt(f)
    finally:
        sys.setprofile(None)
    return r, (seen[0] if seen else None)


def run_case(c):
    F = Fails()
    k = c['kind']
    create = get(S + 'solvers', '_createSolver')
    types = c.get('types')
    if types is None:
        types = [t for t, h in zip(TYPES, c.get('has', (0, 1, 0))) if h]
    fl = tuple(int(t in types) for t in TYPES)
    w = WANT[fl]
    pr, ms, t, dom = build(types, c.get('models', 1), c.get('seed', 0))
    pr.resolve()
    b = pr.equation_block
    eqs = [e for m in ms for e in m.equations.values()]
    kinds = [e.type for e in eqs]
    F.check(sorted(kinds) == sorted(types), 'equation types', '%s %s' % (kinds, c))
    r = attempt(pr._getProblemType)
    if not F.check(r[0] == 'ok' and r[1] == w, 'wrong problem type', '%r instead of %r %s' % (r[1], w, c)):
        return F
    mech = c.get('mech')
    cf = conf(domain=dom)
    if k == 'unknown':
        cf['nonlinear_solver'] = mech
        r = attempt(create, pr, cf)
        F.check(r[0] == 'raise', 'an unknown nonlinear mechanism is accepted', c)
        return F
    if w:
        cf[KEYS[w]] = mech
        # the others are configured to something else
        for o in KEYS:
            if o != w:
                cf[KEYS[o]] = 'something else'
    if t is not None:
        cf['time_variable_name'] = t.name
        pr.setTimeVariableName(t.name)
        given = c.get('times')
        if given:           # some time variables more
            names = [t.name] + ['t%d_M' % i for i in range(1, len(given))]
            order = list(range(len(given)))
            random.Random(c.get('seed', 0)).shuffle(order)
            pr.setTimeVariableName([names[i] for i in order])
            cf['time_variable_name'] = pr.time_variable_name
            c = dict(c, given=all(given))
            pr.setInitialConditions({n: 0.0 for n, g in zip(names, given) if g and n != t.name})
        cf['compile_equations'] = c.get('compile', False)
        if given[0] if given else c.get('given', True):
            pr.setInitialConditions({t.name: 0.0})
        pr.setInitialConditions({n: 1.0 for n in b._var_list if n != t.name})
        if w == 'differential-algebraic':
            # compiling is not examined here
            b._getEquationBlockAsFunction = lambda *a, **k: (lambda *x: [0.0] * len(eqs))
    r = attempt(create, pr, cf)
    if w is None:
        F.check(r[0] == 'raise', 'a problem without equations gets a solver', c)
        return F
    if t is not None and not c.get('given', True):
        F.check(r[0] == 'raise', 'a dynamic problem without initial time is accepted', c)
        return F
    if not F.check(r[0] == 'ok', 'no solver for a %s problem' % w, '%r %s' % (r[1], c)):
        return F
    s = r[1]
    F.check(type(s).__name__ == CLASS[w], 'wrong solver', '%s %s' % (type(s).__name__, c))
    F.check(s.solver == mech, 'wrong mechanism', '%s %s' % (s.solver, c))
    F.check(s.problem is pr, 'wrong problem', c)
    same = lambda l, x: isinstance(l, list) and len(l) == len(x) and all(a is q for a, q in zip(l, x))
    for ty in TYPES:
        F.check(same(b._equation_groups[ty], [e for e in eqs if e.type == ty]), 'creating a solver changes the equation system', '%s %s' % (ty, c))
    F.check(same(b.equations, eqs), 'creating a solver changes the equation system', c)
    F.check(pr._getProblemType() == w, 'creating a solver changes the problem type', c)
    if w in ('linear', 'nonlinear') and mech in OPTS[w]:
        want = {'linear': {None: 'sympy'}, 'nonlinear': {None: 'symbolicsys', '*': 'symbolicsys'}}[w].get(mech, mech)
        r, used = routine_used(lambda: s.solve(cf))
        F.check(used == want, 'the configured mechanism is not the one used', '%s instead of %s %s' % (used, want, c))
    return F


def gen_cases(rng, tier):
    for h in WANT:
        w = WANT[h]
        for m in (OPTS[w] if w else (None,)):
            for n in (1, 2):
                yield dict(kind='solver', has=list(h), mech=m, models=n, compile=False)
    for g in (True, False):
        for cp in (True, False):
            yield dict(kind='dynamic', types=['differential'], mech='ODEINT', given=g, compile=cp)
            for g2 in (True, False):
                yield dict(kind='dynamic', types=['differential', 'differential'], mech='CVODE', times=[g, g2], compile=cp)
                yield dict(kind='dynamic', types=['differential', 'linear'], mech='IDA', times=[g, g2])
                yield dict(kind='dynamic', types=['differential'], mech='ODEINT', times=[g, g2, cp], compile=False)
            yield dict(kind='dynamic', types=['differential', 'linear'], mech='IDA', given=g)
    for m in ('scipy', '', 'newton', 'SYMPY', ' sympy', 'sym', '**'):
        yield dict(kind='unknown', types=['nonlinear'], mech=m)
        yield dict(kind='unknown', types=['nonlinear', 'linear'], mech=m)
    for n in range(60 if tier == 'quick' else 600):
        types = [rng.choice(TYPES[:rng.choice([1, 2, 2, 3])]) for i in range(rng.randint(0, 5))]
        w = WANT[tuple(int(t in types) for t in TYPES)]
        yield dict(kind='solver', types=types, mech=rng.choice(OPTS[w]) if w else None, models=rng.randint(1, 3), seed=rng.randrange(10 ** 6), compile=False)
