"""C14: the problem type follows from its equations and selects the matching solver."""
from .lib import *
from .c13 import TYPES, equation, over

spec = Spec('C14')
spec.assumptions = ['an equation has exactly one of the types linear, nonlinear, differential (C06, C09)',
                    'compiling a dynamic problem (EquationBlock._getEquationBlockAsFunction) returns a function and changes nothing (see C25)']
WANT = {(False, False, True): 'differential', (True, False, True): 'differential-algebraic', (False, True, True): 'differential-algebraic',
        (True, True, True): 'differential-algebraic', (False, True, False): 'nonlinear', (True, True, False): 'nonlinear', (True, False, False): 'linear',
        (False, False, False): None}
CLASS = {'linear': 'LASolver', 'nonlinear': 'NLASolver', 'differential': 'DSolver', 'differential-algebraic': 'DaeSolver'}


def any_equations(p, tag='eqs'):
    """any number of equations of any types"""
    f = z3.Function(V.fresh('type'), z3.IntSort(), z3.IntSort())

    def mk(I, i):
        o = Obj(p.get(C + 'equation', 'Equation'))
        t = f(intz(i))
        I.assume(z3.And(t >= 0, t < 3))
        o.d.rset('name', p.string('eq'))
        o.d.rset('type', SStr((z3.If(t == 0, z3.StringVal(TYPES[0]), z3.If(t == 1, z3.StringVal(TYPES[1]), z3.StringVal(TYPES[2]))),)))
        return o
    return glist(p, tag, mk)


def has(p, eqs, t):
    """some equation is of type t (decided for the path)"""
    I = p.I
    return seqs.exists(I, eqs.items.segs[0], lambda e: I.truth_f(I.str_eq(I.getattr(e, 'type'), t)))


def problem(p, eqs):
    I = p.I
    pr = I.call(p.get(S + 'problem', 'Problem'), [p.string('prob')], {})
    vd = gmap(p, 'vd', lambda I, k: obj_stub(p, C + 'variable', 'Variable', k))
    b = I.call(p.get(C + 'equation_block', 'EquationBlock'), [eqs, vd, PDict()], {})
    I.setattr(pr, 'equation_block', b)
    return pr, b


@spec.obligation('the type of a problem with any number of equations')
def _(p):
    I = p.I
    eqs = any_equations(p)
    n = B_length(p, eqs)
    fl = tuple(has(p, eqs, t) for t in TYPES)
    if not any(fl):
        p.assume(n == 0)       # every equation has a type
    pr, b = problem(p, eqs)
    p.case(lambda c: dict(kind='type', has=list(fl)))
    r = p.method(pr, '_getProblemType')
    p.returns('the type is found', r)
    w = WANT[fl]
    p.eq('type of a problem that contains %s' % (', '.join(t for t, h in zip(TYPES, fl) if h) or 'no equation'), r[1], w)


def B_length(p, l):
    from pyvc import builtins_model as B
    return intz(B.length(p.I, l))


def config(p, **kw):
    """the configuration in force, with arbitrary values"""
    d = PDict()
    I = p.I
    for k, v in dict(linear_solver=None, nonlinear_solver='*', differential_solver='ODEINT', differential_algebraic_solver='IDA', domain=None, time_variable_name=None,
                     arg_names=PList([]), args=PList([]), compile_equations=True, compilation_mechanism='numpy', times_for_solution=None, initial_guess=PDict(),
                     initial_guess_solver=None, number_of_time_steps=100, variable_name_map=PDict(), initial_time=0.0, end_time=None, problem_type=None,
                     configuration_args=PDict(), print_output=False, output_headers=None, verbosity_solver=0, is_dynamic=False,
                     number_parameters_to_optimize=0).items():
        d.rset(k, kw.get(k, v))
    return d


OPTS = {'linear': (None, 'sympy', 'scipy', 'symbolicsys'), 'nonlinear': (None, '*', 'symbolicsys', 'sympy'), 'differential': ('ODEINT', 'CVODE'),
        'differential-algebraic': ('IDA',)}
KEYS = {'linear': 'linear_solver', 'nonlinear': 'nonlinear_solver', 'differential': 'differential_solver', 'differential-algebraic': 'differential_algebraic_solver'}


def stand_ins(p):
    f = Native('compiled', lambda I, a, k: PList([]))
    p.hook(lambda I, a, k: f, 'sympy.lambdify', 'sympy.utilities.lambdify')


@spec.obligation('the solver of an algebraic problem with any number of equations')
def _(p):
    I = p.I
    eqs = any_equations(p)
    fl = tuple(has(p, eqs, t) for t in TYPES)
    if fl[2]:
        raise PathInfeasible()
    if not any(fl):
        p.assume(B_length(p, eqs) == 0)
    pr, b = problem(p, eqs)
    src = copy_of(eqs)
    w = WANT[fl]
    mech = p.pick(OPTS[w], 'mech') if w else None
    conf = config(p, **{KEYS[t]: p.string('other') for t in KEYS if t != w}, **({KEYS[w]: mech} if w else {}))
    p.case(lambda c: dict(kind='solver', has=list(fl), mech=mech))
    r = p.call(p.get(S + 'solvers', '_createSolver'), pr, conf)
    if w is None:
        p.raises('a problem without equations is refused', r)
        return
    p.returns('a %s problem gets a solver' % w, r)
    p.one_of(lambda: p.ensure('it is the one for %s problems' % w, I.isinstance_(r[1], p.get(S + 'solvers', CLASS[w]))),
             lambda: p.same('it solves this problem', p.attr(r[1], 'problem'), pr),
             lambda: p.eq('it has the mechanism configured for %s problems' % w, p.attr(r[1], 'solver'), mech),
             lambda: p.same('it has the configuration', p.attr(r[1], 'additional_configurations'), conf))


@spec.obligation('creating the solver of an algebraic problem leaves the equation system as it is')
def _(p):
    I = p.I
    eqs = any_equations(p)
    fl = tuple(has(p, eqs, t) for t in TYPES)
    if fl[2] or not any(fl):
        raise PathInfeasible()
    pr, b = problem(p, eqs)
    src = copy_of(eqs)
    p.case(lambda c: dict(kind='solver', has=list(fl), mech=None))
    r = p.call(p.get(S + 'solvers', '_createSolver'), pr, config(p))
    p.returns('a problem gets a solver', r)
    p.one_of(lambda: over(p, 'the equations are as before', p.attr(b, 'equations'), src, lambda x: [x]),
             *[lambda t=t: over(p, 'the %s equations are as before' % t, I.getitem(p.attr(b, '_equation_groups'), t), src,
                                lambda x: [x] if I.truth_f(I.str_eq(p.attr(x, 'type'), t)) else []) for t in TYPES])


@spec.obligation('an unknown nonlinear mechanism is refused, for any number of equations')
def _(p):
    I = p.I
    eqs = any_equations(p)
    fl = tuple(has(p, eqs, t) for t in TYPES)
    if WANT[fl] != 'nonlinear':
        raise PathInfeasible()
    pr, b = problem(p, eqs)
    m = p.string('mechanism', False)
    for k in ('*', 'symbolicsys', 'sympy'):
        p.distinct(m, k)
    p.case(lambda c: dict(kind='unknown', mech=c.str(m)))
    r = p.call(p.get(S + 'solvers', '_createSolver'), pr, config(p, nonlinear_solver=m))
    p.raises('an unknown mechanism is refused', r)


@spec.obligation('the known nonlinear mechanisms are accepted and used, for any number of equations')
def _(p):
    I = p.I
    eqs = any_equations(p)
    fl = tuple(has(p, eqs, t) for t in TYPES)
    t = WANT[fl]
    if t not in ('linear', 'nonlinear'):
        raise PathInfeasible()
    pr, b = problem(p, eqs)
    mech = p.pick(OPTS[t], 'mech')
    want = {'linear': {None: 'sympy'}, 'nonlinear': {None: 'symbolicsys', '*': 'symbolicsys'}}[t].get(mech, mech)
    used = []

    def routine(name, res):
        def f(I, a, k):
            seqs._jappend(used, name)
            return res() if res else None
        return f
    p.hook(routine('sympy', lambda: PList([PDict()])), 'sympy.solve', 'sympy.solvers.solve', 'sympy.linsolve')
    p.hook(routine('scipy', lambda: PList([])), 'scipy.linalg.solve', 'numpy.linalg.solve')
    p.hook(lambda I, a, k: (NdMat(), NdMat()), 'sympy.linear_eq_to_matrix')

    class Sys(Host):
        hname = 'SymbolicSys'

        def h_getattr(self, I, name):
            if name == 'solve':
                return Native('solve', lambda I, a, k: (routine('symbolicsys', None)(I, a, k), (PList([]), p.pydict({'success': True})))[1])
            raise Unsupported('SymbolicSys.' + name)
    p.hook(lambda I, a, k: Sys(), 'pyneqsys.symbolic.SymbolicSys', 'pyneqsys.SymbolicSys')
    p.case(lambda c: dict(kind='mechanism', has=list(fl), mech=mech))
    r = p.call(p.get(S + 'solvers', '_createSolver'), pr, config(p, **{KEYS[t]: mech}))
    p.returns('mechanism %s of %s problems is accepted' % (mech, t), r)
    r2 = p.method(r[1], 'solve', config(p))
    p.returns('%s problem is solved with %s' % (t, mech), r2)
    p.ensure('mechanism %s of %s problems is the one used' % (mech, t), used == [want], repr(used))


class NdMat(Host):
    hname = 'matrix'
    is_array = True

    def h_getattr(self, I, name):
        if name in ('flatten', 'ravel', 'squeeze', 'reshape'):
            return Native(name, lambda I, a, k: self)
        raise Unsupported('matrix.' + name)


def diff_equation(p, tag, t):
    """a differential equation  d v/dt == rhs"""
    I = p.I
    e = Obj(p.get(C + 'equation', 'Equation'))
    e.d.rset('name', p.string('eq' + tag))
    e.d.rset('type', t)

    k = p.string('v' + tag)
    der = symx.Ex('app', (symx.symbol(k), symx.symbol(p.string('t' + tag))), 'Derivative')
    rhs = symx.Ex('app', (symx.symbol(k),), 'F_' + tag)

    def node(s):
        o = Obj(p.get(C + 'expression_evaluation', 'EquationNode'))
        o.d.rset('symbolic_object', s)
        m = PDict()
        m.rset(k, obj_stub(p, C + 'variable', 'Variable', k))
        o.d.rset('symbolic_map', m)
        return o
    e.d.rset('equation_form', 'elementary')
    e.d.rset('elementary_equation_expression', (node(der), node(rhs)))
    e.d.rset('equation_expression', node(symx.Ex('app', (der, rhs), 'Sub')))
    return e


for _ts, _nt in ((('differential',), 1), (('differential', 'differential'), 1), (('differential', 'linear'), 1), (('nonlinear', 'differential'), 1),
                 (('linear', 'differential', 'nonlinear'), 1), (('differential', 'differential'), 2), (('differential', 'linear'), 2), (('differential',), 3)):
    def _(p, _ts=_ts, _nt=_nt):
        I = p.I
        eqs = [diff_equation(p, str(i), t) for i, t in enumerate(_ts)]
        pr, b = problem(p, PList(list(eqs)))
        w = 'differential' if set(_ts) == {'differential'} else 'differential-algebraic'
        times = [p.string('time%d' % i) for i in range(_nt)]
        if _nt > 1:
            p.distinct(*times)
        tn = PList(list(times)) if _nt > 1 else times[0]
        flags = [p.flag('initial time %d is given' % i) for i in range(_nt)]
        given = all(flags)
        ic = gmap(p, 'ic', lambda I, k: SV('float', z3.Real(V.fresh('ic'))))
        I.setattr(pr, 'initial_conditions', ic)
        for t, g in zip(times, flags):
            I.assume(seqs.layered_dom(I, ic, t) if g else z3.Not(seqs.layered_dom(I, ic, t)))
        comp = p.flag('compile') if w == 'differential' else True
        mech = p.pick(OPTS[w], 'mech')
        stand_ins(p)
        I.setattr(b, '_getEquationBlockAsFunction', Native('_getEquationBlockAsFunction', lambda I, a, k: Native('compiled', lambda I, a, k: PList([]))))
        conf = config(p, time_variable_name=tn, compile_equations=comp, **{KEYS[w]: mech})
        p.case(lambda c: dict(kind='dynamic', types=list(_ts), mech=mech, given=given, compile=comp, times=flags if _nt > 1 else None))
        r = p.call(p.get(S + 'solvers', '_createSolver'), pr, conf)
        if not given:
            p.raises('a dynamic problem without initial time is refused', r)
            return
        p.returns('a %s problem gets a solver' % w, r)
        p.ensure('it is the one for %s problems' % w, I.isinstance_(r[1], p.get(S + 'solvers', CLASS[w])))
        p.same('it solves this problem', p.attr(r[1], 'problem'), pr)
        p.eq('it has the mechanism configured for %s problems' % w, p.attr(r[1], 'solver'), mech)
        g = p.attr(b, '_equation_groups')
        for t in TYPES:
            l = I.getitem(g, t)
            want = [e for e, u in zip(eqs, _ts) if u == t]
            p.ensure('the %s equations are as before' % t, isinstance(l, PList) and isinstance(l.items, list) and len(l.items) == len(want) and
                     all(x is y for x, y in zip(l.items, want)), repr(l))
        p.ensure('the equations are as before', [id(x) for x in p.attr(b, 'equations').items] == [id(x) for x in eqs])
    spec.obligation('the solver of a problem with %s equations%s' % (', '.join(_ts), ' and %d time variables' % _nt if _nt > 1 else ''),
                    bounded='up to three equations and time variables')(_)
