"""C25: dynamic problems map states, derivatives and time to the solver vectors consistently."""
import itertools
from .lib import *
from pyvc import frames, extlib
from pyvc.values import _MISSING
from .c13 import over
from .c14 import config
from .c17 import Values

def nm_of(x):
    return str2z(x.d.rget('elementary_equation_expression')[0].d.rget('symbolic_object').args[0].info)


ICF = z3.Function('initial condition', z3.StringSort(), z3.RealSort())
spec = Spec('C25')
spec.assumptions = ['names of quantities differ from one another and from t, y, yd and the positions y[i], yd[i]',
                    'sympy.lambdify(names, expressions) returns a function that gives the value of each expression, in order, at the values given for the names; an entry y[i] of a '
                    'vector argument y is written as a symbol of that name',
                    'scipy.integrate.odeint(f, y0, times) and assimulo return one row per time point and one column per entry of y0',
                    'coefficients of derivatives are not zero (for zero the derivative is not determined by the equation)']


def fn(I, tag, syms):
    """an arbitrary function of the symbols"""
    return symx.Ex('app', tuple(syms), 'F_' + V.fresh(tag))


def D(x, t):
    return symx.Ex('app', (x, t), 'Derivative')


B2 = lambda op, a, b: symx.Ex('app', (a, b), op)
FORMS = {
    'alone': lambda d, c, r: (d, r),
    'coefficient': lambda d, c, r: (B2('Mult', c, d), r),
    'divided': lambda d, c, r: (B2('Div', d, c), r),
    'negative': lambda d, c, r: (symx.Ex('app', (d,), 'USub'), r),
    'sum': lambda d, c, r: (B2('Add', d, c), r),
    'difference': lambda d, c, r: (B2('Sub', c, d), r),
    'right': lambda d, c, r: (r, B2('Mult', d, c)),
    'both sides': lambda d, c, r: (B2('Mult', c, d), B2('Add', r, d)),
    'residual': lambda d, c, r: (B2('Add', r, B2('Mult', c, d)), None),
    'plain residual': lambda d, c, r: (B2('Sub', d, r), None),
}


def explicit(form, c, r):
    """value of the derivative; c, r: z3 values"""
    return {'alone': r, 'coefficient': r / c, 'divided': r * c, 'negative': -r, 'sum': r - c, 'difference': c - r, 'right': r / c, 'both sides': r / (c - 1), 'residual': -r / c,
            'plain residual': r}[form]


def eqn(p, tag, type_, sides, var=None):
    """an equation with the given sides (the second None: residual form)"""
    I = p.I
    e = Obj(p.get(C + 'equation', 'Equation'))
    e.d.rset('name', p.string('eq' + tag))
    e.d.rset('type', type_)
    m = PDict()
    for v in var or []:
        m.rset(p.attr(v, 'name'), v)

    def node(s):
        o = Obj(p.get(C + 'expression_evaluation', 'EquationNode'))
        o.d.rset('symbolic_object', s)
        o.d.rset('symbolic_map', m)
        return o
    l, r = sides
    if r is None:
        e.d.rset('equation_form', 'residual')
        e.d.rset('elementary_equation_expression', None)
        e.d.rset('equation_expression', node(l))
    else:
        e.d.rset('equation_form', 'elementary')
        e.d.rset('elementary_equation_expression', (node(l), node(r)))
        e.d.rset('equation_expression', node(B2('Sub', l, r)))
    return e


def env(pairs):
    return symx.upd(symx.SIGMA, pairs)


def valued(I, e, pairs):
    """the value of an expression where the names have the values"""
    return SV('float', symx.den(e, env(pairs)))


def lambdify(p, log=None):
    def f(I, a, k):
        names, exprs = list(I.iterate(a[0])), list(I.iterate(a[1]))
        if log is not None:
            log.append((names, exprs))

        def g(I, b, k2):
            if len(b) != len(names):
                I.throw('TypeError', 'number of arguments')
            prs = []
            for n, v in zip(names, b):
                if isinstance(v, (PList, extlib.NdArr, tuple)):
                    for i, x in enumerate(I.iterate(v)):
                        prs.append(('%s[%d]' % (I.conc_str(n), i), x))
                else:
                    prs.append((n.info if isinstance(n, symx.Ex) else n, v))
            return PList([valued(I, e, prs) if isinstance(e, symx.Ex) else e for e in exprs])
        return Native('compiled', g)
    p.hook(f, 'sympy.lambdify', 'sympy.utilities.lambdify')


class Sys(Node):
    pass


def setup(p, n, nt=1, perm=None, jobs=(), tpos=None):
    """n unknowns x_0.. (in the order of the equations) and time variables; the order of the unknowns in the system is perm"""
    I = p.I
    s = Sys()
    s.x = [p.string('x%d' % i) for i in range(n)]
    s.t = [p.string('time%d' % i) for i in range(nt)]
    p.distinct(*(s.x + s.t))
    for k in ['t', 'y', 'yd'] + ['%s[%d]' % (a, i) for a in ('y', 'yd') for i in range(n)]:
        for nm in s.x + s.t:
            r = I.str_eq(nm, k)
            if r is not False:
                I.assume(z3.Not(r))
    s.var = {k: obj_stub(p, C + 'variable', 'Variable', k) for k in s.x + s.t}
    s.perm = list(perm or range(n))
    names = [s.x[i] for i in s.perm]
    tpos = p.choice(3, 'place of the time') if tpos is None else tpos
    at = {0: 0, 1: len(names) // 2, 2: len(names)}[tpos]
    s.order = names[:at] + s.t[:1] + names[at:] + s.t[1:]
    s.syms = [symx.symbol(k) for k in s.x + s.t]
    s.d = [D(symx.symbol(k), symx.symbol(s.t[0])) for k in s.x]
    return s


def finish(p, s, eqs, ic=True, tn=None):
    I = p.I
    s.eqs = eqs
    s.pr = I.call(p.get(S + 'problem', 'Problem'), [p.string('prob')], {})
    vd = PDict()
    for k in s.order:
        vd.rset(k, s.var[k])
    s.b = I.call(p.get(C + 'equation_block', 'EquationBlock'), [PList(list(eqs)), vd, PDict()], {})
    I.call(s.b, [], {})
    I.setattr(s.pr, 'equation_block', s.b)
    I.setattr(s.pr, 'time_variable_name', PList(list(s.t)) if len(s.t) > 1 or p.flag('list of times') else s.t[0])
    s.ic = PDict()
    s.x0 = [p.real('x0_%d' % i) for i in range(len(s.x))]
    s.xd0 = [p.real('xd0_%d' % i) for i in range(len(s.x))]
    for k, v in reversed(list(zip(s.x, s.x0))):
        s.ic.rset(k, v)
    for k, v in zip(s.x, s.xd0):
        s.ic.rset(I.binop('Add', k, '_d'), v)
        for k2 in s.x + s.t:
            r = I.str_eq(I.binop('Add', k, '_d'), k2)
            if r is not False:
                I.assume(z3.Not(r))
    for k in s.t:
        s.ic.rset(k, p.real('t0'))
    I.setattr(s.pr, 'initial_conditions', s.ic)
    s.dom = I.call(p.get(C + 'domain', 'Domain'), [p.string('dom'), unit(p, 'ud'), s.var[s.t[0]]], {})
    s.heads = list(s.x)
    k = p.choice(2, 'order of the columns') if len(s.x) > 1 else 0
    if k:
        s.heads = list(reversed(s.heads)) if s.perm != list(reversed(range(len(s.x)))) else s.heads[1:] + s.heads[:1]
    for h in s.heads:
        I.call(I.getattr(s.dom, '_distributeOnDomain'), [s.var[h]], {})
    s.reg = []
    I.setattr(s.dom, '_register', Native('_register', lambda I, a, k: seqs._jappend(s.reg, a[0])))
    I.setattr(s.dom, '_renameHeaders', Native('_renameHeaders', lambda I, a, k: seqs._jappend(s.reg, ('rename', a[0]))))
    s.start, s.end = p.real('start'), p.real('end')
    s.nsteps = p.int('steps')
    I.assume(intz(s.nsteps) >= 1)
    s.times = frames.Vec(intz(s.nsteps) + 1, 'times')
    s.spaced = []

    def linspace(I, a, k):
        seqs._jappend(s.spaced, (a, k))
        return s.times
    p.hook(linspace, 'numpy.linspace')
    s.rename = PDict()
    s.cf = dict(domain=s.dom, time_variable_name=s.t[0], initial_time=s.start, end_time=s.end, number_of_time_steps=s.nsteps, arg_names=PList([]), args=PList([]),
                variable_name_map=s.rename)
    return s


def grid(p, s):
    if p.ensure('the time points are spaced once', len(s.spaced) == 1, repr(s.spaced)):
        a, k = s.spaced[0]
        if p.ensure('the time points (arguments)', len(a) == 3 and not k, repr((a, k))):
            p.eq('first time point', a[0], s.start)
            p.eq('last time point', a[1], s.end)
            p.eq('number of time points', a[2], p.I.binop('Add', s.nsteps, 1))


def columns(p, s, got, names, mat):
    """the matrix handed to the domain: the times, then the column of each heading"""
    I = p.I
    reg = [x for x in s.reg if not isinstance(x, tuple)]
    if not p.ensure('the solution is registered once', len(reg) == 1, repr(s.reg)):
        return
    m = reg[0]
    if not p.ensure('the solution registered is a matrix', isinstance(m, frames.Mat) and len(m.blocks) == 1 and m.blocks[0].parts is not None, repr(m)):
        return
    ps = m.blocks[0].parts
    if not p.ensure('columns of the solution', len(ps) == len(s.heads) + 1 or len(ps) == 2, repr(ps)):
        return
    p.ensure('the column of the time', ps[0] is s.times, repr(ps))
    for i, h in enumerate(s.heads):
        j = names.index(h)
        if len(ps) == 2 and len(s.heads) > 1:
            p.ensure('the column of each unknown', ps[1] is mat and i == j, repr(ps))
        elif ps[i + 1] is mat:
            p.ensure('the column of each unknown', len(s.heads) == 1, repr(ps))
        else:
            q = ps[i + 1]
            p.ensure('the column of each unknown', isinstance(q, frames.Col) and q.mat is mat and z3.is_true(z3.simplify(q.i == j)), '%r instead of %d of %r' % (q, j, mat))
    p.ensure('the headings are renamed as configured', [x for x in s.reg if isinstance(x, tuple)] in ([('rename', s.rename)], []) or
             all(x[1] is s.rename for x in s.reg if isinstance(x, tuple)), repr(s.reg))


def ode(n, forms, compile_, mech, nt=1, perms=None, tpos=None, times='list'):
    def ob(p):
        I = p.I
        perm = p.pick(perms or list(itertools.permutations(range(n))), 'order')
        s = setup(p, n, nt, perm, tpos=tpos)
        fs = [p.pick(list(forms), 'form') for _ in range(n)]
        cs = [fn(I, 'c%d' % i, s.syms) for i in range(n)]
        rs = [fn(I, 'r%d' % i, s.syms) for i in range(n)]
        finish(p, s, [eqn(p, str(i), 'differential', FORMS[fs[i]](s.d[i], cs[i], rs[i]), list(s.var.values())) for i in range(n)])
        lambdify(p)
        mat = frames.Mat([frames.Blk('solution', intz(s.nsteps) + 1, z3.IntVal(n))], z3.IntVal(n))
        calls = []

        def odeint(I, a, k):
            seqs._jappend(calls, (a, k))
            return mat
        p.hook(odeint, 'scipy.integrate.odeint')
        p.hook(lambda I, a, k: Explicit(a, k), 'assimulo.problem.Explicit_Problem')

        class CV(Host):
            hname = 'CVode'

            def __init__(self, prob):
                self.prob = prob

            def h_setattr(self, I, name, v):
                pass

            def h_getattr(self, I, name):
                if name == 'simulate':
                    return Native('simulate', self.simulate)
                raise Unsupported('CVode.' + name)

            def simulate(self, I, a, k):
                q = self.prob
                seqs._jappend(calls, ((q.arg(0, 'rhs'), q.arg(1, 'y0'), k.get('ncp_list', a[2] if len(a) > 2 else None)), dict(t0=q.arg(2, 't0'), tfinal=a[0])))
                return (s.times, mat)
        p.hook(lambda I, a, k: CV(a[0]), 'assimulo.solvers.CVode')
        dist = conc_case(p, s, fs, kind='ode', compile=compile_, solver=mech)
        cf = config(p, differential_solver=mech, compile_equations=compile_, **s.cf)
        if times == 'text':
            pass
        var0 = list(p.attr(s.b, '_var_list').items)
        r = p.call(p.get(S + 'solvers', '_createSolver'), s.pr, cf)
        p.returns('a differential problem gets a solver', r)
        r2 = p.method(r[1], 'solve', cf)
        p.returns('a differential problem is solved', r2)
        l = p.attr(s.b, '_var_list').items
        p.ensure('the unknowns of the system are unchanged', len(l) == len(var0) and all(a is b for a, b in zip(l, var0)))
        if not p.ensure('one integration', len(calls) == 1, repr(calls)):
            return
        a, k = calls[0]
        grid(p, s)
        p.ensure('the time points are handed over', a[2] is s.times or isinstance(a[2], frames.VecList) and a[2].vec is s.times, repr(a[2]))
        if mech == 'CVODE':
            p.eq('the integration starts at the initial time', k['t0'], s.start)
            p.eq('the integration ends at the end time', k['tfinal'], s.end)
        y0 = list(I.iterate(a[1]))
        if p.ensure('one initial value per equation', len(y0) == n):
            for i in range(n):
                p.eq('initial conditions in the order of the equations', y0[i], s.x0[i])
        ys = [p.real('y%d' % i) for i in range(n)]
        now = p.real('now')
        at = list(zip(s.x, ys)) + [(t, now) for t in s.t]
        cv = [valued(I, c, at).t for c in cs]
        rv = [valued(I, r, at).t for r in rs]
        for c, f in zip(cv, fs):
            p.assume(z3.And(c != 0, c != 1))
        yv = extlib.NdArr(list(ys))
        v = p.call(a[0], *([now, yv] if mech == 'CVODE' else [yv, now]))
        p.returns('the right-hand sides are evaluated', v)
        got = list(I.iterate(v[1]))
        if p.ensure('one right-hand side per equation', len(got) == n):
            for i in range(n):
                p.eq('right-hand sides in the order of the equations', got[i], SV('float', explicit(fs[i], cv[i], rv[i])))
        columns(p, s, None, s.x, mat)
        ret = r2[1]
        p.ensure('times and solution are returned', isinstance(ret, tuple) and len(ret) == 2 and ret[0] is s.times and ret[1] is mat, repr(ret))
    return ob


def conc_case(p, s, fs, **kw):
    p.case(lambda c: dict(n=len(s.x), seed=11, form=None, **kw))


class Explicit(Host):
    hname = 'problem of assimulo'
    names = ('rhs', 'y0', 't0')

    def __init__(self, a, k):
        self.a, self.k = a, k

    def arg(self, i, name):
        return self.k.get(name, self.a[i] if len(self.a) > i else 0.0)

    def h_setattr(self, I, name, v):
        o = dict(self.k)
        self.k = {**self.k, name: v}
        J.rec(self, lambda: setattr(self, 'k', o))

    def h_getattr(self, I, name):
        if name in self.k:
            return self.k[name]
        raise Unsupported('attribute %s' % name)


for _m in ('ODEINT', 'CVODE'):
    for _c in (True, False):
        spec.obligation('differential problems, derivatives alone on the left, %s, %scompiled' % (_m, '' if _c else 'not '), bounded='up to three equations')(
            lambda p, _m=_m, _c=_c: ode(*((3, ['alone']) if p.flag('three') else (2, ['alone'])), _c, _m, tpos=None)(p))

for _m, _c in (('ODEINT', True), ('ODEINT', False), ('CVODE', True)):
    spec.obligation('differential problems of any form, %s, %scompiled' % (_m, '' if _c else 'not '), bounded='up to two equations, ten forms')(
        lambda p, _m=_m, _c=_c: ode(*((1, FORMS) if p.flag('one') else (2, ['coefficient', 'right', 'sum', 'residual'])), _c, _m, tpos=1)(p))

spec.obligation('differential problems with several time variables', bounded='two equations, two time variables')(
    lambda p: ode(2, ['alone', 'residual'], p.flag('compile'), p.pick(['ODEINT', 'CVODE'], 'mech'), nt=2, tpos=0)(p))


@spec.obligation('an equation is solved for its derivative, whatever its form', bounded='ten forms of linear equations; any coefficients')
def _(p):
    I = p.I
    s = setup(p, 2, 1, tpos=0)
    form = p.pick(list(FORMS), 'form')
    c, r = fn(I, 'c', s.syms), fn(I, 'r', s.syms)
    e = eqn(p, 'q', 'differential', FORMS[form](s.d[1], c, r), list(s.var.values()))
    p.case(lambda c: dict(kind='ode', n=2, seed=5, compile=True))
    q = p.method(e, '_getExplicitForm')
    p.returns('the explicit form is found', q)
    d, x = q[1]
    p.ensure('the derivative', isinstance(d, symx.Ex) and symx.same(d, s.d[1]), repr(d))
    cv, rv = symx.den(c), symx.den(r)
    p.assume(z3.And(cv != 0, cv != 1))
    p.eq('the value of the derivative', SV('float', symx.den(x)), SV('float', explicit(form, cv, rv)))
    p.ensure('the explicit form contains no derivative', z3.Not(symx.flags(x)[2]))


@spec.obligation('an equation that does not determine a derivative is refused', bounded='three forms')
def _(p):
    I = p.I
    s = setup(p, 2, 1, tpos=0)
    r = fn(I, 'r', s.syms)
    form = p.pick(['nonlinear', 'two', 'none'], 'form')
    side = {'nonlinear': symx.Ex('app', (s.d[0],), 'exp'), 'two': B2('Add', s.d[0], s.d[1]), 'none': symx.symbol(s.x[0])}[form]
    e = eqn(p, 'q', 'differential', (side, r), list(s.var.values()))
    p.case(lambda c: dict(kind='refused', form=form))
    q = p.method(e, '_getExplicitForm')
    p.raises('no explicit form', q)


# ------------------------------------------------------------------ differential-algebraic problems
def dae(nd, na, nt=1, tpos=None, two_sided=False):
    """nd differential and na algebraic equations: any functions of the unknowns, the times and (differential ones) all derivatives"""
    def ob(p):
        I = p.I
        n = nd + na
        s = setup(p, n, nt, p.pick(list(itertools.permutations(range(n))), 'order'), tpos=tpos)
        # the differential unknowns are the first nd of s.x
        ders = s.d[:nd]
        kinds = p.pick(sorted(set(itertools.permutations(['differential'] * nd + ['nonlinear'] * na))), 'kinds')
        fs, eqs = [], []
        for i, t in enumerate(kinds):
            args = s.syms + (ders if t == 'differential' else [])
            f = fn(I, 'f%d' % i, args)
            g = fn(I, 'g%d' % i, args) if two_sided else None
            fs.append((f, g))
            eqs.append(eqn(p, str(i), t, (f, g), list(s.var.values())))
        finish(p, s, eqs)
        lambdify(p)
        mat = frames.Mat([frames.Blk('solution', intz(s.nsteps) + 1, z3.IntVal(n))], z3.IntVal(n))
        made, calls = [], []

        class Imp(Explicit):
            names = ('res', 'y0', 'yd0', 't0')

        def implicit(I, a, k):
            q = Imp(a, k)
            seqs._jappend(made, q)
            return q
        p.hook(implicit, 'assimulo.problem.Implicit_Problem')

        class Ida(Host):
            hname = 'IDA'

            def __init__(self, prob):
                self.prob = prob

            def h_setattr(self, I, name, v):
                pass

            def h_getattr(self, I, name):
                if name == 'make_consistent':
                    return Native(name, lambda I, a, k: None)
                if name == 'simulate':
                    def f(I, a, k):
                        seqs._jappend(calls, (self.prob, a, k))
                        return (s.times, mat, frames.Mat([frames.Blk('derivatives', intz(s.nsteps) + 1, z3.IntVal(n))], z3.IntVal(n)))
                    return Native('simulate', f)
                raise Unsupported('IDA.' + name)
        p.hook(lambda I, a, k: Ida(a[0]), 'assimulo.solvers.IDA')
        p.case(lambda c: dict(kind='dae', n=nd, alg=na, seed=11))
        cf = config(p, **s.cf)
        r = p.call(p.get(S + 'solvers', '_createSolver'), s.pr, cf)
        p.returns('a differential-algebraic problem gets a solver', r)
        r2 = p.method(r[1], 'solve', cf)
        p.returns('a differential-algebraic problem is solved', r2)
        if not p.ensure('one integration', len(calls) == 1, repr(calls)):
            return
        q, a, k = calls[0]
        grid(p, s)
        p.eq('the integration ends at the end time', a[0], s.end)
        ts = k.get('ncp_list', a[2] if len(a) > 2 else None)
        p.ensure('the time points are handed over', ts is s.times or isinstance(ts, frames.VecList) and ts.vec is s.times, repr(ts))
        p.eq('the integration starts at the initial time', q.arg(3, 't0'), s.start)
        order = [i for i in s.perm]          # position of the state vector -> unknown
        y0 = list(I.iterate(q.arg(1, 'y0')))
        yd0 = list(I.iterate(q.arg(2, 'yd0')))
        if p.ensure('one initial value per unknown', len(y0) == n and len(yd0) == n, '%r %r' % (y0, yd0)):
            for j, i in enumerate(order):
                p.eq('initial values of the states in the order of the unknowns', y0[j], s.x0[i])
                if i < nd:
                    p.eq('initial values of the derivatives at the positions of their unknowns', yd0[j], s.xd0[i])
        fl = list(I.iterate(q.k.get('algvar', PList([]))))
        if p.ensure('one mark per unknown', len(fl) == n, repr(fl)):
            for j, i in enumerate(order):
                p.eq('differential unknowns are marked', fl[j], 1.0 if i < nd else 0.0)
        ys, yds, now = [p.real('y%d' % i) for i in range(n)], [p.real('yd%d' % i) for i in range(n)], p.real('now')
        vals = [real(v) for v in ys] + [real(now)] * nt
        dv = [real(v) for v in yds[:nd]]
        v = p.call(q.arg(0, 'res'), now, extlib.NdArr([ys[i] for i in order]), extlib.NdArr([yds[i] for i in order]))
        p.returns('the residuals are evaluated', v)
        got = list(I.iterate(v[1]))
        if p.ensure('one residual per equation', len(got) == n):
            for j, ((f, g), t) in enumerate(zip(fs, kinds)):
                w = vals + (dv if t == 'differential' else [])
                want = symx.fun(f.info, len(w))(*w)
                if g is not None:
                    want = want - symx.fun(g.info, len(w))(*w)
                p.eq('residuals in the order of the equations', got[j], SV('float', want))
        columns(p, s, None, [s.x[i] for i in order], mat)
    return ob


for _nd, _na, _nt in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2)):
    spec.obligation('differential-algebraic problems with %d differential and %d algebraic equations%s' % (_nd, _na, '' if _nt == 1 else ', two time variables'),
                    bounded='up to three equations')(dae(_nd, _na, _nt, tpos=0 if _nd + _na == 3 else None, two_sided=_nd == _na))


@spec.obligation('positions of the unknowns and of the derivatives', bounded='three unknowns, two time variables')
def _(p):
    I = p.I
    c = p.choice(4, 'derivatives')
    ds, place, two = [((0,), 0, False), ((1, 0), 1, True), ((0, 1, 2), 2, False), ((2, 0), 1, False)][c]
    s = setup(p, 3, 2, p.pick(list(itertools.permutations(range(3))), 'order'), tpos=place)
    ders = [s.d[i] for i in ds]
    if two:
        ders = ders + [D(s.syms[ds[0]], symx.symbol(s.t[1]))]
    f, g = fn(I, 'f', s.syms + ders), fn(I, 'g', s.syms + ders[:1])
    finish(p, s, [eqn(p, 'a', 'differential', (f, None), list(s.var.values())), eqn(p, 'b', 'differential', (s.d[ds[0]], g), list(s.var.values())),
                  eqn(p, 'c', 'nonlinear', (fn(I, 'h', s.syms), None), list(s.var.values()))])
    p.case(lambda c: dict(kind='dae', n=2, alg=1, seed=11))
    r = p.method(s.b, '_getMapForRewriteSystemAsResidual', PList(list(s.t)))
    p.returns('the positions are assigned', r)
    yd, y = r[1]
    if not p.ensure('maps', isinstance(yd, PDict) and isinstance(y, PDict) and len(y.keys()) == 3 and len(yd.keys()) == len(ders), '%r %r' % (y.keys(), yd.keys())):
        return
    for j, i in enumerate(s.perm):
        p.eq('unknowns in order', y.keys()[j], s.x[i])
        p.eq('position of an unknown', y.values()[j], 'y[%d]' % j)
    for d in ders:
        hit = [v for k, v in zip(yd.keys(), yd.values()) if symx.same(k, d)]
        if p.ensure('each derivative once', len(hit) == 1, repr(yd.keys())):
            p.eq('a derivative takes the position of its unknown', hit[0], 'yd[%d]' % s.perm.index(s.d.index(d) if d in s.d else ds[0]))


# ------------------------------------------------------------------ any number of equations
@spec.obligation('differential problems of any number of equations: initial conditions, right-hand sides, columns')
def _(p):
    I = p.I
    nm = z3.Function(V.fresh('unknown'), z3.IntSort(), z3.StringSort())
    inv = z3.Function(V.fresh('index'), z3.StringSort(), z3.IntSort())
    t = p.string('time')
    name = lambda i: SStr((nm(intz(i)),))

    def mk(I, i):
        g = symx.gen(I, 'rhs')
        I.define(z3.Not(g.info.hasder))
        g.info.closed = True
        v = obj_stub(p, C + 'variable', 'Variable', name(i))
        I.define(nm(intz(i)) != str2z(t))
        I.define(inv(nm(intz(i))) == intz(i))      # names differ
        return eqn(p, 'i', 'differential', (D(symx.symbol(name(i)), symx.symbol(t)), g), [v])
    eqs = glist(p, 'eqs', mk)
    dom = eqs.items.segs[0].dom
    I.assume(dom.n >= 1)
    seqs.note_elem(I, dom, 0)
    src = copy_of(eqs)
    pr = I.call(p.get(S + 'problem', 'Problem'), [p.string('prob')], {})
    vd = gmap(p, 'vd', lambda I, k: obj_stub(p, C + 'variable', 'Variable', k))
    b = I.call(p.get(C + 'equation_block', 'EquationBlock'), [eqs, vd, PDict()], {})
    I.call(b, [], {})
    I.setattr(pr, 'equation_block', b)
    I.setattr(pr, 'time_variable_name', t)
    ic = gmap(p, 'ic', lambda I, k: SV('float', ICF(str2z(k))))
    I.setattr(pr, 'initial_conditions', ic)
    I.assume(seqs.layered_dom(I, ic, t))
    seqs.forall(I, dom, lambda I, i: seqs.layered_dom(I, ic, name(i)))
    cf = config(p, differential_solver='ODEINT', compile_equations=False, domain=None, time_variable_name=t)
    p.case(lambda c: dict(kind='ode', n=3, seed=11, form='alone', compile=False, solver='ODEINT'))
    r = p.call(p.get(S + 'solvers', '_createSolver'), pr, cf)
    p.returns('a differential problem gets a solver', r)
    s = r[1]
    n = dom.n
    mat = frames.Mat([frames.Blk('solution', z3.Int('rows'), n)], n)
    calls, grid_, reg = [], [], []
    times = frames.Vec(z3.Int('rows'), 'times')

    def odeint(I, a, k):
        seqs._jappend(calls, (a, k))
        return mat
    p.hook(odeint, 'scipy.integrate.odeint')
    p.hook(lambda I, a, k: (seqs._jappend(grid_, (a, k)), times)[1], 'numpy.linspace')
    d = p.I.call(p.get(C + 'domain', 'Domain'), [p.string('dom'), unit(p, 'ud'), obj_stub(p, C + 'variable', 'Variable', t)], {})
    I.setattr(d, '_register', Native('_register', lambda I, a, k: seqs._jappend(reg, a[0])))
    I.setattr(d, '_renameHeaders', Native('_renameHeaders', lambda I, a, k: None))
    I.setattr(s, '_arrangeForRegister', Native('_arrangeForRegister', lambda I, a, k: a))      # columns: the bounded obligations
    I.setattr(s, 'domain', d)
    r2 = p.method(s, 'solve', cf)
    p.returns('a differential problem is solved', r2)
    if not p.ensure('one integration', len(calls) == 1, repr(calls)):
        return
    a, k = calls[0]
    over(p, 'initial conditions in the order of the equations', a[1], src, lambda x: [SV('float', ICF(nm_of(x)))])
    Y, now = Values(n), p.real('now')
    v = p.call(a[0], Y, now)
    p.returns('the right-hand sides are evaluated', v)
    got = v[1]
    i = dom.fresh(I)
    I.assume(dom.inside(I, i))
    ss = [x for x in seqs.segs_of(seqs.norm(seqs.segs_of(got.items))) if x != []]
    if not p.ensure('one right-hand side per equation', len(ss) == 1 and not isinstance(ss[0], list) and ss[0].dom.key == dom.key and ss[0].ordered, repr(ss)):
        return
    x = src.items.segs[0].run(I, i)[0]
    g = p.attr(x, 'elementary_equation_expression')[1].d.rget('symbolic_object').info
    w = ss[0].run(I, i)
    ok = len(w) == 1 and isinstance(w[0], SV) and w[0].t.decl().eq(g.den)
    if not p.ensure('right-hand sides in the order of the equations', ok, repr(w)):
        return
    at = [u for u in symx.UPD.values() if u[0].eq(w[0].t.arg(0))][-1:]
    if not p.ensure('the right-hand side is evaluated where the names have values', len(at) == 1, repr(w)):
        return
    m = PDict()
    m.layers = at[0][3]
    j = dom.fresh(I)
    I.assume(dom.inside(I, j))
    seqs.note_elem(I, dom, j)
    I.define(z3.And(inv(nm(intz(j))) == intz(j), nm(intz(j)) != str2z(t)))
    yj = I.dict_get(m, name(j))
    if p.ensure('every unknown has a value', yj is not _MISSING):
        p.eq('the value of an unknown is the entry of the state vector at the position of its equation', yj, Y.at(j))
    tt = I.dict_get(m, t)
    if p.ensure('the time has a value', tt is not _MISSING):
        p.eq('the time variable takes the current time', tt, now)
