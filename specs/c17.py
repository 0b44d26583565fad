"""C17: algebraic solutions are labelled with the right unknowns and failure is reported."""
from .lib import *
from pyvc.values import _MISSING
from pyvc import builtins_model as B
from .c14 import config, KEYS

spec = Spec('C17')
spec.assumptions = [
    'SymbolicSys(names, equations).solve(guess, ...) returns one value per name, in the order of the names, and a state whose success entry tells whether it succeeded',
    'sympy.solve(equations, unknowns, dict=True) returns a list of dictionaries from unknowns to values, empty when it finds no solution',
    'sympy.linear_eq_to_matrix requires symbols and returns the matrices of the system in their order; scipy.linalg.solve returns one row per row of the right-hand side, or raises',
    'scipy.optimize.root returns a record of success and x; each unknown has a name of its own']


def system(p, kind):
    """a problem of the kind with any number of equations and unknowns, prepared"""
    I = p.I
    n = Node()

    def mk(I, i):
        o = Obj(p.get(C + 'equation', 'Equation'))
        o.d.rset('name', p.string('eq'))
        o.d.rset('type', kind)
        nd = Obj(p.get(C + 'expression_evaluation', 'EquationNode'))
        nd.d.rset('symbolic_object', symx.gen(I, 'sym'))
        o.d.rset('equation_expression', nd)
        o.d.rset('equation_form', 'residual')
        o.d.rset('elementary_equation_expression', None)
        return o
    n.eqs = glist(p, 'eqs', mk)
    I.assume(n.eqs.items.segs[0].dom.n >= 1)
    seqs.note_elem(I, n.eqs.items.segs[0].dom, 0)
    n.vd = gmap(p, 'vd', lambda I, k: obj_stub(p, C + 'variable', 'Variable', k))
    n.pr = I.call(p.get(S + 'problem', 'Problem'), [p.string('prob')], {})
    b = n.b = I.call(p.get(C + 'equation_block', 'EquationBlock'), [n.eqs, n.vd, PDict()], {})
    I.setattr(n.pr, 'equation_block', b)
    I.call(b, [], {})
    n.names = copy_of(p.attr(b, '_var_list'))
    n.residuals = copy_of(p.attr(b, '_equations_list'))
    n.nv = intz(seqs.layered_len(I, n.vd))
    return n


class Values(Host):
    """an array of n arbitrary numbers, one per position"""
    hname = 'numpy array'
    is_array = True

    def __init__(self, n, tag='x'):
        self.n = n
        self.f = z3.Function(V.fresh(tag), z3.IntSort(), z3.RealSort())
        self.dom = seqs.IndexDom(n, tag)

    def at(self, i):
        return SV('float', self.f(intz(i)))

    def h_gseq(self, I):
        return seqs.GSeq([seqs.Seg(self.dom, lambda I, i: self.at(i))])

    def h_len(self, I):
        return SV('int', self.n)

    def h_getitem(self, I, k):
        if is_num(k):
            return self.at(k)
        raise Unsupported('array indexing')

    def h_getattr(self, I, name):
        if name == 'tolist':
            return Native('tolist', lambda I, a, k: PList(self.h_gseq(I)))
        if name in ('flatten', 'ravel', 'copy', 'squeeze'):
            return Native(name, lambda I, a, k: self)
        if name == 'reshape':
            return Native(name, lambda I, a, k: self if a and a[0] == -1 else I.unsup('reshape'))
        if name == 'size':
            return SV('int', self.n)
        if name == 'shape':
            return (SV('int', self.n),)
        raise Unsupported('array.%s' % name)

    def h_truth(self, I):
        raise Unsupported('truth of an array')


class Column(Host):
    """a matrix of one column; flat gives its single column"""
    hname = 'matrix'
    is_array = True

    def __init__(self, flat, rowkind='row'):
        self.flat = flat

    def h_getattr(self, I, name):
        if name in ('flatten', 'ravel', 'squeeze'):
            return Native(name, lambda I, a, k: self.flat)
        if name == 'reshape':
            def f(I, a, k):
                if len(a) == 1 and a[0] == -1:
                    return self.flat
                raise Unsupported('reshape')
            return Native('reshape', f)
        raise Unsupported('matrix.%s' % name)

    def h_gseq(self, I):
        return seqs.GSeq([seqs.Seg(self.flat.dom, lambda I, i: OneRow())])

    def h_getitem(self, I, k):
        raise Unsupported('matrix indexing')


class OneRow(Host):
    hname = 'row of a matrix'


class Square(Host):
    hname = 'matrix'
    is_array = True


def residuals(p, n, name, got):
    """got is the list of all residuals in order"""
    list_is(p, name, got, n.residuals)


def same_names(p, n, name, got):
    list_is(p, name, got, n.names)


def symbols_of(p, n, name, got):
    """got lists the unknowns in order, as names or symbols"""
    I = p.I
    if isinstance(got, tuple):
        return p.ensure(name, False, repr(got))
    if not p.ensure(name + ' (a list)', isinstance(got, PList), repr(got)):
        return
    ss = [s for s in seqs.segs_of(seqs.norm(seqs.segs_of(got.items))) if s != []]
    ref = seqs.segs_of(n.names.items)[0]
    if not p.maybe(name + ' (shape)', len(ss) == 1 and not isinstance(ss[0], list) and ss[0].dom.key == ref.dom.key and ss[0].ordered and ss[0].exact, repr(ss)):
        return
    e = seqs.elem(I, ref.dom)
    a, b = ss[0].run(I, e)[0], ref.run(I, e)[0]
    if is_str(a):
        p.eq(name, a, b)
    else:
        p.ensure(name, isinstance(a, symx.Ex) and symx.same(a, symx.symbol(b)), '%r instead of %r' % (a, b))


def labelled(p, n, res, xs):
    """res maps the name at each position to the value at that position, and nothing else"""
    I = p.I
    if not p.ensure('the solution is a dictionary', isinstance(res, PDict), repr(res)):
        return
    k = p.string('key')
    w, g = I.truth_f(seqs.layered_dom(I, n.vd, k)), I.truth_f(I.contains(res, k))
    p.ensure('exactly the unknowns have a value', w == g)
    if w and g:
        ref = seqs.segs_of(n.names.items)[0]
        v = I.dict_get(res, k)
        if p.ensure('each value is a number', is_num(v), repr(v)):
            p.eq('each value belongs to the unknown at its position', v, xs.at(ref.dom.pos(I, k)))


def guess_list(p, n, name, got, val):
    """got lists val(name) in the order of the unknowns"""
    I = p.I
    if not p.ensure(name + ' (a list)', isinstance(got, PList), repr(got)):
        return
    ss = [s for s in seqs.segs_of(seqs.norm(seqs.segs_of(got.items))) if s != []]
    ref = seqs.segs_of(n.names.items)[0]
    if not p.maybe(name + ' (shape)', len(ss) == 1 and not isinstance(ss[0], list) and ss[0].ordered and ss[0].exact, repr(ss)):
        return
    p.ensure(name + ': one per unknown', intz(ss[0].dom.size(I)) == n.nv)
    e = seqs.elem(I, ref.dom)
    i = e if ss[0].dom.key == ref.dom.key else ref.dom.pos(I, e)
    if isinstance(ss[0].dom, seqs.KeyDom) and ss[0].dom.key != ref.dom.key:
        p.ensure(name, False, 'not in the order of the unknowns')
        return
    p.eq(name, ss[0].run(I, i)[0], val(I, ref.run(I, e)[0]))


class Sys(Host):
    hname = 'SymbolicSys'

    def __init__(self, f):
        self.f = f

    def h_getattr(self, I, name):
        if name == 'solve':
            return Native('solve', self.f)
        raise Unsupported('SymbolicSys.' + name)


def symbolicsys(kind, mech, guess, polish=False):
    def ob(p):
        I = p.I
        n = system(p, kind)
        ok = p.flag('success')
        xs = Values(n.nv)
        g = gmap(p, 'guess', lambda I, k: SV('float', z3.Real(V.fresh('g'))))
        if guess == 'given':
            I.assume(z3.Not(seqs.layered_empty(I, g)))
            seqs.forall(I, seqs.KeyDom(n.vd), lambda I, k: seqs.layered_dom(I, g, k))
        log = []

        def make(I, a, k):
            seqs._jappend(log, ('sys', a, k))

            def solve(I, a2, k2):
                seqs._jappend(log, ('solve', a2, k2))
                return (xs, p.pydict({'success': ok, 'message': p.string('msg')}))
            return Sys(solve)
        p.hook(make, 'pyneqsys.symbolic.SymbolicSys', 'pyneqsys.SymbolicSys')
        px = Values(n.nv, 'px')
        pok = None
        if polish:
            pok = p.flag('polished')
            method = p.pick(['hybr', 'anderson', ''])
            g0 = []

            def root(I, a, k):
                seqs._jappend(g0, (a, k))
                return extrec(success=pok, x=px)
            p.hook(root, 'scipy.optimize.root')
            p.hook(lambda I, a, k: (seqs._jappend(log, ('lambdify', a, k)), Native('compiled', lambda I, a, k: PList([])))[1], 'sympy.lambdify')
        conf = config(p, initial_guess=g if guess == 'given' else PDict(), initial_guess_solver=method if polish else None, **{KEYS[kind]: mech})
        p.case(lambda c: dict(kind='symbolicsys', type=kind, mech=mech, guess=guess == 'given', success=ok, polish=polish and method))
        r = p.call(p.get(S + 'solvers', '_createSolver'), n.pr, conf)
        p.returns('the solver is created', r)
        r = p.method(r[1], 'solve')
        calls = [l for l in log if l[0] == 'sys']
        if not p.ensure('the routine is called once', len(calls) == 1 and len([l for l in log if l[0] == 'solve']) == 1, repr(log)):
            return
        _, a, k = calls[0]
        _, a2, k2 = [l for l in log if l[0] == 'solve'][0]
        a = list(a) + [k[x] for x in ('x', 'exprs') if x in k]
        x0 = a2[0] if a2 else k2.get('x0')
        one = lambda I, nm: 1.0
        by = lambda I, nm: I.dict_get(g, nm)
        start = by if guess == 'given' else one
        cs = [lambda: symbols_of(p, n, 'every unknown is handed over', a[0]),
              lambda: residuals(p, n, 'every equation is handed over', a[1])]
        if not polish or not pok:
            cs.append(lambda: guess_list(p, n, 'initial guess', x0, start))
        else:
            cs.append(lambda: p.same('the polished guess is used', x0, px))
        if polish:
            ga, gk = g0[0] if g0 else ((), {})
            ga = list(ga) + [gk[x] for x in ('fun', 'x0') if x in gk]
            cs.append(lambda: p.ensure('the guess is polished', len(g0) == 1 and len(ga) >= 2, repr(g0)) and
                      guess_list(p, n, 'guess to polish', ga[1], start))
            la = [l for l in log if l[0] == 'lambdify']
            cs.append(lambda: p.ensure('the equations are compiled', len(la) == 1 and len(la[0][1]) >= 2, repr(la)) and
                      (symbols_of(p, n, 'the compiled function takes the unknowns in order', la[0][1][0]),
                       residuals(p, n, 'the compiled function gives every residual', la[0][1][1])))
        if ok:
            cs.append(lambda: (p.returns('success is returned', r), labelled(p, n, r[1], xs)))
        else:
            cs.append(lambda: p.raises('failure is reported', r))
        p.one_of(*cs)
    return ob


def extrec(**kw):
    from pyvc.extlib import Rec
    return Rec(**kw)


for _k, _ms in (('linear', ('symbolicsys',)), ('nonlinear', ('*', 'symbolicsys', None))):
    for _m in _ms:
        for _g in ('default', 'given'):
            spec.obligation('%s problems of any size with SymbolicSys (mechanism %s), %s initial guess' % (_k, _m, _g))(symbolicsys(_k, _m, _g))
spec.obligation('polishing the default initial guess, any size')(symbolicsys('nonlinear', '*', 'default', True))
spec.obligation('polishing a given initial guess, any size')(symbolicsys('nonlinear', '*', 'given', True))


@spec.obligation('an initial guess without some unknown is refused, any size')
def _(p):
    I = p.I
    kind = p.pick(['linear', 'nonlinear'])
    n = system(p, kind)
    g = gmap(p, 'guess', lambda I, k: SV('float', z3.Real(V.fresh('g'))))
    I.assume(z3.Not(seqs.layered_empty(I, g)))
    e = seqs.elem(I, seqs.segs_of(n.names.items)[0].dom)
    I.assume(z3.Not(seqs.layered_dom(I, g, e)))
    p.hook(lambda I, a, k: Sys(lambda I, a, k: (Values(n.nv), p.pydict({'success': True}))), 'pyneqsys.symbolic.SymbolicSys')
    p.case(lambda c: dict(kind='missing', type=kind))
    r = p.call(p.get(S + 'solvers', '_createSolver'), n.pr, config(p, initial_guess=g, **{KEYS[kind]: 'symbolicsys'}))
    p.returns('the solver is created', r)
    p.raises('a missing guess is refused', p.method(r[1], 'solve'))


for _k, _ms in (('linear', (None, 'sympy')), ('nonlinear', ('sympy',))):
    for _m in _ms:
        def _(p, kind=_k, mech=_m):
            I = p.I
            n = system(p, kind)
            sols = [gmap(p, 'sol%d' % i, lambda I, k: SV('float', z3.Real(V.fresh('v')))) for i in range(p.choice(3, 'solutions'))]
            olds = [copy_of(s) for s in sols]
            log = []

            def solve(I, a, k):
                seqs._jappend(log, (a, k))
                if k.get('dict') is not True:
                    raise Unsupported('sympy.solve without dict=True')
                return PList(list(sols))
            p.hook(solve, 'sympy.solve')
            p.case(lambda c: dict(kind='sympy', type=kind, mech=mech, n=len(sols)))
            r = p.call(p.get(S + 'solvers', '_createSolver'), n.pr, config(p, **{KEYS[kind]: mech}))
            p.returns('the solver is created', r)
            r = p.method(r[1], 'solve')
            if not p.ensure('the routine is called once', len(log) == 1, repr(log)):
                return
            a, k = log[0]

            def result():
                if not sols:
                    p.raises('failure is reported', r)
                    return
                p.returns('a solution is returned', r)
                for i, s in enumerate(sols):
                    if r[1] is s:
                        dict_after(p, 'the solution is the one found', r[1], olds[i])
                        return
                p.ensure('the solution is one of those found', False, repr(r[1]))
            p.one_of(lambda: residuals(p, n, 'every equation is handed over', a[0]),
                     lambda: symbols_of(p, n, 'every unknown is handed over', a[1]), result)
        spec.obligation('%s problems of any size with sympy (mechanism %s)' % (_k, _m))(_)


@spec.obligation('linear problems of any size with scipy')
def _(p):
    I = p.I
    n = system(p, 'linear')
    ok = p.flag('success')
    xs = Values(n.nv)
    A, b = Square(), Column(Values(n.eqs.items.segs[0].dom.n, 'b'))
    log, log2 = [], []

    def l2m(I, a, k):
        seqs._jappend(log, (a, k))
        g = seqs.as_generic(I, a[1])
        if g is None:
            raise Unsupported('linear_eq_to_matrix')
        for s in g.segs:
            for v in (s if isinstance(s, list) else s.run(I, seqs.elem(I, s.dom))):
                if not isinstance(v, symx.Ex):
                    I.throw('TypeError', 'Cannot convert expression to float')
        return (A, b)

    def solve(I, a, k):
        seqs._jappend(log2, (a, k))
        if not ok:
            I.throw('ValueError', 'singular matrix')
        return xs if a[1] is b.flat else Column(xs)
    p.hook(l2m, 'sympy.linear_eq_to_matrix', 'sympy.solvers.solveset.linear_eq_to_matrix')
    p.hook(solve, 'scipy.linalg.solve', 'numpy.linalg.solve')
    p.case(lambda c: dict(kind='scipy', success=ok))
    r = p.call(p.get(S + 'solvers', '_createSolver'), n.pr, config(p, linear_solver='scipy'))
    p.returns('the solver is created', r)
    r = p.method(r[1], 'solve')
    if not p.ensure('the system is put in matrix form', len(log) == 1, repr(log)):
        return
    a, k = log[0]
    cs = [lambda: residuals(p, n, 'every equation is handed over', a[0]), lambda: symbols_of(p, n, 'every unknown is handed over', a[1])]
    if ok:
        cs.append(lambda: (p.returns('success is returned', r), p.ensure('the matrices of the system are the ones used', log2[0][0][0] is A and log2[0][0][1] in (b, b.flat)),
                           labelled(p, n, r[1], xs)))
    else:
        cs.append(lambda: p.raises('failure is reported', r))
    p.one_of(*cs)
