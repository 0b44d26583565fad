"""C06: linear / nonlinear / differential classification is sound."""
from .lib import *

spec = Spec('C06')
spec.preload = [C + 'unit', C + 'expression_evaluation', C + 'equation_operators', C + 'variable']
spec.assumptions = ['affine/constant/derivative status of a composed sympy expression is computed structurally']


def ncase(p, m, tag, n):
    return dict(unit=u_case(p, m, tag), value=(m.num(n.sym) if is_num(n.sym) else None), type=n.type,
                const=bool(m.num(SV('bool', z3.BoolVal(True) if not isinstance(n.sym, symx.Ex) else n.vmap.empty))),
                hasder=bool(m.num(SV('bool', n.hasder))))


def classified(p, r):
    p.ensure('the result is an expression', is_enode(p, r[1]))
    t = etype(p, r[1])
    p.ensure('exactly one class', all(isinstance(v, bool) for v in t.values()) and sum(t.values()) == 1, repr(t))
    c, a, d = symx.flags(p.attr(r[1], 'symbolic_object'))
    if not t['differential']:
        p.ensure('an expression containing a derivative is differential', z3.Not(d))
    if t['linear']:
        p.ensure('a linear expression is affine in its unknowns', a)
    return t


def ops(op):
    def ob(p):
        a = enode(p, 'a', sym=symkind(p, 'a'))
        b = enode(p, 'b', sym=symkind(p, 'b'))
        if op in '+-':
            p.assume(eqdims(p, a.es, b.es))
        if op == '**':
            p.assume(dimless_f(b.es))
        if op == '/':
            p.assume(symx.den(b.sym) != 0)
            p.assume(symx.den(b.rep) != 0)
        p.case(lambda m: dict(kind='bin', op=op, a=ncase(p, m, 'a', a), b=ncase(p, m, 'b', b)))
        r = binop(p, op, a.obj, b.obj)
        p.returns('the operation is defined', r)
        t = classified(p, r)
        if a.type == 'differential' or b.type == 'differential':
            p.ensure('differential operand gives a differential expression', t['differential'])
        elif a.type == b.type == 'linear' and op in '+-':
            p.ensure('a sum of linear expressions is linear', t['linear'])
        elif op == '*' and a.type == b.type == 'linear':
            if not t['linear']:
                p.ensure('a product of a linear expression with specified quantities is linear',
                         z3.And(z3.Not(a.vmap.empty), z3.Not(b.vmap.empty)))
        elif op == '/' and a.type == b.type == 'linear':
            if not t['linear']:
                p.ensure('a quotient of a linear expression by specified quantities is linear', z3.Not(b.vmap.empty))
    return ob


def nums(op, refl):
    def ob(p):
        a = enode(p, 'a', sym=symkind(p, 'a'))
        n = p.number('n')
        if op == '/':
            p.assume((real(n) != 0) if not refl else symx.den(a.sym) != 0)
        p.case(lambda m: dict(kind='num', op=op, refl=refl, a=ncase(p, m, 'a', a), n=m.num(n)))
        r = binop(p, op, n, a.obj) if refl else binop(p, op, a.obj, n)
        p.returns('the operation is defined', r)
        t = classified(p, r)
        if a.type == 'differential':
            p.ensure('differential operand gives a differential expression', t['differential'])
        if a.type == 'linear' and (op in '+-*' or op == '/' and not refl):
            p.ensure('linear stays linear', t['linear'])
    return ob


for _o in ('+', '-', '*', '/', '**'):
    spec.obligation('class of expression %s expression' % _o)(ops(_o))
    spec.obligation('class of expression %s number' % _o)(nums(_o, False))
    if _o != '**':
        spec.obligation('class of number %s expression' % _o)(nums(_o, True))


def func(fn):
    def ob(p):
        if p.flag('number'):
            n = p.number('n')
            p.case(lambda m: dict(kind='fnnum', fn=fn, n=m.num(n)))
            r = p.call(p.get(C + 'equation_operators', fn), n)
            p.returns('the function is defined', r)
            classified(p, r)
            return
        a = enode(p, 'a', sym=symkind(p, 'a'))
        p.assume(dimless_f(a.es))
        p.case(lambda m: dict(kind='fn', fn=fn, a=ncase(p, m, 'a', a)))
        r = p.call(p.get(C + 'equation_operators', fn), a.obj)
        p.returns('the function is defined', r)
        t = classified(p, r)
        if a.type == 'differential':
            p.ensure('differential operand gives a differential expression', t['differential'])
    return ob


for _f in ('Log', 'Log10', 'Sqrt', 'Exp', 'Sin', 'Cos', 'Tan', 'Abs'):
    spec.obligation('class of %s' % _f)(func(_f))


def minmax(fn, n, num):
    def ob(p):
        ns = [enode(p, 'abc'[i]) for i in range(n)]
        for x in ns[1:]:
            p.assume(eqdims(p, ns[0].es, x.es))
        args = [x.obj for x in ns]
        k = None
        if num is not None:
            k = p.number('k')
            args.insert(num, k)
        p.case(lambda m: dict(kind='minmax', fn=fn, args=[ncase(p, m, 'abc'[i], x) for i, x in enumerate(ns)],
                              num=None if k is None else m.num(k), pos=num))
        r = p.call(p.get(C + 'equation_operators', fn), *args)
        p.returns('the function is defined', r)
        t = classified(p, r)
        if any(x.type == 'differential' for x in ns):
            p.ensure('differential operand gives a differential expression', t['differential'])
    return ob


for _f in ('Min', 'Max'):
    for _n, _k in ((1, None), (2, None), (3, None), (1, 0), (2, 1)):
        spec.obligation('class of %s (%d expressions, number at %s)' % (_f, _n, _k), bounded='at most 3 operands')(minmax(_f, _n, _k))


@spec.obligation('a derivative is differential')
def _(p):
    I = p.I
    Var = p.get(C + 'variable', 'Variable')
    xn, tn = p.string('xn'), p.string('tn')
    p.distinct(xn, tn)
    x = I.call(Var, [xn, unit(p, 'x')], {})
    t = I.call(Var, [tn, unit(p, 't')], {})
    I.setattr(x, 'domain', Obj(p.get(C + 'domain', 'Domain')))
    sp = p.flag('xspec')
    if sp:
        I.setattr(x, 'value', p.real('xv'))
        I.setattr(x, 'is_specified', True)
    p.case(lambda m: dict(kind='diff', spec=sp))
    r = p.method(x, 'Diff', t)
    p.returns('the derivative is defined', r)
    t = classified(p, r)
    p.ensure('differential', t['differential'])


@spec.obligation('using a quantity gives a linear expression')
def _(p):
    I = p.I
    K = p.pick([('variable', 'Variable'), ('parameter', 'Parameter'), ('constant', 'Constant'), ('quantity', 'Quantity')])
    x = I.call(p.get(C + K[0], K[1]), [p.string('xn'), unit(p, 'x')], {})
    sp = p.flag('spec')
    I.setattr(x, 'value', p.real('xv'))
    I.setattr(x, 'is_specified', sp)
    p.case(lambda m: dict(kind='leaf', cls=K[1], spec=sp))
    r = p.call(x)
    p.returns('the quantity can be used', r)
    t = classified(p, r)
    p.ensure('linear', t['linear'])
