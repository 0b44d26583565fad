"""C04: expressions denote the formula that was written."""
from .lib import *

spec = Spec('C04')
spec.preload = [C + 'unit', C + 'expression_evaluation', C + 'equation_operators', C + 'variable']
spec.assumptions = ['sympy builds the expression it is asked to build (denotation is compositional)',
                    'floats are mathematical reals']


def ncase(p, m, tag, n):
    return dict(unit=u_case(p, m, tag), value=(m.num(n.sym) if is_num(n.sym) else None), type=n.type,
                num=m.num(SV('float', symx.den(n.sym))))


def formula(p, op, x, y):
    if op == '+':
        return x + y
    if op == '-':
        return x - y
    if op == '*':
        return x * y
    if op == '/':
        return x / y
    return symx._pow(x, y)


def both(p, r, ws, wr):
    p.ensure('the result is an expression', is_enode(p, r[1]))
    s, q = p.attr(r[1], 'symbolic_object'), p.attr(r[1], 'repr_symbolic')
    if not all(isinstance(v, symx.Ex) or is_num(v) for v in (s, q)):
        p.ensure('the representations are expressions', False, '%r %r' % (s, q))
        return
    p.ensure('evaluated representation denotes the formula', symx.den(s) == ws)
    p.ensure('symbolic representation denotes the formula', symx.den(q) == wr)


def ops(op):
    def ob(p):
        a = enode(p, 'a', sym=symkind(p, 'a'), type_=p.choice(2))
        b = enode(p, 'b', sym=symkind(p, 'b'), type_=p.choice(2))
        if p.flag('repnum'):
            b.rep = p.real('rb')
            p.I.setattr(b.obj, 'repr_symbolic', b.rep)
        if op in '+-':
            p.assume(eqdims(p, a.es, b.es))
        if op == '**':
            p.assume(dimless_f(b.es))
        if op == '/':
            p.assume(symx.den(b.sym) != 0)
            p.assume(symx.den(b.rep) != 0)
        p.case(lambda m: dict(kind='bin', op=op, a=ncase(p, m, 'a', a), b=ncase(p, m, 'b', b)))
        r = binop(p, op, a.obj, b.obj)
        p.returns('the operation is defined', r)
        both(p, r, formula(p, op, symx.den(a.sym), symx.den(b.sym)), formula(p, op, symx.den(a.rep), symx.den(b.rep)))
    return ob


def nums(op, refl):
    def ob(p):
        a = enode(p, 'a', sym=symkind(p, 'a'), type_=p.choice(2))
        n = p.number('n') if not (op == '**' and p.flag('lit')) else p.pick([2, 3, -1, 0.5, 1])
        s, q = symx.den(a.sym), symx.den(a.rep)
        if op == '/':
            p.assume((real(n) != 0) if not refl else z3.And(s != 0, q != 0))
        if n == -1:
            p.assume(z3.And(s != 0, q != 0))
        p.case(lambda m: dict(kind='num', op=op, refl=refl, a=ncase(p, m, 'a', a), n=m.num(n)))
        r = binop(p, op, n, a.obj) if refl else binop(p, op, a.obj, n)
        p.returns('the operation is defined', r)
        k = real(n)
        both(p, r, formula(p, op, k, s) if refl else formula(p, op, s, k),
             formula(p, op, k, q) if refl else formula(p, op, q, k))
    return ob


for _o in ('+', '-', '*', '/', '**'):
    spec.obligation('expression %s expression' % _o)(ops(_o))
    spec.obligation('expression %s number' % _o)(nums(_o, False))
    if _o != '**':
        spec.obligation('number %s expression' % _o)(nums(_o, True))

ZF = dict(Log=lambda x: symx.fun('log', 1)(x), Log10=lambda x: symx.fun('log', 1)(x) / symx.fun('log', 1)(z3.RealVal(10)),
          Sqrt=lambda x: symx.fun('sqrt', 1)(x), Exp=lambda x: symx.fun('exp', 1)(x), Sin=lambda x: symx.fun('sin', 1)(x),
          Cos=lambda x: symx.fun('cos', 1)(x), Tan=lambda x: symx.fun('tan', 1)(x), Abs=lambda x: z3.If(x >= 0, x, -x))


def func(fn, number):
    def ob(p):
        f = ZF[fn]
        if number:
            n = p.number('n')
            p.case(lambda m: dict(kind='fnnum', fn=fn, n=m.num(n)))
            r = p.call(p.get(C + 'equation_operators', fn), n)
            p.returns('the function is defined', r)
            both(p, r, f(real(n)), f(real(n)))
        else:
            a = enode(p, 'a', sym=symkind(p, 'a'), type_=p.choice(2))
            p.assume(dimless_f(a.es))
            p.case(lambda m: dict(kind='fn', fn=fn, a=ncase(p, m, 'a', a)))
            r = p.call(p.get(C + 'equation_operators', fn), a.obj)
            p.returns('the function is defined', r)
            both(p, r, f(symx.den(a.sym)), f(symx.den(a.rep)))
    return ob


for _f in ZF:
    spec.obligation('%s of an expression' % _f)(func(_f, False))
    spec.obligation('%s of a number' % _f)(func(_f, True))


def minmax(fn, n, num):
    pick = symx.zmin if fn == 'Min' else symx.zmax

    def fold(xs):
        r = xs[0]
        for x in xs[1:]:
            r = pick(r, x)
        return r

    def ob(p):
        ns = [enode(p, 'abc'[i], sym=symkind(p, 'abc'[i]), type_=0) for i in range(n)]
        for x in ns[1:]:
            p.assume(eqdims(p, ns[0].es, x.es))
        args = [x.obj for x in ns]
        ss = [symx.den(x.sym) for x in ns]
        rs = [symx.den(x.rep) for x in ns]
        k = None
        if num is not None:
            k = p.number('k')
            args.insert(num, k)
            ss.insert(num, real(k))
            rs.insert(num, real(k))
        p.case(lambda m: dict(kind='minmax', fn=fn, args=[ncase(p, m, 'abc'[i], x) for i, x in enumerate(ns)],
                              num=None if k is None else m.num(k), pos=num))
        r = p.call(p.get(C + 'equation_operators', fn), *args)
        p.returns('the function is defined', r)
        both(p, r, fold(ss), fold(rs))
    return ob


for _f in ('Min', 'Max'):
    for _n, _k in ((1, None), (2, None), (3, None), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (0, 0)):
        spec.obligation('%s (%d expressions, number at %s)' % (_f, _n, _k), bounded='at most 3 operands')(minmax(_f, _n, _k))
