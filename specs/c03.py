"""C03: every composed expression carries the physically correct dimension."""
from .lib import *

spec = Spec('C03')
spec.preload = [C + 'unit', C + 'expression_evaluation', C + 'equation_operators', C + 'variable']


def ncase(p, m, tag, n):
    return dict(unit=u_case(p, m, tag), value=(m.num(n.sym) if is_num(n.sym) else None), type=n.type)


def want(p, r, es, what='dimension'):
    p.returns('the operation is defined', r)
    p.ensure('the result is an expression', is_enode(p, r[1]))
    dims_are(p, what, p.attr(r[1], 'unit_object'), es)


def sums(op):
    def ob(p):
        a = enode(p, 'a', sym=symkind(p, 'a'))
        b = enode(p, 'b', sym=symkind(p, 'b'))
        p.assume(eqdims(p, a.es, b.es))
        p.case(lambda m: dict(kind='bin', op=op, a=ncase(p, m, 'a', a), b=ncase(p, m, 'b', b)))
        snap = snapshot(p, a.u, b.u)
        want(p, binop(p, op, a.obj, b.obj), a.es)
        unchanged(p, 'operand units unchanged', snap)
    return ob


def prods(op, f):
    def ob(p):
        a = enode(p, 'a', sym=symkind(p, 'a'))
        b = enode(p, 'b', sym=symkind(p, 'b'))
        if op == '/':
            p.assume(symx.den(b.sym) != 0)
            p.assume(symx.den(b.rep) != 0)
        p.case(lambda m: dict(kind='bin', op=op, a=ncase(p, m, 'a', a), b=ncase(p, m, 'b', b)))
        snap = snapshot(p, a.u, b.u)
        want(p, binop(p, op, a.obj, b.obj), [p.I.numop(f, x, y) for x, y in zip(a.es, b.es)])
        unchanged(p, 'operand units unchanged', snap)
    return ob


for _o in '+-':
    spec.obligation('expression %s keeps the common unit' % _o)(sums(_o))
spec.obligation('a product of expressions adds exponents')(prods('*', 'Add'))
spec.obligation('a quotient of expressions subtracts exponents')(prods('/', 'Sub'))


def withnum(op, refl, f):
    def ob(p):
        a = enode(p, 'a', sym=symkind(p, 'a'))
        n = p.number('n')
        if op == '/':
            p.assume((real(n) != 0) if not refl else (symx.den(a.sym) != 0))
        p.case(lambda m: dict(kind='num', op=op, refl=refl, a=ncase(p, m, 'a', a), n=m.num(n)))
        snap = snapshot(p, a.u)
        r = binop(p, op, n, a.obj) if refl else binop(p, op, a.obj, n)
        want(p, r, [f(p, x, n) for x in a.es])
        unchanged(p, 'operand unit unchanged', snap)
    return ob


keep = lambda p, x, n: x
spec.obligation('expression + number keeps the unit')(withnum('+', False, keep))
spec.obligation('number + expression keeps the unit')(withnum('+', True, keep))
spec.obligation('expression - number keeps the unit')(withnum('-', False, keep))
spec.obligation('number - expression keeps the unit')(withnum('-', True, keep))
spec.obligation('expression * number keeps the unit')(withnum('*', False, keep))
spec.obligation('number * expression keeps the unit')(withnum('*', True, keep))
spec.obligation('expression / number keeps the unit')(withnum('/', False, keep))
spec.obligation('number / expression inverts the unit')(withnum('/', True, lambda p, x, n: p.I.numop('Mult', x, -1)))
spec.obligation('expression ** number scales the exponents')(withnum('**', False, lambda p, x, n: p.I.numop('Mult', x, n)))


@spec.obligation('a dimensionless expression to a dimensionless power stays dimensionless')
def _(p):
    a = enode(p, 'a', sym=symkind(p, 'a'))
    b = enode(p, 'b', sym=symkind(p, 'b'))
    p.assume(dimless_f(a.es))
    p.assume(dimless_f(b.es))
    p.case(lambda m: dict(kind='bin', op='**', a=ncase(p, m, 'a', a), b=ncase(p, m, 'b', b)))
    want(p, binop(p, '**', a.obj, b.obj), [0] * 7)


def func(fn, number):
    def ob(p):
        if number:
            n = p.number('n')
            p.case(lambda m: dict(kind='fnnum', fn=fn, n=m.num(n)))
            r = p.call(p.get(C + 'equation_operators', fn), n)
        else:
            a = enode(p, 'a', sym=symkind(p, 'a'))
            p.assume(dimless_f(a.es))
            p.case(lambda m: dict(kind='fn', fn=fn, a=ncase(p, m, 'a', a)))
            r = p.call(p.get(C + 'equation_operators', fn), a.obj)
        want(p, r, [0] * 7)
    return ob


for _f in ('Log', 'Log10', 'Sqrt', 'Exp', 'Sin', 'Cos', 'Tan', 'Abs'):
    spec.obligation('%s of a dimensionless expression is dimensionless' % _f)(func(_f, False))
    spec.obligation('%s of a number is dimensionless' % _f)(func(_f, True))


def minmax(fn, n, num):
    def ob(p):
        ns = [enode(p, 'abc'[i], type_=0) for i in range(n)]
        for x in ns[1:]:
            p.assume(eqdims(p, ns[0].es, x.es))
        args = [x.obj for x in ns]
        k = None
        if num is not None:
            k = p.number('k')
            args.insert(num, k)
        p.case(lambda m: dict(kind='minmax', fn=fn, args=[ncase(p, m, 'abc'[i], x) for i, x in enumerate(ns)],
                              num=None if k is None else m.num(k), pos=num))
        r = p.call(p.get(C + 'equation_operators', fn), *args)
        want(p, r, ns[0].es if ns else [0] * 7)
    return ob


for _f in ('Min', 'Max'):
    for _n, _k in ((1, None), (2, None), (3, None), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2)):
        spec.obligation('%s keeps the common unit (%d expressions, number at %s)' % (_f, _n, _k),
                        bounded='at most 3 operands')(minmax(_f, _n, _k))
    spec.obligation('%s of a number is dimensionless' % _f, bounded='1 operand')(minmax(_f, 0, 0))


@spec.obligation('a derivative divides by the unit of the independent variable')
def _(p):
    I = p.I
    Var = p.get(C + 'variable', 'Variable')
    ux, ut = unit(p, 'x'), unit(p, 't')
    ex, et = dims(p, ux), dims(p, ut)
    xn, tn = p.string('xn'), p.string('tn')
    p.distinct(xn, tn)
    x = I.call(Var, [xn, ux], {})
    t = I.call(Var, [tn, ut], {})
    I.setattr(x, 'domain', Obj(p.get(C + 'domain', 'Domain')))
    spec_x = p.flag('xspec')
    if spec_x:
        I.setattr(x, 'value', p.real('xv'))
        I.setattr(x, 'is_specified', True)
    p.case(lambda m: dict(kind='diff', x=u_case(p, m, 'x'), t=u_case(p, m, 't'), spec=spec_x))
    r = p.method(x, 'Diff', t)
    want(p, r, [I.numop('Sub', a, b) for a, b in zip(ex, et)])
