"""C02: dimensionally incoherent formulas are rejected, coherent ones accepted."""
from .lib import *

spec = Spec('C02')
spec.preload = [C + 'unit', C + 'expression_evaluation', C + 'equation_operators', C + 'quantity']
ERR = ('Exception',)


def iff(p, r, cond, what):
    """the operation succeeds exactly when cond"""
    if r[0] == 'ok':
        p.ensure(what + ': accepted only when coherent', cond)
    else:
        p.ensure(what + ': rejected only when incoherent', z3.Not(cond))
        p.raises(what + ': rejected with an error', r, 'Exception')


@spec.obligation('units are coherent exactly when all seven exponents agree')
def _(p):
    a, b = unit(p, 'a'), unit(p, 'b')
    same = eqdims(p, dims(p, a), dims(p, b))
    p.case(lambda m: dict(kind='unit', op='check', a=u_case(p, m, 'a'), b=u_case(p, m, 'b')))
    r = p.method(a, '_check_dimensional_coherence', b)
    p.returns('coherence check answers', r)
    p.eq('coherence', r[1], SV('bool', same) if not isinstance(same, bool) else same)


@spec.obligation('a unit is dimensionless exactly when all seven exponents vanish')
def _(p):
    a = unit(p, 'a')
    p.case(lambda m: dict(kind='unit', op='dimless', a=u_case(p, m, 'a')))
    r = p.method(a, '_is_dimensionless')
    p.returns('check answers', r)
    p.eq('dimensionless', r[1], SV('bool', dimless_f(dims(p, a))))


def uaddsub(op):
    def ob(p):
        a, b = unit(p, 'a'), unit(p, 'b')
        same = eqdims(p, dims(p, a), dims(p, b))
        p.case(lambda m: dict(kind='unit', op=op, a=u_case(p, m, 'a'), b=u_case(p, m, 'b')))
        iff(p, binop(p, op, a, b), same, 'unit ' + op)
    return ob


spec.obligation('adding units requires equal exponents')(uaddsub('+'))
spec.obligation('subtracting units requires equal exponents')(uaddsub('-'))


@spec.obligation('a unit as exponent must be dimensionless')
def _(p):
    a, b = unit(p, 'a'), unit(p, 'b')
    p.case(lambda m: dict(kind='unit', op='**', a=u_case(p, m, 'a'), b=u_case(p, m, 'b')))
    iff(p, binop(p, '**', a, b), dimless_f(dims(p, b)), 'unit power')


def ncase(p, m, tag, n):
    return dict(unit=u_case(p, m, tag), value=(m.num(n.sym) if is_num(n.sym) else None), type=n.type)


def eaddsub(op):
    def ob(p):
        a = enode(p, 'a', sym=symkind(p, 'a'))
        b = enode(p, 'b', sym=symkind(p, 'b'))
        p.case(lambda m: dict(kind='expr', op=op, a=ncase(p, m, 'a', a), b=ncase(p, m, 'b', b)))
        iff(p, binop(p, op, a.obj, b.obj), eqdims(p, a.es, b.es), 'expression ' + op)
    return ob


spec.obligation('adding expressions requires equal exponents')(eaddsub('+'))
spec.obligation('subtracting expressions requires equal exponents')(eaddsub('-'))


@spec.obligation('an expression as exponent must be dimensionless')
def _(p):
    a = enode(p, 'a')
    b = enode(p, 'b', sym=symkind(p, 'b'))
    p.case(lambda m: dict(kind='expr', op='**', a=ncase(p, m, 'a', a), b=ncase(p, m, 'b', b)))
    iff(p, binop(p, '**', a.obj, b.obj), dimless_f(b.es), 'expression power')


@spec.obligation('products and quotients are always accepted')
def _(p):
    a = enode(p, 'a')
    b = enode(p, 'b')
    op = p.pick(['*', '/'])
    p.case(lambda m: dict(kind='expr', op=op, a=ncase(p, m, 'a', a), b=ncase(p, m, 'b', b)))
    iff(p, binop(p, op, a.obj, b.obj), z3.BoolVal(True), 'expression ' + op)


@spec.obligation('plain numbers combine with any expression')
def _(p):
    a = enode(p, 'a')
    n = p.number('n')
    op = p.pick(['+', '-', '*', '/', '**'])
    refl = p.flag('refl') and op != '**'
    if op == '/' and not refl:
        p.assume(real(n) != 0)
    p.case(lambda m: dict(kind='num', op=op, refl=refl, a=ncase(p, m, 'a', a), n=m.num(n)))
    r = binop(p, op, n, a.obj) if refl else binop(p, op, a.obj, n)
    iff(p, r, z3.BoolVal(True), 'expression with a number')


FUNCTIONS = ('Log', 'Log10', 'Sqrt', 'Exp', 'Sin', 'Cos', 'Tan', 'Abs')


def func(fn):
    def ob(p):
        a = enode(p, 'a', sym=symkind(p, 'a'))
        p.case(lambda m: dict(kind='fn', fn=fn, a=ncase(p, m, 'a', a)))
        r = p.call(p.get(C + 'equation_operators', fn), a.obj)
        iff(p, r, dimless_f(a.es), fn)
    return ob


for _f in FUNCTIONS:
    spec.obligation('the argument of %s must be dimensionless' % _f)(func(_f))


def minmax(fn, n):
    def ob(p):
        ns = [enode(p, 'abc'[i], type_=0) for i in range(n)]
        p.case(lambda m: dict(kind='minmax', fn=fn, args=[ncase(p, m, 'abc'[i], x) for i, x in enumerate(ns)]))
        r = p.call(p.get(C + 'equation_operators', fn), *[x.obj for x in ns])
        iff(p, r, z3.And(*[eqdims(p, ns[0].es, x.es) for x in ns[1:]]) if n > 1 else z3.BoolVal(True), fn)
    return ob


def minmixed(fn, pos, n=3):
    def ob(p):
        ns = [enode(p, 'abc'[i], type_=0) for i in range(n - 1)]
        k = p.number('k')
        args = [x.obj for x in ns]
        args.insert(pos, k)
        p.case(lambda m: dict(kind='minmax', fn=fn, args=[ncase(p, m, 'abc'[i], x) for i, x in enumerate(ns)], num=m.num(k), pos=pos))
        r = p.call(p.get(C + 'equation_operators', fn), *args)
        # a bare number is taken in the unit of its companions
        iff(p, r, z3.And(*[eqdims(p, ns[0].es, x.es) for x in ns[1:]]) if n > 2 else z3.BoolVal(True), fn + ' with a number')
    return ob


for _f in ('Min', 'Max'):
    for _n in (1, 2, 3):
        spec.obligation('%s of %d expressions requires equal exponents' % (_f, _n), bounded='%d operands' % _n)(minmax(_f, _n))
    for _pos in (0, 1, 2):
        spec.obligation('%s of expressions and a number (position %d)' % (_f, _pos), bounded='3 operands')(minmixed(_f, _pos))
    spec.obligation('%s of an expression and a number' % _f, bounded='2 operands')(minmixed(_f, 0, 2))
