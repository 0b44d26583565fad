"""C05: expressions know exactly which quantities and unknowns they involve."""
from .lib import *

spec = Spec('C05')
spec.preload = [C + 'unit', C + 'expression_evaluation', C + 'equation_operators', C + 'variable']


def ncase(p, m, tag, n):
    return dict(unit=u_case(p, m, tag), value=(m.num(n.sym) if is_num(n.sym) else None), type=n.type)


def records(p, r, ns, snap):
    p.ensure('the result is an expression', is_enode(p, r[1]))
    sm, vm = p.attr(r[1], 'symbolic_map'), p.attr(r[1], 'variable_map')
    map_is_union(p, 'recorded quantities', sm, [n.sm for n in ns])
    map_is_union(p, 'recorded unknowns', vm, [n.vm for n in ns])
    unchanged(p, 'operands unchanged', snap)
    own = [sm, vm, p.attr(r[1], 'equation_type')]
    for n in ns:
        for x in (n.sm, n.vm, p.attr(n.obj, 'equation_type'), p.attr(n.obj, 'symbolic_map'), p.attr(n.obj, 'variable_map')):
            p.ensure('records are not shared with an operand', all(o is not x for o in own))
    p.ensure('records of one expression are distinct', sm is not vm)


def ops(op):
    def ob(p):
        t = p.choice(3)
        a = enode(p, 'a', sym=symkind(p, 'a') if t == 1 else None, type_=t)
        b = enode(p, 'b', sym=symkind(p, 'b') if t == 1 else None, type_=p.choice(3))
        if op in '+-':
            p.assume(eqdims(p, a.es, b.es))
        if op == '**':
            p.assume(dimless_f(b.es))
        if op == '/':
            p.assume(symx.den(b.sym) != 0)
            p.assume(symx.den(b.rep) != 0)
        p.case(lambda m: dict(kind='bin', op=op, a=ncase(p, m, 'a', a), b=ncase(p, m, 'b', b)))
        snap = snapshot(p, a.obj, b.obj)
        r = binop(p, op, a.obj, b.obj)
        p.returns('the operation is defined', r)
        records(p, r, [a, b], snap)
    return ob


def nums(op, refl):
    def ob(p):
        a = enode(p, 'a', sym=symkind(p, 'a'))
        n = p.number('n')
        if op == '/':
            p.assume((real(n) != 0) if not refl else symx.den(a.sym) != 0)
        p.case(lambda m: dict(kind='num', op=op, refl=refl, a=ncase(p, m, 'a', a), n=m.num(n)))
        snap = snapshot(p, a.obj)
        r = binop(p, op, n, a.obj) if refl else binop(p, op, a.obj, n)
        p.returns('the operation is defined', r)
        records(p, r, [a], snap)
    return ob


for _o in ('+', '-', '*', '/', '**'):
    spec.obligation('records of expression %s expression' % _o)(ops(_o))
    spec.obligation('records of expression %s number' % _o)(nums(_o, False))
    if _o != '**':
        spec.obligation('records of number %s expression' % _o)(nums(_o, True))


def func(fn):
    def ob(p):
        if p.flag('number'):
            n = p.number('n')
            p.case(lambda m: dict(kind='fnnum', fn=fn, n=m.num(n)))
            r = p.call(p.get(C + 'equation_operators', fn), n)
            p.returns('the function is defined', r)
            records(p, r, [], [])
            return
        a = enode(p, 'a', sym=symkind(p, 'a'))
        p.assume(dimless_f(a.es))
        p.case(lambda m: dict(kind='fn', fn=fn, a=ncase(p, m, 'a', a)))
        snap = snapshot(p, a.obj)
        r = p.call(p.get(C + 'equation_operators', fn), a.obj)
        p.returns('the function is defined', r)
        records(p, r, [a], snap)
    return ob


for _f in ('Log', 'Log10', 'Sqrt', 'Exp', 'Sin', 'Cos', 'Tan', 'Abs'):
    spec.obligation('records of %s' % _f)(func(_f))


def minmax(fn, n, num):
    def ob(p):
        ns = [enode(p, 'abc'[i], type_=0) for i in range(n)]
        for x in ns[1:]:
            p.assume(eqdims(p, ns[0].es, x.es))
        args = [x.obj for x in ns]
        k = None
        if num is not None:
            k = p.number('k')
            args.insert(num, k)
        p.case(lambda m: dict(kind='minmax', fn=fn, args=[ncase(p, m, 'abc'[i], x) for i, x in enumerate(ns)],
                              num=None if k is None else m.num(k), pos=num))
        snap = snapshot(p, *[x.obj for x in ns])
        r = p.call(p.get(C + 'equation_operators', fn), *args)
        p.returns('the function is defined', r)
        records(p, r, ns, snap)
    return ob


for _f in ('Min', 'Max'):
    for _n, _k in ((1, None), (2, None), (3, None), (1, 0), (2, 1)):
        spec.obligation('records of %s (%d expressions, number at %s)' % (_f, _n, _k), bounded='at most 3 operands')(minmax(_f, _n, _k))


@spec.obligation('records of a derivative are those of the differentiated variable')
def _(p):
    I = p.I
    Var = p.get(C + 'variable', 'Variable')
    xn, tn = p.string('xn'), p.string('tn')
    p.distinct(xn, tn)
    x = I.call(Var, [xn, unit(p, 'x')], {})
    t = I.call(Var, [tn, unit(p, 't')], {})
    I.setattr(x, 'domain', Obj(p.get(C + 'domain', 'Domain')))
    sp = p.flag('xspec')
    if sp:
        I.setattr(x, 'value', p.real('xv'))
        I.setattr(x, 'is_specified', True)
    p.case(lambda m: dict(kind='diff', spec=sp))
    snap = snapshot(p, x, t)
    r = p.method(x, 'Diff', t)
    p.returns('the derivative is defined', r)
    sm, vm = p.attr(r[1], 'symbolic_map'), p.attr(r[1], 'variable_map')
    q = p.pydict({xn: x})
    map_is_union(p, 'recorded quantities', sm, [q])
    map_is_union(p, 'recorded unknowns', vm, [] if sp else [q])
    unchanged(p, 'variables unchanged', snap)


@spec.obligation('expressions created with default records do not share them')
def _(p):
    I = p.I
    E = p.get(C + 'expression_evaluation', 'EquationNode')
    p.case(lambda m: dict(kind='defaults'))
    a = I.call(E, [], dict(name='a', symbolic_object=1.0, unit_object=unit(p, 'u')))
    b = I.call(E, [], dict(name='b', symbolic_object=2.0, unit_object=unit(p, 'v')))
    disjoint(p, 'default records are not shared', [a], [b])
