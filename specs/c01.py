"""C01: unit algebra follows SI exponent arithmetic."""
from .lib import *

spec = Spec('C01')
spec.preload = [C + 'unit', C + 'template_units', C + 'quantity']
FUNCS = ['src.sloth.core.unit:Unit.*']


def two(p):
    a, b = unit(p, 'a'), unit(p, 'b')
    return a, b


def arith(op, f):
    def ob(p):
        a, b = two(p)
        da, db = dims(p, a), dims(p, b)
        if p.flag('same'):
            b, db = a, da
            p.units['b'] = p.units['a']
        p.case(lambda m: dict(kind='binop', op=op, a=u_case(p, m, 'a'), b=u_case(p, m, 'b')))
        snap = snapshot(p, a, b)
        r = binop(p, op, a, b)
        p.returns('operation is defined', r)
        dims_are(p, 'exponents of the result', r[1], [p.I.numop(f, x, y) for x, y in zip(da, db)])
        unchanged(p, 'operands unchanged', snap)
        disjoint(p, 'result independent of operands', [r[1]], [a, b])
        # using the result afterwards leaves the operands alone
        r2 = binop(p, '*', r[1], a)
        p.returns('result usable', r2)
        dims_are(p, 'exponents of a further product', r2[1],
                 [p.I.numop('Add', p.I.numop(f, x, y), x) for x, y in zip(da, db)])
        unchanged(p, 'operands unchanged later', snap)
    return ob


spec.obligation('unit multiplication adds exponents')(arith('*', 'Add'))
spec.obligation('unit division subtracts exponents')(arith('/', 'Sub'))


@spec.obligation('unit __div__ subtracts exponents')
def _(p):
    a, b = two(p)
    da, db = dims(p, a), dims(p, b)
    p.case(lambda m: dict(kind='binop', op='/', a=u_case(p, m, 'a'), b=u_case(p, m, 'b'), meth='__div__'))
    snap = snapshot(p, a, b)
    r = p.attempt(lambda: p.I.call(p.I.getattr(a, '__div__'), [b], {}))
    p.returns('operation is defined', r)
    dims_are(p, 'exponents of the result', r[1], [p.I.numop('Sub', x, y) for x, y in zip(da, db)])
    unchanged(p, 'operands unchanged', snap)
    disjoint(p, 'result independent of operands', [r[1]], [a, b])


@spec.obligation('unit power scales exponents')
def _(p):
    a = unit(p, 'a')
    da = dims(p, a)
    n = p.number('n')
    p.case(lambda m: dict(kind='pow', a=u_case(p, m, 'a'), n=m.num(n)))
    snap = snapshot(p, a)
    r = binop(p, '**', a, n)
    p.returns('operation is defined', r)
    dims_are(p, 'exponents of the result', r[1], [p.I.numop('Mult', x, n) for x in da])
    unchanged(p, 'operand unchanged', snap)
    disjoint(p, 'result independent of operand', [r[1]], [a])


@spec.obligation('unit power by a dimensionless unit')
def _(p):
    a, b = two(p)
    da, db = dims(p, a), dims(p, b)
    p.assume(dimless_f(db))
    p.case(lambda m: dict(kind='powu', a=u_case(p, m, 'a'), b=u_case(p, m, 'b')))
    snap = snapshot(p, a, b)
    r = binop(p, '**', a, b)
    p.returns('operation is defined', r)
    dims_are(p, 'exponents of the result', r[1], da)
    unchanged(p, 'operands unchanged', snap)
    disjoint(p, 'result independent of operands', [r[1]], [a, b])


def scale(op):
    def ob(p):
        a = unit(p, 'a')
        da = dims(p, a)
        n = p.number('n')
        if op == '/':
            p.assume(real(n) != 0)
        p.case(lambda m: dict(kind='scale', op=op, a=u_case(p, m, 'a'), n=m.num(n)))
        snap = snapshot(p, a)
        r = binop(p, op, a, n)
        p.returns('operation is defined', r)
        p.ensure('result is a quantity', p.I.isinstance_(r[1], p.get(C + 'quantity', 'Quantity')))
        dims_are(p, 'dimension kept', p.attr(r[1], 'units'), da)
        v = p.attr(r[1], 'value')
        p.ensure('number carried', real(v) == (real(n) if op == '*' else 1 / real(n)))
        unchanged(p, 'operand unchanged', snap)
        disjoint(p, 'result independent of operand', [r[1]], [a])
    return ob


spec.obligation('scaling a unit by a number')(scale('*'))
spec.obligation('dividing a unit by a number')(scale('/'))


@spec.obligation('unit arithmetic refuses other operands')
def _(p):
    a = unit(p, 'a')
    op = p.pick(['*', '/', '**'], 'op')
    bad = p.pick([None, 'text', PList([])], 'bad')
    p.case(lambda m: dict(kind='bad', op=op, a=u_case(p, m, 'a')))
    snap = snapshot(p, a)
    r = binop(p, op, a, bad)
    p.raises('an error is raised', r)
    unchanged(p, 'operand unchanged', snap)


@spec.obligation('a unit holds the exponents it is given, zero elsewhere')
def _(p):
    d = PDict()
    want = []
    src = {}
    order = DIMS if p.flag('order') else tuple(reversed(DIMS))
    for k in order:
        if p.flag('has_' + k):
            v = p.real(k)
            d.rset(k, v)
            src[k] = v
    want = [src.get(k, 0) for k in DIMS]
    p.case(lambda m: dict(kind='ctor', dims=[[k, m.num(v)] for k, v in src.items()]))
    snap = snapshot(p, d)
    r = p.call(Unit(p), p.string('nm', False), d)
    p.returns('unit created', r)
    dims_are(p, 'exponents', r[1], want)
    unchanged(p, 'the given dictionary is unchanged', snap)
    disjoint(p, 'the given dictionary is not shared', [r[1]], [d])


@spec.obligation('a unit made from a unit copies its exponents')
def _(p):
    a = unit(p, 'a')
    da = dims(p, a)
    p.case(lambda m: dict(kind='ctoru', a=u_case(p, m, 'a')))
    snap = snapshot(p, a)
    r = p.call(Unit(p), p.string('nm', False), a)
    p.returns('unit created', r)
    dims_are(p, 'exponents', r[1], da)
    unchanged(p, 'source unchanged', snap)
    disjoint(p, 'source not shared', [r[1]], [a])


TEMPL = dict(dimless={}, m=dict(m=1), kg=dict(kg=1), s=dict(s=1), A=dict(A=1), K=dict(K=1), mol=dict(mol=1), cd=dict(cd=1),
             _s=dict(s=-1), _m2=dict(m=-2), _m3=dict(m=-3), m_s=dict(m=1, s=-1), m_s2=dict(m=1, s=-2), kg_s=dict(kg=1, s=-1),
             mol_s=dict(mol=1, s=-1), Force=dict(kg=1, m=1, s=-2), Pa=dict(kg=1, m=-1, s=-2), atm=dict(kg=1, m=-1, s=-2),
             J=dict(kg=1, m=2, s=-2), UniversalIdealGasConstant=dict(kg=1, m=2, s=-2, K=-1, mol=-1))


@spec.obligation('template units have their SI exponents and are independent')
def _(p):
    us = {k: p.get(C + 'template_units', k) for k in TEMPL}
    p.case(lambda m: dict(kind='templates'))
    for k, u in us.items():
        dims_are(p, 'exponents of ' + k, u, [TEMPL[k].get(d, 0) for d in DIMS])
    ks = list(us)
    for i, k in enumerate(ks):
        for k2 in ks[i + 1:]:
            if us[k] is not us[k2]:
                disjoint(p, 'template units share nothing', [us[k]], [us[k2]])
