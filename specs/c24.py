"""C24: evaluating an equation substitutes the given values."""
from .lib import *

spec = Spec('C24')
spec.assumptions = ['sympy evalf(subs=...) substitutes the named symbols', 'floats are mathematical reals']


def rich(p):
    """records hold real quantities with an arbitrary value each"""
    VF = z3.Function(V.fresh('valueof'), z3.StringSort(), z3.RealSort())
    u = unit(p, 'qu')

    def mk(I, k):
        q = I.call(p.get(C + 'variable', 'Variable'), [k, u], {})
        q.d.rset('value', SV('float', VF(str2z(k))))
        q.d.rset('is_specified', SV('bool', z3.Bool(V.fresh('spec'))))
        return q
    return mk, VF


def numbers(p, tag='given'):
    """an arbitrary dictionary from names to numbers"""
    VF = z3.Function(V.fresh(tag), z3.StringSort(), z3.RealSort())
    m = SMap(V.fresh(tag), lambda I, k: SV('float', VF(str2z(k))))
    d = PDict()
    d.layers = [('map', m)]
    p.I.assume(z3.And(m.size >= 0, m.empty == (m.size == 0)))
    return d


def agrees(p, name, got, keys, val):
    """for an arbitrary key, the dictionary substituted holds the wanted value"""
    k = p.string('key')
    I = p.I
    w = I.truth_f(I.contains(keys, k))
    g = I.truth_f(I.contains(got, k))
    p.ensure(name + ': names', w == g)
    if w and g:
        p.eq(name + ': values', I.dict_get(got, k), val(k))
    raise EnsureStop()


def value_is(p, name, r, sym, keys, val):
    """r denotes sym under the valuation overridden by {k: val(k) for k in keys}"""
    if not p.ensure(name + ' is a value', isinstance(r, symx.Ex) or is_num(r), repr(r)):
        return
    want = symx.upd_map(symx.SIGMA, keys)
    ms = symx.maps_of(r)
    for i, m in enumerate(ms):
        if p.choice(2, 'map%d' % i):
            agrees(p, name, m, keys, val)
        p.I.assume(symx.upd_map(symx.SIGMA, m) == want)
    p.ensure(name, symx.den(r) == symx.den(sym, want), repr(r))


def side_of(p, form):
    return p.pick([None, 'lhs', 'rhs'] if form == 'elem' else [None], 'side')


def evaluation(form, given):
    def ob(p):
        I = p.I
        mk, VF = rich(p)
        lib_stub = quantity_stub
        a = enode(p, 'a', sym=symkind(p, 'a'), type_=p.choice(2), stub=mk)
        if form == 'elem':
            b = enode(p, 'b', sym=symkind(p, 'b'), type_=p.choice(2), u=a.u, stub=mk)
            ex = (a.obj, b.obj)
        elif form == 'num':
            n = p.number('n')
            ex = (a.obj, n)
        else:
            ex = a.obj
        eq = I.call(p.get(C + 'equation', 'Equation'), ['eq', 'd', ex], {})
        side = side_of(p, 'elem' if form == 'num' else form)
        d = numbers(p) if given else None
        p.case(lambda m: dict(kind='eval', form=form, side=side, given=given, a=ncase(p, m, 'a', a), b=ncase(p, m, 'b', b) if form == 'elem' else None,
                              n=m.num(n) if form == 'num' else None))
        snap = snapshot(p, eq)
        whole = p.attr(eq, 'equation_expression', 'symbolic_map')
        how = p.pick(['eval', 'residual'], 'how') if side is None and not given else 'eval'
        if how == 'residual':
            r = p.method(eq, 'getResidual')
        else:
            kw = {}
            if given:
                kw['symbolic_map'] = d
            if side is not None:
                kw['side'] = side
            r = p.method(eq, 'eval', **kw)
        p.returns('the equation can be evaluated', r)
        sb = None if form == 'resid' else (b.sym if form == 'elem' else n)
        if side == 'lhs' or form == 'resid':
            want = a.sym
        elif side == 'rhs':
            want = sb
        else:
            want = symx.Ex('app', (a.sym, sb), 'Sub')
        keys = d if given else whole
        val = (lambda k: I.dict_get(d, k)) if given else (lambda k: I.getattr(I.dict_get(whole, k), 'value'))
        unchanged(p, 'nothing changes', snap)
        value_is(p, 'the value', r[1], want, keys, val)
    return ob


def ncase(p, m, tag, n):
    return dict(unit=u_case(p, m, 'a'), value=(m.num(n.sym) if is_num(n.sym) else None), type=n.type,
                const=bool(m.num(SV('bool', n.vmap.empty))))


for _f in ('elem', 'num', 'resid'):
    for _g in (True, False):
        spec.obligation('evaluating (%s, %s)' % (_f, 'values given' if _g else 'current values'))(evaluation(_f, _g))


@spec.obligation('a side of an equation without sides is refused')
def _(p):
    I = p.I
    a = enode(p, 'a', sym=symkind(p, 'a'))
    if p.flag('via residual of earlier equation'):
        c = enode(p, 'c', type_=0)
        eq = I.call(p.get(C + 'equation', 'Equation'), ['eq', 'd', (c.obj, p.number('n'))], {})
        p.returns('the equation can be replaced', p.method(eq, 'setResidual', a.obj))
    else:
        eq = I.call(p.get(C + 'equation', 'Equation'), ['eq', 'd', a.obj], {})
    side = p.pick(['lhs', 'rhs'])
    p.case(lambda m: dict(kind='noside', side=side))
    snap = snapshot(p, eq)
    kw = dict(side=side)
    if p.flag('given'):
        kw['symbolic_map'] = numbers(p)
    p.raises('no such side', p.method(eq, 'eval', **kw))
    unchanged(p, 'nothing changes', snap)


@spec.obligation('an unknown side is refused')
def _(p):
    I = p.I
    a = enode(p, 'a', sym=symkind(p, 'a'))
    ex = a.obj if p.flag('residual') else (a.obj, p.number('n'))
    eq = I.call(p.get(C + 'equation', 'Equation'), ['eq', 'd', ex], {})
    s = p.string('side')
    p.distinct(s, 'lhs')
    p.distinct(s, 'rhs')
    p.case(lambda m: dict(kind='noside', side=m.str(s)))
    p.raises('no such side', p.method(eq, 'eval', side=s))
