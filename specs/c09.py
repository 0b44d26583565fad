"""C09: equations keep both sides and the residual of what was written."""
from .lib import *

spec = Spec('C09')
spec.assumptions = ['sympy builds the expression it is asked to build', 'floats are mathematical reals']


def ncase(p, m, tag, n):
    return dict(unit=u_case(p, m, tag), value=(m.num(n.sym) if is_num(n.sym) else None), type=n.type,
                const=bool(m.num(SV('bool', n.vmap.empty))))


def written(p, l, r):
    return p.attempt(lambda: p.I.compare('Eq', l, r))


def owner(p):
    """a direct equation, or one owned by a model"""
    return p.how if hasattr(p, 'how') else p.pick(['direct', 'set', 'model'], 'owner')


def make(p, how, expr):
    I = p.I
    if how == 'direct':
        return p.call(p.get(C + 'equation', 'Equation'), p.pick(['', 'eq'], 'nm'), 'd', expr)
    if how == 'set':
        e = I.call(p.get(C + 'equation', 'Equation'), ['eq', 'd'], {})
        r = p.method(e, 'setResidual', expr)
        return r if r[0] == 'raise' else ('ok', e)
    m = I.call(p.get(S + 'model', 'Model'), [p.string('mn')], {})
    return p.method(m, 'createEquation', p.pick(['', 'eq'], 'nm'), 'd', expr, check_equation=False)


def node_is(p, name, e, sym, rep, es, sm, vm):
    if not p.ensure(name + ' is an expression', is_enode(p, e), repr(e)):
        raise EnsureStop()
    s, q = p.attr(e, 'symbolic_object'), p.attr(e, 'repr_symbolic')
    p.ensure(name + ' denotes what was written', symx.den(s) == sym)
    p.ensure(name + ' symbolically denotes what was written', symx.den(q) == rep)
    dims_are(p, name + ' has the unit', p.attr(e, 'unit_object'), es)
    p.ensure(name + ' records are dictionaries', all(isinstance(p.attr(e, x), PDict) for x in ('symbolic_map', 'variable_map')))
    p.later += [lambda: map_is_union(p, name + ' records the quantities', p.attr(e, 'symbolic_map'), sm),
                lambda: map_is_union(p, name + ' records the unknowns', p.attr(e, 'variable_map'), vm)]


def declared(p, eq, parts):
    d = p.attr(eq, 'objects_declared')
    if not p.ensure('the declared objects are known', isinstance(d, PDict), repr(d)):
        return
    p.later.append(lambda: map_is_union(p, 'declared objects are exactly the quantities', d, parts))


def type_ok(p, eq, a, b=None):
    t = etype(p, p.attr(eq, 'equation_expression'))
    k = [n for n, v in t.items() if v is True]
    p.ensure('the equation has one type', len(k) == 1)
    if len(k) == 1:
        p.eq('the type is that of the residual', p.attr(eq, 'type'), k[0])


def elementary(num):
    def ob(p):
        a = enode(p, 'a', sym=symkind(p, 'a'))
        if num:
            n = p.number('n')
            b = None
        else:
            b = enode(p, 'b', sym=symkind(p, 'b'))
            p.assume(eqdims(p, a.es, b.es))
        how = owner(p)
        p.case(lambda m: dict(kind='elem', how=how, a=ncase(p, m, 'a', a), b=None if num else ncase(p, m, 'b', b), n=m.num(n) if num else None))
        sa, qa = symx.den(a.sym), symx.den(a.rep)
        sb, qb = (real(n), real(n)) if num else (symx.den(b.sym), symx.den(b.rep))
        roots = [a.obj] + ([] if num else [b.obj])
        snap = snapshot(p, *roots)
        w = written(p, a.obj, n if num else b.obj)
        p.returns('the equation can be written', w)
        r = make(p, how, w[1])
        p.returns('the equation is accepted', r)
        eq = r[1]
        L, R = p.call(eq, 0), p.call(eq, 1)
        p.returns('the left side can be read', L)
        p.returns('the right side can be read', R)
        none = PDict()
        node_is(p, 'the left side', L[1], sa, qa, a.es, [a.sm], [a.vm])
        node_is(p, 'the right side', R[1], sb, qb, a.es if num else b.es, [none] if num else [b.sm], [none] if num else [b.vm])
        sm, vm = [a.sm] + ([] if num else [b.sm]), [a.vm] + ([] if num else [b.vm])
        node_is(p, 'the residual', p.attr(eq, 'equation_expression'), sa - sb, qa - qb, a.es, sm, vm)
        declared(p, eq, sm)
        type_ok(p, eq, a, b)
        p.ensure('no other side exists', p.call(eq, 2)[0] == 'raise')
        unchanged(p, 'the expressions written are unchanged', snap)
        # moving to the residual form keeps the equation
        r = p.method(eq, '_convertToResidualForm')
        p.returns('the residual form can be taken', r)
        node_is(p, 'the residual after conversion', p.attr(eq, 'equation_expression'), sa - sb, qa - qb, a.es, sm, vm)
        L = p.attr(eq, 'elementary_equation_expression')
        L = p.list_of(L)
        p.ensure('both sides remain', len(L) == 2)
        if len(L) == 2:
            node_is(p, 'the left side after conversion', L[0], sa, qa, a.es, [a.sm], [a.vm])
            node_is(p, 'the right side after conversion', L[1], sb, qb, a.es if num else b.es, [none] if num else [b.sm], [none] if num else [b.vm])
    return ob


HOWS = ('direct', 'set', 'model')


def split(f, how=None):
    def ob(p):
        if how:
            p.how = how
        p.later = [lambda: None]
        f(p)
        p.one_of(*p.later)
    return ob


for _h in HOWS:
    spec.obligation('left == right (%s)' % _h)(split(elementary(False), _h))
    spec.obligation('left == number (%s)' % _h)(split(elementary(True), _h))


@spec.obligation('incoherent sides are rejected')
def _(p):
    a = enode(p, 'a', sym=symkind(p, 'a'), type_=p.choice(2))
    b = enode(p, 'b', sym=symkind(p, 'b'), type_=p.choice(2))
    p.assume(z3.Not(eqdims(p, a.es, b.es)))
    how = owner(p)
    p.case(lambda m: dict(kind='incoherent', how=how, a=ncase(p, m, 'a', a), b=ncase(p, m, 'b', b)))
    w = written(p, a.obj, b.obj)
    if w[0] == 'raise':
        p.raises('sides of different dimension are rejected', w)
        return
    p.raises('sides of different dimension are rejected', make(p, how, w[1]))


def residual(p, reuse=False):
    a = enode(p, 'a', sym=symkind(p, 'a'))
    how = owner(p)
    p.case(lambda m: dict(kind='resid', how=how, a=ncase(p, m, 'a', a), reuse=reuse))
    snap = snapshot(p, a.obj)
    p.hook(lambda I, a, k: Native('compiled', lambda I, a, k: 0.0), 'sympy.lambdify', 'sympy.utilities.lambdify')
    if reuse:
        c = enode(p, 'c', type_=0)
        d = enode(p, 'd', type_=p.pick([0, 2]))
        p.assume(eqdims(p, c.es, d.es))
        w = written(p, c.obj, d.obj)
        p.returns('the equation can be written', w)
        r = make(p, how, w[1])
        p.returns('the equation is accepted', r)
        eq = r[1]
        r = p.method(eq, 'setResidual', a.obj)
        p.returns('the equation can be replaced', r)
        p.later += [lambda s=s: p.raises('a residual has no sides, also when it replaces an equation that had', p.method(eq, '_convertToFunction', None, s))
                    for s in ('lhs', 'rhs')]
    else:
        r = make(p, how, a.obj)
        p.returns('the equation is accepted', r)
        eq = r[1]
    sa, qa = symx.den(a.sym), symx.den(a.rep)
    r = p.call(eq)
    p.returns('the residual can be read', r)
    node_is(p, 'the residual', r[1], sa, qa, a.es, [a.sm], [a.vm])
    node_is(p, 'the residual kept', p.attr(eq, 'equation_expression'), sa, qa, a.es, [a.sm], [a.vm])
    declared(p, eq, [a.sm])
    type_ok(p, eq, a)
    r = p.method(eq, '_convertToResidualForm')
    p.returns('the residual form can be taken', r)
    node_is(p, 'the residual after conversion', p.attr(eq, 'equation_expression'), sa, qa, a.es, [a.sm], [a.vm])
    unchanged(p, 'the expression written is unchanged', snap)


spec.obligation('residual')(split(residual))
for _h in HOWS:
    spec.obligation('residual replacing an earlier equation (%s)' % _h)(split(lambda p: residual(p, True), _h))

BAD = ('none', 'text', 'number', 'list', 'dict', 'quantity', 'class', 'empty', 'node,none', 'node,text', 'number,node', 'node,quantity', 'list of nodes')


def bad(p, k, a):
    I = p.I
    q = I.call(p.get(C + 'quantity', 'Quantity'), ['q', unit(p, 'q')], {})
    return {'none': lambda: None, 'text': lambda: p.string('s'), 'number': lambda: p.number('n'), 'list': lambda: PList([]), 'dict': lambda: PDict(),
            'quantity': lambda: q, 'class': lambda: p.get(C + 'equation', 'Equation'), 'empty': lambda: (), 'node,none': lambda: (a.obj, None),
            'node,text': lambda: (a.obj, p.string('s')), 'number,node': lambda: (p.number('n'), a.obj), 'node,quantity': lambda: (a.obj, q),
            'list of nodes': lambda: PList([a.obj, a.obj])}[k]()


@spec.obligation('anything else is rejected')
def _(p):
    a = enode(p, 'a')
    how = owner(p)
    k = p.pick(BAD, 'bad')
    v = bad(p, k, a)
    if v is None and how != 'set':
        raise PathInfeasible()
    p.case(lambda m: dict(kind='bad', how=how, what=k, a=ncase(p, m, 'a', a)))
    snap = snapshot(p, a.obj)
    p.raises('not an equation: rejected', make(p, how, v))
    unchanged(p, 'nothing changes', snap)


@spec.obligation('sides of a residual equation do not exist')
@split
def _(p):
    a = enode(p, 'a')
    p.case(lambda m: dict(kind='sides', a=ncase(p, m, 'a', a)))
    eq = p.I.call(p.get(C + 'equation', 'Equation'), ['eq', 'd', a.obj], {})
    r = p.call(eq, 0)
    ok = r[0] == 'raise' or (is_enode(p, r[1]))
    p.ensure('reading a residual gives the residual', ok)
    if r[0] == 'ok' and is_enode(p, r[1]):
        node_is(p, 'the residual', r[1], symx.den(a.sym), symx.den(a.rep), a.es, [a.sm], [a.vm])
