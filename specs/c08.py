"""C08: using a quantity yields a faithful expression leaf; derivatives need a domain."""
from .lib import *
from .c07 import target, KINDS

spec = Spec('C08')


def sym_is(p, name, v, nm):
    """v is the symbol called nm"""
    if not (isinstance(v, symx.Ex) and v.op == 'sym'):
        return p.ensure(name, False, 'not a symbol: %r' % (v,))
    return p.eq(name, v.info, nm)


def only_key(p, name, d, nm, obj):
    """the dictionary holds exactly nm: obj"""
    if not (isinstance(d, PDict) and d.layers is None):
        return p.ensure(name, False, 'not a plain dictionary')
    ks = d.keys()
    if not p.ensure(name, len(ks) == 1, 'recorded %r' % (ks,)):
        raise EnsureStop()
    p.eq(name + ' under its name', ks[0], nm)
    p.ensure(name + ' is the quantity itself', d.values()[0] is obj)


def use(K):
    def ob(p):
        q, u, v0, s0 = target(p, K)
        es = dims(p, u)
        if p.flag('renamed'):
            p.I.setattr(q, 'name', p.string('newname'))
        nm = p.attr(q, 'name')
        p.case(lambda m: dict(kind='leaf', cls=K[1], q=u_case(p, m, 'q'), v=m.num(v0), spec=s0))
        snap = snapshot(p, q)
        r = p.call(q)
        p.returns('the quantity can be used', r)
        e = r[1]
        p.ensure('the result is an expression', is_enode(p, e))
        if s0:
            p.eq('a specified quantity contributes its current value', p.attr(e, 'symbolic_object'), v0)
            p.ensure('a specified quantity is no unknown',
                     not p.I.truth(p.attr(e, "variable_map")))
        else:
            sym_is(p, 'an unspecified quantity is the unknown named after it', p.attr(e, 'symbolic_object'), nm)
            only_key(p, 'the unknown is recorded', p.attr(e, 'variable_map'), nm, q)
        sym_is(p, 'the symbolic representation is its symbol', p.attr(e, 'repr_symbolic'), nm)
        only_key(p, 'the quantity is recorded', p.attr(e, 'symbolic_map'), nm, q)
        dims_are(p, 'the unit is carried', p.attr(e, 'unit_object'), es)
        unchanged(p, 'the quantity is unchanged', snap)
        p.ensure('the records are its own', p.attr(e, 'symbolic_map') is not p.attr(e, 'variable_map'))
        # a later change of the value is seen by a later use
        v1 = p.number('v1')
        p.returns('a value can be set', p.method(q, 'setValue', v1))
        r2 = p.call(q)
        p.returns('the quantity can be used again', r2)
        p.eq('a later use sees the new value', p.attr(r2[1], 'symbolic_object'), v1)
        p.ensure('a later use records no unknown', not p.I.truth(p.attr(r2[1], 'variable_map')))
        if s0:
            p.eq('the earlier expression is unaffected', p.attr(e, 'symbolic_object'), v0)
        else:
            sym_is(p, 'the earlier expression is unaffected', p.attr(e, 'symbolic_object'), nm)
    return ob


for _K in KINDS:
    spec.obligation('using a %s' % _K[1])(use(_K))


def vartime(p, tspec=False):
    I = p.I
    x, xu, xv, xs = target(p, ('variable', 'Variable'), 'x')
    t, tu, tv, ts = target(p, ('variable', 'Variable'), 't')
    p.assume(z3.BoolVal(True) if ts == tspec else z3.BoolVal(False))
    p.distinct(p.attr(x, 'name'), p.attr(t, 'name'))
    return x, xu, xv, xs, t, tu, tv


@spec.obligation('a derivative is refused without a domain')
def _(p):
    x, xu, xv, xs, t, tu, tv = vartime(p)
    p.case(lambda m: dict(kind='diff', x=u_case(p, m, 'x'), t=u_case(p, m, 't'), spec=xs, v=m.num(xv), dom=None))
    snap = snapshot(p, x, t)
    p.raises('no derivative of a variable that is not distributed', p.method(x, 'Diff', t))
    p.raises('no derivative of a variable that is not distributed (no independent variable)', p.method(x, 'Diff'))
    unchanged(p, 'nothing changes', snap)


def derivative(how):
    def ob(p):
        I = p.I
        x, xu, xv, xs, t, tu, tv = vartime(p)
        es = [SV('float', real(a) - real(b)) for a, b in zip(dims(p, xu), dims(p, tu))]
        p.case(lambda m: dict(kind='diff', x=u_case(p, m, 'x'), t=u_case(p, m, 't'), spec=xs, v=m.num(xv), dom=how))
        if how == 'distribute':
            d = I.call(p.get(C + 'domain', 'Domain'), [p.string('dn'), tu, t], {})
            r = p.method(x, 'distributeOnDomain', d)
            p.returns('a variable can be distributed', r)
            p.ensure('it is distributed on that domain', p.attr(x, 'domain') is d)
        else:
            I.setattr(x, 'domain', Obj(p.get(C + 'domain', 'Domain')))
        snap = snapshot(p, x, t)
        r = p.method(x, 'Diff', t)
        p.returns('the derivative is defined', r)
        e = r[1]
        p.ensure('the result is an expression', is_enode(p, e))
        if not xs:
            so = p.attr(e, 'symbolic_object')
            p.ensure('it is a derivative', isinstance(so, symx.Ex) and so.op == 'app' and so.info == 'Derivative', repr(so))
            if isinstance(so, symx.Ex) and so.info == 'Derivative':
                sym_is(p, 'it is the derivative of that variable', so.args[0], p.attr(x, 'name'))
                sym_is(p, 'it is the derivative with respect to the independent variable', so.args[1], p.attr(t, 'name'))
            only_key(p, 'the unknown is recorded', p.attr(e, 'variable_map'), p.attr(x, 'name'), x)
        else:
            p.ensure('a specified variable is no unknown', not p.I.truth(p.attr(e, 'variable_map')))
        so = p.attr(e, 'repr_symbolic')
        p.ensure('symbolically it is a derivative', isinstance(so, symx.Ex) and so.op == 'app' and so.info == 'Derivative', repr(so))
        if isinstance(so, symx.Ex) and so.info == 'Derivative':
            sym_is(p, 'symbolically it is the derivative of that variable', so.args[0], p.attr(x, 'name'))
            sym_is(p, 'symbolically it is with respect to the independent variable', so.args[1], p.attr(t, 'name'))
        only_key(p, 'the variable is recorded', p.attr(e, 'symbolic_map'), p.attr(x, 'name'), x)
        dims_are(p, 'its unit is the ratio', p.attr(e, 'unit_object'), es)
        ty = etype(p, e)
        p.ensure('it is differential', ty['differential'] is True and ty['linear'] is False and ty['nonlinear'] is False)
        unchanged(p, 'the variables are unchanged', snap)
    return ob


spec.obligation('the derivative of a distributed variable')(derivative('obj'))
spec.obligation('the derivative of a variable distributed on a domain of its own')(derivative('distribute'))
