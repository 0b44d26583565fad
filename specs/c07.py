"""C07: specifying a value is dimension-checked, atomic and visible."""
from .lib import *

spec = Spec('C07')
KINDS = [('quantity', 'Quantity'), ('variable', 'Variable'), ('parameter', 'Parameter'), ('constant', 'Constant')]


def target(p, K, tag='q'):
    """an arbitrary quantity in an arbitrary state"""
    I = p.I
    u = unit(p, tag)
    q = I.call(p.get(C + K[0], K[1]), [p.string(tag + '_name'), u], {})
    v0 = p.real(tag + '_v0')
    s0 = p.flag(tag + '_spec0')
    I.setattr(q, 'value', v0)
    I.setattr(q, 'is_specified', s0)
    return q, u, v0, s0


def specified(p, q, v, u, es):
    p.eq('it holds the value', p.attr(q, 'value'), v)
    p.ensure('it is specified', p.attr(q, 'is_specified') is True)
    p.ensure('its unit is kept', p.attr(q, 'units') is u)
    dims_are(p, 'its unit is unchanged', u, es)


def number(K, withunit, kw):
    def ob(p):
        q, u, v0, s0 = target(p, K)
        es = dims(p, u)
        n = p.number('n')
        if withunit:
            u2 = unit(p, 'w')
            same = eqdims(p, es, dims(p, u2))
            p.case(lambda m: dict(kind='set', cls=K[1], n=m.num(n), isint=n.k == 'int', q=u_case(p, m, 'q'), w=u_case(p, m, 'w'), kw=kw, spec0=s0))
            snap = snapshot(p, q, u2)
            r = p.method(q, 'setValue', n, quantity_unit=u2) if kw else p.method(q, 'setValue', n, u2)
            if r[0] == 'ok':
                p.ensure('a value is accepted only in a coherent unit', same)
                specified(p, q, n, u, es)
            else:
                p.ensure('a value is rejected only in an incoherent unit', z3.Not(same))
                unchanged(p, 'nothing changes on rejection', snap)
        else:
            p.case(lambda m: dict(kind='set', cls=K[1], n=m.num(n), isint=n.k == 'int', q=u_case(p, m, 'q'), w=None, kw=kw, spec0=s0))
            r = p.method(q, 'setValue', n)
            p.returns('a plain number is accepted', r)
            specified(p, q, n, u, es)
    return ob


def other(K):
    def ob(p):
        q, u, v0, s0 = target(p, K)
        o, w, v1, s1 = target(p, K, 'o')
        es = dims(p, u)
        same = eqdims(p, es, dims(p, w))
        p.case(lambda m: dict(kind='setq', cls=K[1], q=u_case(p, m, 'q'), w=u_case(p, m, 'o'), v=m.num(v1), spec0=s0, spec1=s1))
        snap = snapshot(p, q, o)
        snapo = snapshot(p, o)
        r = p.method(q, 'setValue', o)
        if r[0] == 'ok':
            p.ensure('another quantity is accepted only when coherent', same)
            specified(p, q, v1, u, es)
            unchanged(p, 'the other quantity is unchanged', snapo)
            p.ensure('the quantities stay separate', p.attr(q, 'units') is not w)
        else:
            p.ensure('another quantity is rejected only when incoherent', z3.Not(same))
            unchanged(p, 'nothing changes on rejection', snap)
    return ob


def foreign(K):
    def ob(p):
        q, u, v0, s0 = target(p, K)
        bad = p.pick([None, 'text', PList([]), PDict()])
        w = unit(p, 'w') if p.flag('unit') else None
        p.case(lambda m: dict(kind='setbad', cls=K[1], q=u_case(p, m, 'q'), spec0=s0))
        snap = snapshot(p, q)
        r = p.method(q, 'setValue', bad) if w is None else p.method(q, 'setValue', bad, w)
        p.raises('anything else is rejected', r)
        unchanged(p, 'nothing changes on rejection', snap)
    return ob


def twice(K):
    def ob(p):
        """a rejected value after an accepted one leaves the accepted one"""
        q, u, v0, s0 = target(p, K)
        es = dims(p, u)
        n, k = p.number('n'), p.number('k')
        w = unit(p, 'w')
        p.assume(z3.Not(eqdims(p, es, dims(p, w))))
        p.case(lambda m: dict(kind='twice', cls=K[1], q=u_case(p, m, 'q'), w=u_case(p, m, 'w'), n=m.num(n), k=m.num(k)))
        p.returns('a plain number is accepted', p.method(q, 'setValue', n))
        p.raises('an incoherent value is rejected', p.method(q, 'setValue', k, w))
        specified(p, q, n, u, es)
        r = p.call(q)
        p.returns('the value is visible when the quantity is used', r)
        p.eq('the leaf carries the value', p.attr(r[1], 'symbolic_object'), n)
    return ob


for _K in KINDS:
    spec.obligation('%s: setting a number' % _K[1])(number(_K, False, False))
    spec.obligation('%s: setting a number in a unit' % _K[1])(number(_K, True, False))
    spec.obligation('%s: setting a number in a unit (keyword)' % _K[1])(number(_K, True, True))
    spec.obligation('%s: setting from another %s' % (_K[1], _K[1]))(other(_K))
    spec.obligation('%s: setting anything else' % _K[1])(foreign(_K))
    spec.obligation('%s: a rejected value leaves the accepted one in force' % _K[1])(twice(_K))
