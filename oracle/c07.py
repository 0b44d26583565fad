from .lib import *


def mk(cls, dims_, spec0, v0=3.5):
    q = get(C + cls.lower(), cls)('q', U(dims_))
    q.value, q.is_specified = v0, bool(spec0)
    return q


def state(q):
    return (q.value, q.is_specified, dims(q.units), id(q.units), q.name)


def run_case(c):
    F = Fails()
    k = c['kind']
    q = mk(c['cls'], c['q'], c.get('spec0'))
    before = state(q)
    if k == 'set':
        n = int(c['n']) if c.get('isint') else float(c['n'])
        if c['w'] is None:
            r = attempt(q.setValue, n)
            valid = True
        else:
            w = U(c['w'])
            valid = list(c['w']) == list(c['q'])
            r = attempt(q.setValue, n, quantity_unit=w) if c.get('kw') else attempt(q.setValue, n, w)
            F.check(dims(w) == list(c['w']), 'the given unit was changed')
        want = n
    elif k == 'setq':
        o = mk(c['cls'], c['w'], c.get('spec1', True), c['v'])
        so = state(o)
        valid = list(c['w']) == list(c['q'])
        r = attempt(q.setValue, o)
        want = c['v']
        F.check(state(o) == so, 'the other quantity was changed', c)
    elif k == 'setbad':
        for bad in (None, 'text', [], {}):
            r = attempt(q.setValue, bad)
            F.check(r[0] == 'raise', 'a foreign value was accepted', bad)
            F.check(state(q) == before, 'a rejected value changed the quantity', c)
        return F
    elif k == 'twice':
        q.setValue(float(c['n']))
        r = attempt(q.setValue, float(c['k']), U(c['w']))
        if list(c['w']) == list(c['q']):
            return F
        F.check(r[0] == 'raise', 'an incoherent value was accepted', c)
        F.check(q.value == c['n'] and q.is_specified is True, 'a rejected value changed the quantity', c)
        F.check(q().symbolic_object == c['n'], 'the value in force is not used', c)
        return F
    else:
        return F
    if valid:
        if F.check(r[0] == 'ok', '%s.setValue: a coherent value was rejected' % c['cls'], '%s %r' % (c, r)):
            F.check(q.value == want, '%s.setValue: wrong value' % c['cls'], c)
            F.check(q.is_specified is True, '%s.setValue: not specified' % c['cls'], c)
            F.check(dims(q.units) == list(c['q']) and id(q.units) == before[3], '%s.setValue: unit changed' % c['cls'], c)
            F.check(q().symbolic_object == want and q().variable_map == {}, 'the value is not visible when the quantity is used', c)
    else:
        F.check(r[0] == 'raise', '%s.setValue: an incoherent value was accepted' % c['cls'], c)
        if r[0] == 'raise':
            F.check(state(q) == before, '%s.setValue: rejection changed the quantity' % c['cls'], c)
    return F


def gen_cases(rng, tier):
    us = [[0] * 7] + [[1 if i == j else 0 for j in range(7)] for i in range(7)] + [[1, 0, -1, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 2], [0.5] * 7]
    for cls in ('Quantity', 'Variable', 'Parameter', 'Constant'):
        for q in us:
            for s0 in (False, True):
                for n, ii in ((2.5, False), (3, True), (0.0, False), (0, True), (-1.0, False)):
                    yield dict(kind='set', cls=cls, n=n, isint=ii, q=q, w=None, spec0=s0)
                yield dict(kind='setbad', cls=cls, q=q, spec0=s0)
            for w in us:
                for n, ii in ((2.5, False), (3, True), (0, True), (0.0, False)):
                    for kw in (False, True):
                        yield dict(kind='set', cls=cls, n=n, isint=ii, q=q, w=w, kw=kw, spec0=rng.random() < .5)
                for s1 in (True, False):
                    yield dict(kind='setq', cls=cls, q=q, w=w, v=rng.choice([0.0, 1.25, -4.0, 7]), spec0=rng.random() < .5, spec1=s1)
                if w != q:
                    yield dict(kind='twice', cls=cls, q=q, w=w, n=1.5, k=9.0)
