"""C20: property packages combine without loss, duplication or cross-talk."""
from .lib import *
from pyvc import builtins_model as B

spec = Spec('C20')
spec.assumptions = ['thermo.chemical.Chemical returns an object holding the data of the substance named; its calculate method changes that object only',
                    'the phases of one package have different names']
PM = C + 'property_package'


class Chem(Host):
    """property data of a phase"""
    hname = 'property data'

    def __init__(self, name, log=None):
        self.name, self.log = name, log

    def __repr__(self):
        return '<data of %r>' % (self.name,)

    def h_getattr(self, I, n):
        if n == 'calculate':
            return Native('calculate', lambda I, a, k: seqs._jappend(self.log, (self, a, k)))
        raise Unsupported('attribute %s of property data' % n)


def package(p, tag):
    """a package with arbitrarily many phases, listed in order"""
    I = p.I
    n = Node()
    n.T, n.P = p.real(tag + '_T'), p.real(tag + '_P')
    p.hook(lambda I, a, k: Chem(a[0]), 'thermo.chemical.Chemical')
    n.obj = I.call(p.get(PM, 'PropertyPackage'), [], dict(phase_names=PList([])))
    n.phases = gmap(p, tag + '_phases', lambda I, k: Chem(k))
    n.names = PList(seqs.DView(n.phases, 'keys').generic(I))
    I.setattr(n.obj, 'phases', n.phases)
    I.setattr(n.obj, 'phase_names', n.names)
    I.setattr(n.obj, 'T', n.T)
    I.setattr(n.obj, 'P', n.P)
    n.names0, n.phases0 = copy_of(n.names), copy_of(n.phases)
    return n


def same(p, what, n, names=None, phases=None):
    list_is(p, what + ': phase names', p.attr(n.obj, 'phase_names'), n.names0)
    dict_after(p, what + ': phases', p.attr(n.obj, 'phases'), n.phases0)
    p.eq(what + ': temperature', p.attr(n.obj, 'T'), n.T)
    p.eq(what + ': pressure', p.attr(n.obj, 'P'), n.P)


def case(p, **kw):
    p.case(lambda c: dict(kind='packages', seed=3, steps=15))


@spec.obligation('PropertyPackage: the phases named, each with its own data')
def _(p):
    I = p.I
    made = []

    def chem(I, a, k):
        p.ensure('data at the conditions of the package', len(a) == 3 and not k, repr((a, k)))
        p.eq('temperature', a[1], 298.15)
        p.eq('pressure', a[2], 101325)
        return Chem(a[0])
    p.hook(chem, 'thermo.chemical.Chemical')
    d = gmap(p, 'given', lambda I, k: None)
    given = PList(seqs.DView(d, 'keys').generic(I))
    if p.flag('a name is None'):
        given = PList(seqs.GSeq(seqs.segs_of(given.items) + [[None]]))
    old = copy_of(given)
    case(p)
    r = p.call(p.get(PM, 'PropertyPackage'), phase_names=given)
    p.returns('the package is created', r)
    o = r[1]
    names = p.attr(o, 'phase_names')
    list_is(p, 'the list of the caller is unchanged', given, old)
    p.ensure('the list of names is the package\'s own', names is not given)
    list_is(p, 'phase names', names, PList(seqs.DView(d, 'keys').generic(I)))
    ph = p.attr(o, 'phases')
    k = p.string('key')
    w = I.truth_f(I.contains(d, k))
    p.ensure('phases', I.truth_f(I.contains(ph, k)) == w)
    if w:
        v = I.dict_get(ph, k)
        if p.ensure('data of a phase', isinstance(v, Chem), repr(v)):
            p.eq('data of the phase named', v.name, k)


@spec.obligation('PropertyPackage: the default package is its own')
def _(p):
    p.hook(lambda I, a, k: Chem(a[0]), 'thermo.chemical.Chemical')
    case(p)
    a, b = p.call(p.get(PM, 'PropertyPackage')), p.call(p.get(PM, 'PropertyPackage'))
    p.returns('created', a)
    p.returns('created', b)
    a, b = a[1], b[1]
    for o in (a, b):
        list_is(p, 'phase names', p.attr(o, 'phase_names'), PList(['water']))
    disjoint(p, 'separate packages share nothing', [p.attr(a, 'phase_names'), p.attr(a, 'phases')], [p.attr(b, 'phase_names'), p.attr(b, 'phases')])


@spec.obligation('PropertyPackage.__add__: every phase of both once, existing phases first')
def _(p):
    I = p.I
    a, b = package(p, 'a'), package(p, 'b')
    case(p)
    r = p.op('Add', a.obj, b.obj)
    p.returns('the addition is accepted', r)
    p.ensure('the package added to is returned', r[1] is a.obj, repr(r[1]))
    same(p, 'the added package', b)
    names, phases = p.attr(a.obj, 'phase_names'), p.attr(a.obj, 'phases')
    p.ensure('lists are not shared', names is not p.attr(b.obj, 'phase_names') and phases is not p.attr(b.obj, 'phases'))
    k = p.string('key')
    ina, inb = (I.truth_f(I.contains(x, k)) for x in (a.phases0, b.phases0))
    p.ensure('a phase of either is a phase of the result, and nothing else', I.truth_f(I.contains(phases, k)) == (ina or inb))
    if ina or inb:
        if I.truth_f(I.contains(phases, k)):
            p.ensure('with its own data', I.dict_get(phases, k) is I.dict_get(a.phases0 if ina else b.phases0, k), '%r %r %r %r' % (ina, inb, I.dict_get(phases, k), I.dict_get(a.phases0 if ina else b.phases0, k)))
    # names: those of a, followed by those of b that a has not, in the order of b
    segs = [s for s in seqs.segs_of(seqs.norm(seqs.segs_of(names.items))) if s != []]
    if not p.maybe('names of both', isinstance(names, PList) and len(segs) == 2 and not any(isinstance(s, list) for s in segs), repr(segs)):
        return
    list_is(p, 'existing phases first', PList(seqs.GSeq(segs[:1])), a.names0)
    s = segs[1]
    p.maybe('then those added', s.dom.key == seqs.KeyDom(b.phases0).key and s.ordered, 'order')
    e = seqs.elem(I, s.dom)
    got = s.run(I, e)
    if I.truth_f(I.contains(a.phases0, e)):
        p.ensure('a phase of both is named once', got == [], repr(got))
    else:
        if p.ensure('a new phase is named once', len(got) == 1, repr(got)):
            p.eq('a new phase is named', got[0], e)


@spec.obligation('PropertyPackage.__add__: a package added to itself')
def _(p):
    a = package(p, 'a')
    case(p)
    r = p.op('Add', a.obj, a.obj)
    p.returns('the addition is accepted', r)
    p.ensure('the package is returned', r[1] is a.obj)
    same(p, 'unchanged', a)


@spec.obligation('PropertyPackage.__add__: anything else is refused')
def _(p):
    a = package(p, 'a')
    o = p.pick((None, 'text', 'number', 'list', 'mapping', 'other object'), 'what')
    v = None if o is None else p.string('s') if o == 'text' else p.number('x') if o == 'number' else PList(['water']) if o == 'list' else \
        p.pydict({'water': 1}) if o == 'mapping' else Obj(p.get(S + 'model', 'Model'))
    case(p)
    r = p.op('Add', a.obj, v)
    p.raises('refused', r)
    same(p, 'unchanged', a)


@spec.obligation('PropertyPackage.__getitem__: the data of the phase, the wildcard the last phase')
def _(p):
    I = p.I
    a = package(p, 'a')
    how = p.pick(('phase', 'wildcard', 'unknown'), 'lookup')
    case(p)
    m = a.phases.layers[0][1]
    if how == 'wildcard':
        I.assume(m.size > 0)
        r = p.attempt(lambda: p.I.getitem(a.obj, '*'))
        p.returns('found', r)
        k = p.string('last')
        I.assume(z3.And(m.dom(str2z(k)), m.pos(str2z(k)) == m.size - 1))
        p.ensure('the last phase', isinstance(r[1], Chem), repr(r[1]))
        if isinstance(r[1], Chem):
            kd = seqs.KeyDom(a.phases)
            p.eq('the last phase', kd.pos(I, r[1].name), SV('int', m.size - 1))
            p.ensure('its data', r[1] is I.dict_get(a.phases, r[1].name))
    else:
        k = p.string('key')
        I.assume(str2z(k) != z3.StringVal('*'))
        ins = I.contains(a.phases, k)
        if I.truth_f(ins) != (how == 'phase'):
            raise PathInfeasible()
        r = p.attempt(lambda: p.I.getitem(a.obj, k))
        if how == 'phase':
            p.returns('found', r)
            p.ensure('its data', r[1] is I.dict_get(a.phases, k))
        else:
            p.raises('refused', r)
    same(p, 'unchanged', a)


for _w in 'TP':
    @spec.obligation('PropertyPackage.set_%s' % _w)
    def _(p, w=_w):
        a = package(p, 'a')
        b = package(p, 'b')
        x = p.real('x')
        case(p)
        p.returns('accepted', p.method(a.obj, 'set_' + w, x))
        p.eq('the value given', p.attr(a.obj, w), x)
        setattr(a, w, x)
        same(p, 'the rest is unchanged', a)
        same(p, 'other packages are unchanged', b)


@spec.obligation('PropertyPackage.calculate: every phase at the conditions given', bounded='packages of up to 3 phases')
def _(p):
    I = p.I
    log = []
    n = p.choice(4, 'phases')
    a = package(p, 'a')
    names = [p.string('n%d' % i) for i in range(n)]
    p.distinct(*names)
    d = PDict()
    chems = [Chem(k, log) for k in names]
    for k, c in zip(names, chems):
        d.rset(k, c)
    I.setattr(a.obj, 'phases', d)
    I.setattr(a.obj, 'phase_names', PList(list(names)))
    T, P_ = p.real('T'), p.real('P')
    case(p)
    p.returns('calculated', p.method(a.obj, 'calculate', T=T, P=P_))
    p.ensure('every phase once', len(log) == n and all(any(c is x[0] for x in log) for c in chems), repr(log))
    for c, ar, k in log:
        got = list(ar) + [k[q] for q in ('T', 'P')[len(ar):] if q in k]
        if p.ensure('conditions', len(got) == 2, repr((ar, k))):
            p.eq('temperature', got[0], T)
            p.eq('pressure', got[1], P_)
