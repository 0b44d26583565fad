"""C21: material streams keep mass and molar flow consistent with user data."""
from .lib import *
from pyvc import builtins_model as B

spec = Spec('C21')
spec.assumptions = ['thermo.chemical.Chemical returns an object holding the data of the substance named; molar masses are positive']
L = S + 'unit_op_library'
STREAMS = ('HomogeneousMaterialStream', 'MaterialStream', 'MultiphasicMaterialStream')
Q = ('mdot', 'ndot', 'P', 'H', 'T')
DIM = {'mdot': (0, 1, -1, 0, 0, 0, 0), 'ndot': (0, 0, -1, 0, 0, 1, 0), 'P': (-1, 1, -2, 0, 0, 0, 0), 'H': (2, 1, -2, 0, 0, -1, 0), 'T': (0, 0, 0, 0, 1, 0, 0)}


class Data(Host):
    """property data of a phase"""
    hname = 'property data'

    def __init__(self, name, log, mw):
        self.name, self.log, self.mw = name, log, mw

    def h_getattr(self, I, n):
        if n == 'MW':
            return self.mw
        if n == 'calculate':
            return Native('calculate', lambda I, a, k: seqs._jappend(self.log, (self, a, k)))
        raise Unsupported('attribute %s of property data' % n)


def stream(p, kind, nph=None):
    I = p.I
    n = Node()
    n.log = []
    n.kind = kind
    n.data = {}

    def chem(I, a, k):
        mw = p.real('MW')
        p.assume(mw.t > 0)
        return Data(a[0], n.log, mw)
    p.hook(chem, 'thermo.chemical.Chemical')
    n.pp = None
    n.phases = []
    if kind.startswith('Multi') or p.flag('package'):
        n.phases = [['water'], ['water', 'hexane'], ['ethanol', 'water', 'hexane']][nph - 1] if kind.startswith('Multi') else \
            ([p.string('phase')] if p.flag('one phase') else [p.string('phase'), p.string('phase2')])
        for x in n.phases:
            if not isinstance(x, str):
                p.assume(z3.Not(I.eqf(x, '*')))
        if len(n.phases) == 2 and not isinstance(n.phases[0], str):
            p.assume(z3.Not(I.eqf(*n.phases)))
        n.pp = I.call(p.get(C + 'property_package', 'PropertyPackage'), [], dict(phase_names=PList(list(n.phases))))
        n.data = p.attr(n.pp, 'phases')
    r = p.call(p.get(L, kind), p.string('stream'), property_package=n.pp)
    p.returns('the stream is created', r)
    n.obj = r[1]
    n.q = {k: p.attr(n.obj, k) for k in Q}
    n.given = {}
    for k in Q:
        if p.flag('given ' + k):
            v = p.number('v' + k) if k in ('mdot', 'ndot') and nph is None else p.real('v' + k)
            n.given[k] = v
            s = p.method(n.q[k], 'setValue', v)
            p.returns('setting ' + k, s)
    n.regs = {r: copy_of(p.attr(n.obj, r)) for r in REGS}
    n.rest = {}
    for k, o in p.attr(n.obj, 'parameters').items():
        if not any(o is x for x in n.q.values()):
            if len(n.rest) % 2:
                p.method(o, 'setValue', p.real('other'))
            n.rest[k] = (o, shallow(o))
    return n


def check(p, n, times):
    I = p.I
    want = dict(n.given)
    if n.pp is not None:
        mw = I.dict_get(n.data, n.phases[-1]).mw
        if 'mdot' in n.given and 'ndot' not in n.given:
            want['ndot'] = I.binop('Div', n.given['mdot'], I.binop('Mult', mw, .001))
        if 'ndot' in n.given and 'mdot' not in n.given:
            want['mdot'] = I.binop('Mult', I.binop('Mult', n.given['ndot'], mw), .001)

    def flows():
        for k in Q:
            p.ensure('the same parameter: ' + k, p.attr(n.obj, k) is n.q[k])
            sp = p.attr(n.q[k], 'is_specified')
            p.ensure('specified: ' + k, sp is (k in want), '%r' % (sp,))
            if k in want:
                p.eq('value of ' + k, p.attr(n.q[k], 'value'), want[k])
            dims_are(p, 'unit of ' + k, p.attr(n.q[k], 'units'), list(DIM[k]))

    def rest():
        p.ensure('the other parameters are unchanged', all(same_shallow(s, shallow(o)) for o, s in n.rest.values()))
        for r in REGS:
            dict_after(p, 'registered ' + r, p.attr(n.obj, r), n.regs[r])

    def package():
        p.ensure('the package', p.attr(n.obj, 'property_package') is n.pp)
        if n.pp is None:
            return
        T, P = 'T' in n.given, 'P' in n.given
        if not (T or P):
            p.ensure('nothing is evaluated', not n.log, repr(n.log))
            return
        p.ensure('every phase is evaluated', len(n.log) == times * len(n.phases), repr(n.log))
        for i, (d, a, k) in enumerate(n.log):
            x = n.phases[i % len(n.phases)]
            p.ensure('phase in its turn', d is I.dict_get(n.data, x))
            p.ensure('arguments', len(a) + len(k) == 2, repr((a, k)))
            a = list(a) + [k[x] for x in ('T', 'P')[len(a):] if x in k]
            p.eq('temperature', a[0], n.given['T'] if T else 298.15)
            p.eq('pressure', a[1], n.given['P'] if P else 101325)
    p.one_of(flows, rest, package)


def prepared(kind, how, nph=None):
    @spec.obligation('%s%s: %s' % (kind, ', %d phases' % nph if nph else '', how), bounded='package of %d phases with given names' % nph if nph else None)
    def _(p):
        n = stream(p, kind, nph)
        p.case(lambda c: dict(kind='any', stream=kind, package=n.pp is not None, given={k: c.val(v) for k, v in n.given.items()}, seed=5))
        times = 2 if how.endswith('twice') else 1
        for i in range(times):
            r = p.call(n.obj) if how == 'called' else p.method(n.obj, 'DeclareParameters')
            p.returns('the stream is prepared', r)
        check(p, n, times)


for how in ('prepared', 'prepared twice', 'called'):
    for kind in STREAMS[:2]:
        prepared(kind, how)
    for nph in (1, 2, 3):
        prepared(STREAMS[2], how, nph)


@spec.obligation('streams are created with nothing specified')
def _(p):
    kind = p.pick(STREAMS, 'kind')
    n = Node()
    p.case(lambda c: dict(kind='any', stream=kind, given={}, package=True, seed=5))
    p.hook(lambda I, a, k: Data(a[0], [], 18.), 'thermo.chemical.Chemical')
    pp = p.I.call(p.get(C + 'property_package', 'PropertyPackage'), [], dict(phase_names=PList(['water', 'hexane']))) if kind.startswith('Multi') or p.flag('package') else None
    r = p.call(p.get(L, kind), p.string('stream'), property_package=pp)
    p.returns('the stream is created', r)
    want = list(Q) + ['%s_%s' % (a, b) for b in ('water', 'hexane') for a in 'zw'] * kind.startswith('Multi')
    for k in want:
        q = p.attr(r[1], k)
        p.ensure('nothing is specified', p.attr(q, 'is_specified') is False)
        dims_are(p, 'unit of ' + k, p.attr(q, 'units'), list(DIM.get(k, [0] * 7)))
        p.ensure('registered once', sum(o is q for o in p.attr(r[1], 'parameters').values()) == 1)
    p.eq('parameters', B.length(p.I, p.attr(r[1], 'parameters')), len(want))
