"""C13: a problem gathers every equation once and partitions them by type."""
from .lib import *
from pyvc.values import _MISSING
from pyvc import builtins_model as B

spec = Spec('C13')
spec.assumptions = ['an equation has exactly one of the types linear, nonlinear, differential (C06, C09)',
                    'quantity names are unique within a problem']
TYPES = ('linear', 'nonlinear', 'differential')


def equation(p, I, types=TYPES, two=None):
    """an arbitrary equation, residual or two-sided"""
    E, N = p.get(C + 'equation', 'Equation'), p.get(C + 'expression_evaluation', 'EquationNode')

    def node(tag):
        o = Obj(N)
        o.d.rset('symbolic_object', symx.gen(I, 'sym' + tag))
        return o
    e = Obj(E)
    e.d.rset('name', p.string('eq'))
    e.d.rset('type', p.pick(list(types), 'type'))
    e.d.rset('equation_expression', node('res'))
    if p.flag('two-sided') if two is None else two:
        e.d.rset('equation_form', 'elementary')
        e.d.rset('elementary_equation_expression', (node('lhs'), node('rhs')))
    else:
        e.d.rset('equation_form', 'residual')
        e.d.rset('elementary_equation_expression', None)
    return e


def over(p, name, got, src, f):
    """got lists f(x) for the elements x of the arbitrary list src, in order (f(x) is a list)"""
    I = p.I
    if not p.ensure(name + ' (a list)', isinstance(got, PList), repr(got)):
        return
    ss = [s for s in seqs.segs_of(seqs.norm(seqs.segs_of(got.items))) if s != []]
    ref = src.items.segs[0]
    if not p.maybe(name + ' (shape)', len(ss) == 1 and not isinstance(ss[0], list) and ss[0].dom.key == ref.dom.key and ss[0].ordered, repr(ss)):
        return
    e = seqs.elem(I, ref.dom)
    x = ref.run(I, e)[0]
    a, b = ss[0].run(I, e), f(x)
    p.ensure(name, len(a) == len(b) and all(u is v or same_val(u, v) for u, v in zip(a, b)), '%r instead of %r' % (a, b))


@spec.obligation('the equation system of any number of equations')
def _(p):
    I = p.I
    eqs = glist(p, 'eqs', lambda I, i: equation(p, I))
    src = copy_of(eqs)
    vd = gmap(p, 'vd', lambda I, k: obj_stub(p, C + 'variable', 'Variable', k))
    pd = gmap(p, 'pd', lambda I, k: obj_stub(p, C + 'parameter', 'Parameter', k))
    vd0, pd0 = copy_of(vd), copy_of(pd)
    p.case(lambda c: dict(kind='system'))
    r = p.call(p.get(C + 'equation_block', 'EquationBlock'), eqs, vd, pd)
    p.returns('the system is built', r)
    b = r[1]

    def groups():
        g = p.attr(b, '_equation_groups')
        return [lambda t=t: over(p, 'the %s group' % t, I.getitem(g, t), src, lambda x: [x] if I.truth_f(I.str_eq(p.attr(x, 'type'), t)) else []) for t in TYPES]
    r2 = p.call(b)
    p.returns('the system is prepared', r2)
    p.one_of(*groups(),
             lambda: over(p, 'the equations', p.attr(b, 'equations'), src, lambda x: [x]),
             lambda: over(p, 'the residuals', p.attr(b, '_equations_list'), src, lambda x: [p.attr(p.attr(x, 'equation_expression'), 'symbolic_object')]),
             lambda: list_is(p, 'the names of the unknowns', p.attr(b, '_var_list'), PList(seqs.DView(vd0, 'keys').generic(I))),
             lambda: list_is(p, 'the names of the parameters', p.attr(b, '_param_list'), PList(seqs.DView(pd0, 'keys').generic(I))),
             lambda: dict_after(p, 'the unknowns', p.attr(b, 'variable_dict'), vd0),
             lambda: dict_after(p, 'the parameters', p.attr(b, 'parameter_dict'), pd0),
             lambda: p.ensure('only these groups', sorted(I.conc_str(k) for k in p.attr(b, '_equation_groups').keys()) == sorted(TYPES)))


@spec.obligation('the groups before the system is prepared')
def _(p):
    I = p.I
    eqs = glist(p, 'eqs', lambda I, i: equation(p, I))
    src = copy_of(eqs)
    p.case(lambda c: dict(kind='system'))
    r = p.call(p.get(C + 'equation_block', 'EquationBlock'), eqs, PDict(), PDict())
    p.returns('the system is built', r)
    g = p.attr(r[1], '_equation_groups')
    p.one_of(*[lambda t=t: over(p, 'the %s group' % t, I.getitem(g, t), src, lambda x: [x] if I.truth_f(I.str_eq(p.attr(x, 'type'), t)) else []) for t in TYPES])


# ------------------------------------------------------------------ adding models
def problem(p):
    """a problem with an arbitrary history"""
    n = Node()
    n.obj = p.I.call(p.get(S + 'problem', 'Problem'), [p.string('prob')], {})
    n.models = gmap(p, 'models', lambda I, k: obj_stub(p, S + 'model', 'Model', k))
    n.vd = gmap(p, 'pvd', lambda I, k: obj_stub(p, C + 'variable', 'Variable', k))
    n.pd = gmap(p, 'ppd', lambda I, k: obj_stub(p, C + 'parameter', 'Parameter', k))
    for a, v in (('models', n.models), ('variable_dict', n.vd), ('parameter_dict', n.pd)):
        p.I.setattr(n.obj, a, v)
    return n


def merged(p, name, got, parts):
    """for an arbitrary key: the last of the dictionaries that has it decides"""
    I = p.I
    if not p.ensure(name + ' (a dictionary)', isinstance(got, PDict), repr(got)):
        return
    k = p.string('key')
    want = _MISSING
    for d in reversed(parts):
        if I.truth_f(I.contains(d, k)):
            want = I.dict_get(d, k)
            break
    g = I.truth_f(I.contains(got, k))
    if p.ensure(name + ': keys', g == (want is not _MISSING)) and g:
        p.ensure(name + ': objects', I.dict_get(got, k) is want, '%r instead of %r' % (I.dict_get(got, k), want))


for _n in (1, 2, 3):
    def _(p, _n=_n):
        I = p.I
        pr = problem(p)
        ms = [model(p, 'm%d' % i) for i in range(_n)]
        p.distinct(*[m.name for m in ms])
        arg = ms[0].obj if _n == 1 and not p.flag('aslist') else PList([m.obj for m in ms])
        m0, v0, p0 = copy_of(pr.models), copy_of(pr.vd), copy_of(pr.pd)
        befores = [Before(p, m.obj) for m in ms]
        p.case(lambda c: dict(kind='add', n=_n))
        r = p.method(pr.obj, 'addModels', arg)
        p.returns('models are added', r)
        p.one_of(lambda: merged(p, 'unknowns', p.attr(pr.obj, 'variable_dict'), [v0] + [m.regs['variables'] for m in ms]),
                 lambda: merged(p, 'parameters', p.attr(pr.obj, 'parameter_dict'), [p0] + [m.regs['parameters'] for m in ms]),
                 lambda: dict_after(p, 'models', p.attr(pr.obj, 'models'), m0, [(m.name, m.obj) for m in ms]),
                 *[t for b in befores for t in b.after(p, 'the models are unchanged')])
    spec.obligation('adding %d model%s to any problem' % (_n, 's' if _n > 1 else ''))(_)


# ------------------------------------------------------------------ gathering
def pool(p):
    v = [p.I.call(p.get(C + 'variable', 'Variable'), [p.string('v%d' % i), unit(p, 'uv')], {}) for i in range(2)]
    q = [p.I.call(p.get(C + 'parameter', 'Parameter'), [p.string('q0'), unit(p, 'uq')], {})]
    k = [p.I.call(p.get(C + 'constant', 'Constant'), [p.string('k0'), unit(p, 'uk')], {})]
    p.distinct(*[p.attr(o, 'name') for o in v + q + k])
    return v, q, k


SUBSETS = [(), ('v0',), ('v1',), ('q0',), ('k0',), ('v0', 'v1'), ('v1', 'v0'), ('v0', 'q0'), ('q0', 'k0'), ('k0', 'v1'), ('v1', 'q0')]


def gather(shape, whole=False):
    def ob(p):
        I = p.I
        v, q, k = pool(p)
        by = dict(v0=v[0], v1=v[1], q0=q[0], k0=k[0])
        pr = I.call(p.get(S + 'problem', 'Problem'), [p.string('prob')], {})
        ms, eqs, used = [], [], set()
        rev = p.flag('reversed registration')
        reg = list(reversed(v)) if rev else v
        for i, n in enumerate(shape):
            m = I.call(p.get(S + 'model', 'Model'), [p.string('m%d' % i)], {})
            ms.append(m)
            d = PDict()
            for j in range(n):
                e = equation(p, I, ('linear',), two=False)
                sub = SUBSETS[p.choice(len(SUBSETS), 'objects')]
                od = PDict()
                for s in sub:
                    od.rset(p.attr(by[s], 'name'), by[s])
                used |= set(sub)
                e.d.rset('objects_declared', od)
                d.rset(p.attr(e, 'name'), e)
                eqs.append(e)
            I.setattr(m, 'equations', d)
            if i == 0:
                for r, os in (('variables', reg), ('parameters', q), ('constants', k)):
                    rd = PDict()
                    for o in os:
                        rd.rset(p.attr(o, 'name'), o)
                    I.setattr(m, r, rd)
        p.distinct(*[p.attr(m, 'name') for m in ms])
        es = list(eqs)
        for n in shape:
            # names are unique within a model only
            p.distinct(*[p.attr(e, 'name') for e in es[:n]])
            es = es[n:]
        I.call(I.getattr(pr, 'addModels'), [PList(ms)], {})
        p.case(lambda c: dict(kind='gather', shape=list(shape), rev=rev, whole=whole))
        r = p.method(pr, 'resolve' if whole else '_buildEquationBlock')
        p.returns('the equations are gathered', r)
        p.ensure('every equation once, in order', same_items(p.attr(pr, '_equation_list'), eqs), repr(p.attr(pr, '_equation_list')))
        b = p.attr(pr, 'equation_block')
        p.ensure('the system has every equation once, in order', same_items(p.attr(b, 'equations'), eqs))
        for nm, a, os, keys in (('unknowns', 'variable_dict', reg, {'v0', 'v1'}), ('parameters', 'parameter_dict', q, {'q0'})):
            want = [o for o in os if any(by[s] is o for s in used & keys)]
            d = p.attr(b, a)
            p.ensure('%s are those of the models that occur, in order of registration' % nm,
                     isinstance(d, PDict) and d.layers is None and len(d.values()) == len(want) and all(x is y for x, y in zip(d.values(), want)), '%r %r' % (d, want))
            for kk, o in zip(d.keys(), want):
                p.eq('%s are known by name' % nm, kk, p.attr(o, 'name'))
            if whole:
                l = p.attr(b, '_var_list' if nm == 'unknowns' else '_param_list')
                p.ensure('names of %s' % nm, isinstance(l, PList) and len(l.items) == len(want))
                for kk, o in zip(l.items, want):
                    p.eq('names of %s' % nm, kk, p.attr(o, 'name'))
    return ob


def same_items(l, want):
    return isinstance(l, PList) and isinstance(l.items, list) and len(l.items) == len(want) and all(a is b for a, b in zip(l.items, want))


for _s in ((), (0,), (1,), (2,), (0, 1), (1, 1), (1, 0, 1)):
    spec.obligation('gathering from models with %s equations' % (list(_s),), bounded='up to 3 models and 2 equations in all, over two variables, one parameter and one constant')(gather(_s))
spec.obligation('resolving a problem', bounded='one model with two equations')(gather((2,), True))


@spec.obligation('resolving a problem uses the objects its models declare when they are prepared', bounded='one variable and one parameter')
def _(p):
    I = p.I
    v, q, k = pool(p)
    m = I.call(p.get(S + 'model', 'Model'), [p.string('m')], {})
    pr = I.call(p.get(S + 'problem', 'Problem'), [p.string('prob')], {})
    before = p.flag('objects exist before')
    if before:
        old = [obj_stub(p, C + 'variable', 'Variable', p.attr(v[0], 'name')), obj_stub(p, C + 'parameter', 'Parameter', p.attr(q[0], 'name'))]
        for r, o in zip(('variables', 'parameters'), old):
            d = PDict()
            d.rset(p.attr(o, 'name'), o)
            I.setattr(m, r, d)
    I.call(I.getattr(pr, 'addModels'), [m], {})
    e = equation(p, I, ('linear',), two=False)
    od = PDict()
    for o in (v[0], q[0]):
        od.rset(p.attr(o, 'name'), o)
    e.d.rset('objects_declared', od)

    def declare(I, a, k):
        for r, o in (('variables', v[0]), ('parameters', q[0])):
            I.setitem(I.getattr(m, r), p.attr(o, 'name'), o)

    def declare_eq(I, a, k):
        I.setitem(I.getattr(m, 'equations'), p.attr(e, 'name'), e)
    I.setattr(m, 'DeclareVariables', Native('DeclareVariables', declare))
    I.setattr(m, 'DeclareEquations', Native('DeclareEquations', declare_eq))
    p.case(lambda c: dict(kind='late', before=before))
    r = p.method(pr, 'resolve')
    p.returns('the problem is resolved', r)
    b = p.attr(pr, 'equation_block')
    for nm, a, o in (('unknowns', 'variable_dict', v[0]), ('parameters', 'parameter_dict', q[0])):
        d = p.attr(b, a)
        p.ensure('%s are those of the models' % nm, isinstance(d, PDict) and d.layers is None and len(d.values()) == 1 and d.values()[0] is o, repr(d))
    p.ensure('the equations are those of the models', same_items(p.attr(b, 'equations'), [e]))
