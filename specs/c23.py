"""C23: independently created objects share no state.

For every class and every operation: B is created, A is created independently (the names may coincide) and the operation is applied
to A; then B is unchanged, no mutable object is reachable from both, and creating once more with the arguments of B gives
what B was.  Nothing outside A (defaults of parameters, class attributes, module variables) is written, which makes the argument
inductive over histories; if something there is written, the obligation is undecided."""
from .lib import *
from pyvc.values import _MISSING, Cls, Fn
from pyvc import builtins_model as B
from .c19 import Algo, pygmo

spec = Spec('C23')
spec.assumptions = ['the units defined in template_units are values shared by everybody; nothing changes a unit (checked: no operation here, C01)',
                    'thermo.chemical.Chemical returns a new object for each call',
                    'objects handed over by the caller (a problem, a package, a list) belong to whom they are handed to']


class Data(Host):
    """property data of a phase"""
    hname = 'property data'

    def __init__(self, name):
        self.name = name

    def h_getattr(self, I, n):
        if n == 'MW':
            return 18.
        if n == 'calculate':
            return Native('calculate', lambda I, a, k: None)
        raise Unsupported('attribute %s of property data' % n)


def world(p):
    """the mutable objects that exist without having been created by a user: defaults of parameters, class attributes, module variables"""
    seen, out = set(), {}
    work = []
    for m in list(p.I.modules.values()):
        work += [v for k, v in m.glb.v.items() if not k.startswith('__')]
    while work:
        v = work.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, Fn):
            work += list(v.defaults) + [x for x in v.kwdefaults if x is not None] + list(v.attrs.values())
            e = v.env
            while e is not None and e is not v.glb:
                work += list(getattr(e, 'v', {}).values())
                e = getattr(e, 'parent', None)
        elif isinstance(v, Cls):
            work += list(v.ns.values())
        elif isinstance(v, BM):
            work += [v.fn, v.self_]
        elif isinstance(v, (Obj, PList, PDict, PSet)):
            r = reach(p, [v])
            out.update(r)
            seen.update(r)
            for o in r.values():
                if isinstance(o, Obj):
                    work.append(o.cls)
    return out


def units_of_everybody(p):
    return [v for v in p.I.import_module(C + 'template_units').glb.v.values() if isinstance(v, Obj) and v.cls.name == 'Unit']


def iso(p, name, a, b, given):
    """b is a copy of what a is, structure by structure"""
    m = {}
    giv = {id(x) for x in given}
    bad = []

    def go(x, y, path):
        if len(bad) > 2:
            return
        if x is y and (id(x) in giv or not isinstance(x, (Obj, PList, PDict, PSet))):
            return
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            for i, (q, r) in enumerate(zip(x, y)):
                go(q, r, '%s[%d]' % (path, i))
            return
        if isinstance(x, BM) and isinstance(y, BM) and x.fn is y.fn:
            return go(x.self_, y.self_, path)
        if type(x) is type(y) and isinstance(x, (Obj, PList, PDict, PSet)):
            if id(x) in m:
                if m[id(x)] is not y:
                    bad.append(path + ': another object')
                return
            m[id(x)] = y
            if x is y and id(x) not in allowed:
                bad.append(path + ': the same object')
                return
            if isinstance(x, Obj):
                if x.cls is not y.cls:
                    bad.append(path + ': class')
                    return
                x, y = x.d, y.d
            if isinstance(x, PDict):
                if (x.layers is None) != (y.layers is None):
                    bad.append(path + ': mapping')
                elif x.layers is not None:
                    if not same_shallow(('dict', [], list(x.layers)), ('dict', [], list(y.layers))):
                        bad.append(path + ': mapping')
                else:
                    u, v = list(x.d.values()), list(y.d.values())
                    if len(u) != len(v):
                        bad.append(path + ': %r instead of %r' % ([k for k, _ in v], [k for k, _ in u]))
                        return
                    for (k, q), (l, r) in zip(u, v):
                        go(k, l, path + '.key')
                        go(q, r, '%s.%s' % (path, k))
                return
            u = x.items if isinstance(x.items, list) else x.items.segs
            v = y.items if isinstance(y.items, list) else y.items.segs
            if len(u) != len(v):
                bad.append(path + ': length')
                return
            for q, r in zip(u, v):
                go(q, r, path + '[]')
            return
        if isinstance(x, Data) and isinstance(y, Data):
            return go(x.name, y.name, path + '.name')
        if isinstance(x, Algo) and isinstance(y, Algo):
            return go((x.kind,) + tuple(x.args.items()), (y.kind,) + tuple(y.args.items()), path)
        if isinstance(x, Host) and type(x) is type(y) and repr(x).startswith('<external') and repr(x) == repr(y):
            return
        if not same_val(x, y):
            if scalar(x) and scalar(y):
                p.eq(name + path, y, x)
            else:
                bad.append('%s: %r instead of %r' % (path, y, x))
    allowed = reach(p, units_of_everybody(p))
    go(a, b, '')
    p.ensure(name, not bad, '; '.join(bad))


def scalar(x):
    return isinstance(x, (SV, SStr, float, int, str, bool))


class Kind:
    def __init__(self, name, args, make, ops, concrete):
        self.name, self.args, self.make, self.ops, self.concrete = name, args, make, ops, concrete


def check(p, kind, op):
    p.hook(lambda I, a, k: Data(a[0]), 'thermo.chemical.Chemical')
    p.case(lambda c: dict(kind='one kind', kinds=[kind.concrete], steps=30, keep=9, seed=7))
    w0 = world(p)
    sw = [(o, shallow(o)) for o in w0.values()]
    # arguments of B; a third creation takes the same ones
    bargs = kind.args(p, 'b')
    given = units_of_everybody(p)
    for x in bargs[1]:
        given.append(x)
    b = kind.make(p, *bargs[0])
    p.returns('creation', b) if isinstance(b, tuple) and b and b[0] in ('ok', 'raise') else None
    b = b[1] if isinstance(b, tuple) else b
    sb = snapshot(p, b)
    aargs = kind.args(p, 'a')
    a = kind.make(p, *aargs[0])
    a = a[1] if isinstance(a, tuple) else a
    disjoint(p, 'created apart', [a], [b], given)
    unchanged(p, 'the other one is unchanged by a creation', sb)
    op(p, a)
    unchanged(p, 'the other one is unchanged', sb)
    disjoint(p, 'they stay apart', [a], [b], given)
    n = kind.make(p, *bargs[0])
    n = n[1] if isinstance(n, tuple) else n
    disjoint(p, 'a new one is apart', [n], [a, b], given)
    iso(p, 'a new one is what the first was', b, n, given)
    unchanged(p, 'the first one is unchanged', sb)
    w1 = world(p)
    if any(not same_shallow(s, shallow(o)) for o, s in sw) or set(w1) - set(w0):
        bad = [o for o, s in sw if not same_shallow(s, shallow(o))] or [w1[k] for k in set(w1) - set(w0)]
        raise Unsupported('state outside the objects was written: %r' % bad[:2])


def kind(name, args, make, concrete, **ops):
    k = Kind(name, args, make, ops, concrete)
    for o, f in [('creation', lambda p, a: None)] + sorted(ops.items()):
        @spec.obligation('%s: %s' % (name, o.replace('_', ' ')))
        def _(p, k=k, f=f):
            check(p, k, f)


def named(p, t):
    return ([p.string(t + '_name')], [])


def do(p, o, m, *a, **k):
    """the operation; whether it is accepted is the business of other properties"""
    return p.method(o, m, *a, **k)


def mk(mod, c, **fixed):
    return lambda p, *a: p.call(p.get(mod, c), *a, **{k: (v(p) if callable(v) else v) for k, v in fixed.items()})


def m(p):
    return p.get(C + 'template_units', 'm')


# ------------------------------------------------------------------ units and expressions
def uargs(p, t):
    u = [p.real(t + x) for x in ('m', 'kg', 's', 'A', 'K', 'mol', 'cd')]
    d = dimdict(p, u)
    return ([p.string(t + '_name'), d, p.string(t + '_text')], [])


kind('Unit', uargs, mk(C + 'unit', 'Unit'), 'unit',
     product=lambda p, a: p.I.setitem(p.attr(p.op('Mult', a, m(p))[1], 'dimension'), 'kg', 5.),
     quotient=lambda p, a: p.I.setitem(p.attr(p.op('Div', a, m(p))[1], 'dimension'), 'kg', 5.),
     power=lambda p, a: p.I.setitem(p.attr(p.op('Pow', a, 2)[1], 'dimension'), 'kg', 5.),
     sum=lambda p, a: p.op('Add', a, a),
     change_by_its_owner=lambda p, a: p.I.setitem(p.attr(a, 'dimension'), 'kg', p.real('v')))


def two(p, a):
    return p.I.getitem(a, 0), p.I.getitem(a, 1)


def records(p, e):
    for r in ('symbolic_map', 'variable_map'):
        p.I.setitem(p.attr(e, r), p.string('k'), 1)


kind('Expression without records', named, lambda p, n: p.call(p.get(C + 'expression_evaluation', 'EquationNode'), name=n), 'expression', records=records)


def leaf(cls, **kw):
    def make(p, n):
        v = p.I.call(p.get(C + cls.lower(), cls), [n, m(p)], kw)
        return PList([v, p.I.call(v, [], {})])
    return make


def use_leaf(p, a):
    v, e = two(p, a)
    for r in (p.op('Add', e, e), p.op('Mult', e, 2.), p.op('Div', e, e), p.op('Sub', e, e)):
        if r[0] == 'ok':
            records(p, r[1])
    e2 = p.I.call(v, [], {})
    records(p, e2)


def set_leaf(p, a):
    v, e = two(p, a)
    do(p, v, 'setValue', p.real('value'))
    records(p, p.I.call(v, [], {}))


for c in ('Variable', 'Parameter', 'Constant'):
    kind(c, named, leaf(c), 'expression', formulas=use_leaf, value=set_leaf)


# ------------------------------------------------------------------ equations and their block
def mkeq(p, n):
    v = p.I.call(p.get(C + 'variable', 'Variable'), [n, m(p)], {})
    e = p.I.call(p.get(C + 'equation', 'Equation'), [n, 'text', p.op('Sub', p.I.call(v, [], {}), 2.)[1]], {})
    return PList([v, e])


def resid(p, a):
    v, e = two(p, a)
    do(p, e, 'setResidual', p.op('Mult', p.I.call(v, [], {}), 3.)[1])
    do(p, e, '_sweepObjects')


kind('Equation', named, mkeq, 'block', objects=lambda p, a: do(p, two(p, a)[1], '_sweepObjects'), residual=resid)


def mkblock(p, n):
    l = mkeq(p, n)
    v, e = two(p, l)
    do(p, e, '_sweepObjects')
    d = PDict()
    d.rset(n, v)
    return PList([v, p.I.call(p.get(C + 'equation_block', 'EquationBlock'), [PList([e]), d, PDict()], {})])


kind('EquationBlock', named, mkblock, 'block', groups=lambda p, a: p.call(two(p, a)[1]), touched_by_its_owner=lambda p, a: p.I.setitem(p.attr(two(p, a)[1], 'variable_dict'), 'q', 1))


# ------------------------------------------------------------------ models
def mkmodel(p, n):
    return p.call(p.get(S + 'model', 'Model'), n, 'text')


def create_everything(p, a):
    v = do(p, a, 'createVariable', p.string('v'), m(p), is_exposed=True, type=('input', 'output')[p.choice(2)])
    q = do(p, a, 'createParameter', p.string('q'), m(p))
    do(p, a, 'createConstant', p.string('c'), m(p), value=p.real('cv'))
    if v[0] == 'ok' and q[0] == 'ok':
        do(p, a, 'createEquation', p.string('e'), 'text', p.op('Sub', p.I.call(v[1], [], {}), p.I.call(q[1], [], {}))[1], check_equation=p.flag('check'))


def inlets(p, a):
    s = p.I.call(p.get(S + 'model', 'Model'), [p.string('stream')], {})
    do(p, a, '_setInlets', PList([s]) if p.flag('list') else s, p.string('port'))
    if p.flag('twice'):
        do(p, a, '_setInlets', s, p.string('port'))


def outlets(p, a):
    s = p.I.call(p.get(S + 'model', 'Model'), [p.string('stream')], {})
    do(p, a, '_setOutlets', PList([s]))
    p.I.setitem(p.I.getitem(p.attr(a, 'ports'), 'outlets'), p.string('port'), s)


def incorporate(p, a):
    o = p.I.call(p.get(S + 'model', 'Model'), [p.string('source')], {})
    v = do(p, o, 'createVariable', 'sv', m(p), is_exposed=True, type='input')
    do(p, o, 'createParameter', 'sp', m(p))
    do(p, a, 'incorporateFromExternalModel', o)


MODEL_OPS = dict(objects=create_everything, inlets=inlets, outlets=outlets, incorporation=incorporate, preparation=lambda p, a: p.call(a), overview=lambda p, a: do(p, a, '_gatherObjectsInfo_'))
kind('Model', named, mkmodel, 'model', **MODEL_OPS)


def mkunitop(p, n):
    return p.call(p.get(S + 'unit_op', 'UnitOp'), model=p.I.call(p.get(S + 'model', 'Model'), [n], {}))


def uinlets(which, ports):
    def f(p, a):
        s = p.I.call(p.get(S + 'model', 'Model'), [p.string('stream')], {})
        do(p, a, which, PList([s]) if p.flag('list') else s, p.string('port'))
    return f


kind('UnitOp', named, mkunitop, 'unit_op', inlets=uinlets('_setInlets', 'inlets'), outlets=uinlets('_setOutlets', 'outlets'))


def mkpp(p, *names):
    return p.I.call(p.get(C + 'property_package', 'PropertyPackage'), [], dict(phase_names=PList(list(names))))


def stream(c, *phases):
    return lambda p, n: p.call(p.get(S + 'unit_op_library', c), n, property_package=mkpp(p, *phases))


def flows(p, a):
    do(p, p.attr(a, ('mdot', 'ndot')[p.choice(2)]), 'setValue', p.real('flow'))
    do(p, a, 'DeclareParameters')


def conditions(p, a):
    do(p, p.attr(a, 'T'), 'setValue', p.real('T'))
    p.call(a)


STREAM_OPS = dict(flows=flows, conditions=conditions, package=lambda p, a: p.op('Add', p.attr(a, 'property_package'), mkpp(p, 'benzene', 'water')))
for c, ph in (('HomogeneousMaterialStream', ('water',)), ('MaterialStream', ('water',)), ('MultiphasicMaterialStream', ('water', 'hexane'))):
    kind(c, named, stream(c, *ph), 'stream', inlets=inlets, **STREAM_OPS)


# ------------------------------------------------------------------ packages and domains
def ppargs(p, t):
    return ([p.string(t + '_phase')], [])


def package(p, n):
    return p.call(p.get(C + 'property_package', 'PropertyPackage'), phase_names=PList([n]))


def fractions(p, a):
    for f in ('ws', 'zs', 'phase_names'):
        v = p.attr(a, f)
        if isinstance(v, PList):
            p.method(v, 'append', .5)
    p.I.setitem(p.attr(a, 'eos'), 'x', 1)


PP_OPS = dict(sum=lambda p, a: p.op('Add', a, mkpp(p, p.string('added'))), conditions=lambda p, a: (do(p, a, 'set_T', p.real('T')), do(p, a, 'calculate', p.real('T'), p.real('P'))), touched_by_its_owner=fractions)
kind('PropertyPackage', ppargs, package, 'package', **PP_OPS)
kind('PropertyPackage by default', lambda p, t: ([], []), lambda p: p.call(p.get(C + 'property_package', 'PropertyPackage')), 'package', **PP_OPS)


def domain(p, n, l):
    v = p.I.call(p.get(C + 'variable', 'Variable'), [n, m(p)], {})
    return p.call(p.get(C + 'domain', 'Domain'), n, m(p), PList([v]) if l else v)


def distribute(p, a):
    v = p.I.call(p.get(C + 'variable', 'Variable'), [p.string('dep'), m(p)], {})
    do(p, v, 'distributeOnDomain', a)
    do(p, a, '_setDomain')


def bounds(p, a):
    for f in ('lower_bound', 'upper_bound'):
        p.I.setitem(p.attr(a, f), 'all', p.real('bound'))


for l in (False, True):
    kind('Domain over ' + ('a list of variables' if l else 'a variable'), named, lambda p, n, l=l: domain(p, n, l), 'domain', distribution=distribute, preparation=lambda p, a: do(p, a, '_setDomain'),
         touched_by_its_owner=bounds)


# ------------------------------------------------------------------ problems, simulations, studies
def with_equation(p, tag):
    n = p.I.call(p.get(S + 'model', 'Model'), [p.string(tag)], {})
    v = do(p, n, 'createVariable', 'x', m(p), is_exposed=True, type='output')[1]
    w = do(p, n, 'createVariable', 'y', m(p), is_exposed=True, type='input')[1]
    do(p, n, 'createEquation', 'e', 'text', p.op('Sub', p.I.call(v, [], {}), p.I.call(w, [], {}))[1])
    return n, v, w


def add_models(p, a):
    n = with_equation(p, 'm1')[0]
    do(p, a, 'addModels', PList([n]) if p.flag('list') else n)


def connect(p, a):
    (n, x, y), (o, u, v) = with_equation(p, 'm1'), with_equation(p, 'm2')
    if p.flag('expressions'):
        do(p, a, 'createConnection', n if p.flag('model') else '', o, p.I.call(x, [], {}), p.I.call(v, [], {}))
    else:
        do(p, a, 'createConnection', n, o, PList([x]), PList([v]))


def settings(p, a):
    do(p, a, 'setTimeVariableName', p.string('t'))
    d = PDict()
    d.rset(p.string('ic', False), p.real('icv'))
    do(p, a, 'setInitialConditions', d)


@spec.obligation('Problem: one mapping of initial conditions given to two problems')
def _(p):
    p.case(lambda c: dict(kind='conditions'))
    a, b = (p.I.call(p.get(S + 'problem', 'Problem'), [p.string(t)], {}) for t in 'ab')
    k, l, v, w = p.string('k', False), p.string('l', False), p.real('v'), p.real('w')
    if p.flag('earlier'):
        e = PDict()
        e.rset('z', p.real('z'))
        do(p, a, 'setInitialConditions', e)
    d = PDict()
    d.rset(k, v)
    do(p, a, 'setInitialConditions', d)
    do(p, b, 'setInitialConditions', d)
    s, t = snapshot(p, b), snapshot(p, d)
    e = PDict()
    e.rset(l, w)
    do(p, a, 'setInitialConditions', e)
    unchanged(p, 'the other problem is unchanged', s)
    unchanged(p, 'the mapping given is unchanged', t)
    disjoint(p, 'they stay apart', [a], [b], [])


def resolve(p, a):
    do(p, a, 'addModels', with_equation(p, 'm1')[0])
    do(p, a, 'resolve')


kind('Problem', named, mk(S + 'problem', 'Problem'), 'problem', models=add_models, connections=connect, settings=settings, resolution=resolve)


def simulation(p, n):
    return p.call(p.get(S + 'simulation', 'Simulation'), n, problem=p.I.call(p.get(S + 'problem', 'Problem'), [n], {}))


def configure(how):
    def f(p, a):
        d = dict(initial_guess=p.I.call(p.I.ext_dict, [], {}) if False else PDict(), args=PList([]), end_time=p.real('te'))
        if how == 'defaults':
            r = do(p, a, 'setConfigurations')
        elif how == 'options':
            r = do(p, a, 'setConfigurations', **d)
        else:
            g = PDict()
            for k, v in d.items():
                g.rset(k, v)
            r = do(p, a, 'setConfigurations', definition_dict=g)
        for k, v in p.attr(a, 'configurations').items():
            if isinstance(v, PList):
                p.method(v, 'append', 1)
            if isinstance(v, PDict):
                p.I.setitem(v, 'x', 1)
    return f


kind('Simulation', named, simulation, 'simulation', configuration_by_default=configure('defaults'), configuration_by_options=configure('options'), configuration_by_mapping=configure('mapping'))


def both_configured(p, n):
    r = simulation(p, n)
    do(p, r[1], 'setConfigurations')
    return r


kind('Configured simulation', named, both_configured, 'simulation', configuration=configure('defaults'), configuration_by_options=configure('options'))
kind('OptimizationProblem', named, lambda p, n: p.call(p.get(S + 'optimization', 'OptimizationProblem'), 2, n), 'opt_problem', preparation=lambda p, a: p.call(a),
     bounds=lambda p, a: do(p, a, 'setBounds', (PList([p.real('l')]), PList([p.real('u')]))))


def optimization(p, n):
    pygmo(p)
    conf = PDict()
    s = Obj(p.get(S + 'simulation', 'Simulation'))
    p.I.setattr(s, 'configurations', conf)
    return p.call(p.get(S + 'optimization', 'Optimization'), s, p.I.call(p.get(S + 'optimization', 'OptimizationProblem'), [2, n], {}), PList([n]))


def study_settings(p, a):
    p.I.setitem(p.attr(a, 'optimization_configuration'), 'number_of_individuals', 7)
    for f in ('additional_args', 'constraints_additional_args'):
        p.method(p.attr(a, f), 'append', 1)
    do(p, a, 'setConstraints', PDict())


kind('Optimization', named, optimization, 'optimization', touched_by_its_owner=study_settings)
kind('Analysis', lambda p, t: ([], []), mk(S + 'analysis', 'Analysis'), 'problem')
kind('Connection', named, lambda p, n: p.call(p.get(S + 'connection', 'Connection'), n, 'text'), 'problem')
