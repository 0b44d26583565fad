"""C19: optimization set-up uses the options, bounds and direction it was given."""
from .lib import *
from pyvc.values import _MISSING
from pyvc.extlib import NdArr, GArr
from .c18 import Opt, value, is_value, File, get as get_conf

spec = Spec('C19')
spec.assumptions = ['json.load returns the mapping written in the settings file',
                    'pygmo algorithms take the parameters their documentation lists; pygmo.problem asks the prepared problem for its bounds',
                    'both bounds of a problem have the same length']
DEFAULTS = {'number_of_individuals': 100, 'number_of_generations': 600, 'crossover_rate': 0.6, 'mutation_rate': 0.04, 'elitism': 1, 'crossover_type': 'exponential', 'mutation_type': 'gaussian',
            'selection_type': 'tournament', 'selection_param': 4, 'scale_factor': 0.5, 'variant_de': 10, 'ftol_de': 1e-08, 'xtol_de': 1e-08, 'omega_pso': 0.7298, 'eta1_pso': 2.05, 'eta2_pso': 2.05,
            'variant_pso': 5, 'max_v_pso': 0.5, 'neighborhood_type_pso': 2, 'neighborhood_param_pso': 4}
# parameters of the pygmo algorithms in order, with their defaults, and the setting each takes
ALGOS = {'ga': ('sga', (('gen', 1, 'number_of_generations'), ('cr', .9, 'crossover_rate'), ('eta_c', 1., 1.), ('m', .02, 'mutation_rate'), ('param_m', 1., 1.), ('param_s', 2, 'selection_param'),
                        ('crossover', 'exponential', 'crossover_type'), ('mutation', 'polynomial', 'mutation_type'), ('selection', 'tournament', 'selection_type'))),
         'sade': ('de1220', (('gen', 1, 'number_of_generations'), ('allowed_variants', None, None), ('variant_adptv', 1, 1), ('ftol', 1e-6, 'ftol_de'), ('xtol', 1e-6, 'xtol_de'))),
         'de': ('de', (('gen', 1, 'number_of_generations'), ('F', .8, 'scale_factor'), ('CR', .9, 'crossover_rate'), ('variant', 2, 'variant_de'), ('ftol', 1e-6, 'ftol_de'), ('xtol', 1e-6, 'xtol_de'))),
         'pso': ('pso', (('gen', 1, 'number_of_generations'), ('omega', .7298, 'omega_pso'), ('eta1', 2.05, 'eta1_pso'), ('eta2', 2.05, 'eta2_pso'), ('max_vel', .5, 'max_v_pso'), ('variant', 5, 'variant_pso'),
                         ('neighb_type', 2, 'neighborhood_type_pso'), ('neighb_param', 4, 'neighborhood_param_pso')))}


class Algo(Host):
    """a pygmo algorithm"""
    hname = 'algorithm'

    def __init__(self, log, kind=None, args=None):
        self.log, self.kind, self.args = log, kind, args

    def h_getattr(self, I, name):
        if name in ('get_name', 'get_extra_info'):
            return Native(name, lambda I, a, k: 'algorithm')
        if name == 'set_verbosity':
            return Native(name, lambda I, a, k: None)
        if name == 'evolve':
            return Native(name, lambda I, a, k: (seqs._jappend(self.log, ('evolve', a)), a[0])[1])
        if name == 'extract':
            return Native(name, lambda I, a, k: self)
        if name == 'get_log':
            return Native(name, lambda I, a, k: PList([]))
        raise Unsupported('algorithm.' + name)


class Pop(Host):
    hname = 'population'

    def __init__(self, x, f):
        self.x, self.f = x, f

    def h_getattr(self, I, name):
        if name in ('champion_x', 'champion_f'):
            return self.x if name.endswith('x') else self.f
        raise Unsupported('population.' + name)


def pygmo(p):
    """assumed contracts of pygmo; returns the record of calls"""
    log = []
    for kind, (f, params) in ALGOS.items():
        def mk(I, a, k, f=f, params=params):
            d = {n: v for n, v, _ in params}
            names = [n for n, _, _ in params]
            if len(a) > len(names):
                raise Unsupported('arguments of pygmo.%s' % f)
            for n, v in list(zip(names, a)) + list(k.items()):
                if n in ('seed', 'memory'):
                    continue
                if n not in d:
                    I.throw('TypeError', 'unknown parameter ' + n)
                d[n] = v
            seqs._jappend(log, (f, d))
            return Algo(log, f, d)
        p.hook(mk, 'pygmo.' + f)
    p.hook(lambda I, a, k: a[0], 'pygmo.algorithm')
    return log


def study(p, **kw):
    I = p.I
    n = Node()
    n.sim = I.call(p.get(S + 'simulation', 'Simulation'), [p.string('sim')], {})
    n.conf = p.pydict({'domain': Opt()})
    I.setattr(n.sim, 'configurations', kw.pop('sim_conf', n.conf))
    n.op = kw.pop('op', None) or I.call(p.get(S + 'optimization', 'OptimizationProblem'), [1], {})
    n.pars = kw.pop('pars', PList(['p']))
    n.r = p.call(p.get(S + 'optimization', 'Optimization'), n.sim, n.op, n.pars, **kw)
    n.o = n.r[1]
    return n


def built(p, n, log, opt, want):
    """the algorithm of the study is the one asked for with its settings"""
    f, params = ALGOS[opt]
    m = p.attr(n.o, 'optimization_mechanism')
    if not p.ensure('an algorithm of the kind asked for is built', isinstance(m, Algo) and m.kind == f, repr(m)):
        return
    for name, _, s in params:
        v = want(s) if isinstance(s, str) else s
        is_value(p, 'parameter %s of %s' % (name, opt), m.args[name], v)
    p.eq('the optimizer is the one asked for', p.attr(n.o, 'optimizer'), opt)


for _how in ('dictionary', 'file'):
    for _o in ALGOS:
        def _(p, how=_how, o=_o):
            I = p.I
            log = pygmo(p)
            one = p.pick(sorted(DEFAULTS), 'setting')
            v = value(p, p.pick(['none', 'text', 'number', 'switch', 'object'], 'kind'), one)
            rest = p.flag('the others are given')
            given = {k: Opt() for k in DEFAULTS} if rest else {}
            given[one] = v
            d = p.pydict(given)
            old = copy_of(d)
            p.case(lambda c: dict(kind='conf', how='dict' if how == 'dictionary' else 'file', optimizer=o, rate=.9, seed=1))
            if how == 'file':
                p.hook(lambda I, a, k: d, 'json.load')
                p.hook(lambda I, a, k: File(), 'builtins.open')
            n = study(p, optimizer=o, optimization_configuration=d if how == 'dictionary' else p.string('path'))
            p.returns('the study is made', n.r)
            c = p.attr(n.o, 'optimization_configuration')
            p.ensure('exactly the settings are there', isinstance(c, PDict) and c.layers is None and sorted(c.keys()) == sorted(DEFAULTS), repr(c))
            p.ensure('the settings of the study are its own', how == 'file' or c is not d)

            def values():
                for k in DEFAULTS:
                    is_value(p, 'setting %s%s' % (k, ' given' if k in given else ' not given'), get_conf(p, c, k), given.get(k, DEFAULTS[k]))
                built(p, n, log, o, lambda s: given.get(s, DEFAULTS[s]))
            p.one_of(values, lambda: how == 'dictionary' and p.ensure('the dictionary is unchanged', same_shallow(shallow(d), shallow(old))))
        spec.obligation('each setting of %s given by %s, with any value' % (_o, _how))(_)


for _how in ('dictionary', 'file'):
    def _(p, how=_how):
        I = p.I
        log = pygmo(p)
        o = 'sade'
        dd = gmap(p, 'given', lambda I, k: Opt())
        old = copy_of(dd)
        p.case(lambda c: dict(kind='conf', how='dict' if how == 'dictionary' else 'file', optimizer=o, rate=.5, seed=2))
        if how == 'file':
            p.hook(lambda I, a, k: dd, 'json.load')
            p.hook(lambda I, a, k: File(), 'builtins.open')
        n = study(p, optimizer=o, optimization_configuration=dd if how == 'dictionary' else p.string('path'))
        p.returns('the study is made', n.r)
        c = p.attr(n.o, 'optimization_configuration')
        k = p.pick(sorted(DEFAULTS), 'setting')
        given = I.truth_f(I.contains(old, k))
        is_value(p, 'a setting that is %sgiven' % ('' if given else 'not '), get_conf(p, c, k), I.dict_get(old, k) if given else DEFAULTS[k])
        f, params = ALGOS[o]
        m = p.attr(n.o, 'optimization_mechanism')
        if p.ensure('an algorithm of the kind asked for is built', isinstance(m, Algo) and m.kind == f, repr(m)):
            for name, _, s in params:
                if s == k:
                    is_value(p, 'parameter of the algorithm', m.args[name], I.dict_get(old, k) if given else DEFAULTS[k])
    spec.obligation('any selection of settings by %s' % _how)(_)


@spec.obligation('default settings, shared with no other study')
def _(p):
    I = p.I
    log = pygmo(p)
    o = p.pick(sorted(ALGOS), 'optimizer')
    how = p.pick(['none', 'empty', 'left out'])
    kw = {} if how == 'left out' else {'optimization_configuration': None if how == 'none' else PDict()}
    p.case(lambda c: dict(kind='conf', how='empty' if how == 'empty' else 'none', optimizer=o, n=3, seed=1))
    n = study(p, optimizer=o, **kw)
    m = study(p, optimizer=o, **({} if how == 'left out' else {'optimization_configuration': None if how == 'none' else PDict()}))
    p.returns('the study is made', n.r)
    p.returns('the study is made', m.r)
    c, d = p.attr(n.o, 'optimization_configuration'), p.attr(m.o, 'optimization_configuration')
    p.ensure('studies share no settings', c is not d)
    for k in DEFAULTS:
        is_value(p, 'default setting %s' % k, get_conf(p, c, k), DEFAULTS[k])
    built(p, n, log, o, lambda s: DEFAULTS[s])


@spec.obligation('the simulation configuration, constraints and direction supplied are kept')
def _(p):
    I = p.I
    pygmo(p)
    how = p.pick(['mapping', 'file', 'simulation', 'nothing', 'wrong'])
    con = p.pick([None, PList([p.real('lo'), p.real('hi')]), gmap(p, 'con', lambda I, k: Opt()), Opt()], 'constraints')
    mx = p.flag('maximization')
    d = gmap(p, 'conf', lambda I, k: Opt())
    kw = {}
    if how == 'mapping':
        kw['simulation_configuration'] = d
    elif how == 'file':
        p.hook(lambda I, a, k: d, 'json.load')
        p.hook(lambda I, a, k: File(), 'builtins.open')
        kw['simulation_configuration'] = p.string('path')
    elif how == 'wrong':
        kw['simulation_configuration'] = p.pick([5, PList([]), Opt()])
    own = p.flag('the simulation is configured')
    if how == 'nothing':
        own = False
    if how == 'simulation':
        own = True
    if not own:
        kw['sim_conf'] = None
    if con is not None:
        kw['constraints'] = con
    old = copy_of(con) if isinstance(con, (PList, PDict)) else con
    p.case(lambda c: dict(kind='supplied', how={'mapping': 'dict', 'simulation': 'none', 'nothing': 'none'}.get(how, how), sim=int(own), constraints=None if con is None else [-1., 1.], max=mx, seed=1))
    n = study(p, is_maximization=mx, **kw)
    if how in ('nothing', 'wrong'):
        p.raises('a study without simulation configuration is refused', n.r)
        return
    p.returns('the study is made', n.r)
    p.same('the simulation configuration supplied', p.attr(n.o, 'simulation_configuration'), n.conf if how == 'simulation' else d)
    p.same('the constraints supplied', p.attr(n.o, 'constraints'), con)
    p.same('the direction supplied', p.attr(n.o, 'is_maximization'), mx)
    p.same('the problem supplied', p.attr(n.o, 'optimization_problem'), n.op)
    p.same('the simulation supplied', p.attr(n.o, 'simulation'), n.sim)
    p.same('the parameters supplied', p.attr(n.o, 'optimization_parameters'), n.pars)
    if isinstance(con, PDict):
        dict_after(p, 'the constraints are unchanged', con, old)
    if isinstance(con, PList):
        list_is(p, 'the constraints are unchanged', con, old)


# ------------------------------------------------------------------ optimization problem
@spec.obligation('an optimization problem keeps bounds and direction and prefers accordingly')
def _(p):
    I = p.I
    OP = p.get(S + 'optimization', 'OptimizationProblem')
    b = p.pick([None, Opt()], 'bounds')
    mx = p.pick([None, True, False], 'direction')
    kw = {} if mx is None else {'is_maximization': mx}
    how = p.pick(['constructed', 'set'])
    if how == 'constructed' and b is not None:
        kw['bounds'] = b
    p.case(lambda c: dict(kind='problem', dim=1, form='pair' if b is not None else None, how='ctor' if how == 'constructed' else 'set', max=mx, seed=1))
    other = I.call(OP, [2], {'bounds': Opt(), 'is_maximization': p.flag('other')})
    snap = snapshot(p, other)
    r = p.call(OP, p.int('dim'), **kw)
    p.returns('the problem is made', r)
    if how == 'set':
        p.returns('bounds are set', p.method(r[1], 'setBounds', b))
    p.same('the bounds are kept', p.attr(r[1], 'bounds'), b)
    p.same('the direction is kept', p.attr(r[1], 'is_maximization'), mx or False)
    g = p.method(r[1], 'get_bounds')
    p.returns('bounds are reported before preparation', g)
    p.same('the bounds reported are those kept', g[1], b)
    x, y = p.real('f1'), p.real('f2')
    q = p.flag('prepared')
    if q:
        p.returns('the problem is prepared', p.call(r[1]))
    f = p.method(r[1], 'DeclareFitnessComparison', PList([x]), PList([y]))
    p.returns('fitness is compared', f)
    t = I.truth_f(f[1])
    p.ensure('the larger fitness is preferred exactly when maximizing', (real(x) > real(y) if mx else real(x) < real(y)) == z3.BoolVal(t))
    unchanged(p, 'another problem is unchanged', snap)


@spec.obligation('a prepared problem reports its bounds, in any number of dimensions')
def _(p):
    I = p.I
    form = p.pick(['pair', 'lists', 'tuple of lists', 'arrays'])
    if form == 'pair':
        lo, hi = p.real('lo'), p.real('hi')
        b = PList([lo, hi])
    else:
        n = z3.Int(V.fresh('dim'))
        I.assume(n >= 1)
        ls = []
        for t in ('lo', 'hi'):
            f = z3.Function(V.fresh(t), z3.IntSort(), z3.RealSort())
            ls.append(seqs.GSeq([seqs.Seg(seqs.IndexDom(n, t), lambda I, i, f=f: SV('float', f(intz(i))))]))
        lo, hi = ls
        b = {'lists': lambda: PList([PList(lo), PList(hi)]), 'tuple of lists': lambda: (PList(lo), PList(hi)), 'arrays': lambda: (GArr(lo), GArr(hi))}[form]()
    p.case(lambda c: dict(kind='problem', dim=1 if form == 'pair' else 3, form={'tuple of lists': 'lists'}.get(form, form), how='ctor', max=None, seed=2))
    how = p.flag('constructed')
    r = p.call(p.get(S + 'optimization', 'OptimizationProblem'), 1, **({'bounds': b} if how else {}))
    p.returns('the problem is made', r)
    if not how:
        p.returns('bounds are set', p.method(r[1], 'setBounds', b))
    p.returns('the problem is prepared', p.call(r[1]))
    g = p.method(r[1], 'get_bounds')
    p.returns('bounds are reported', g)
    if not p.ensure('two bounds are reported', isinstance(g[1], (tuple, PList)) and len(g[1] if isinstance(g[1], tuple) else g[1].items) == 2, repr(g[1])):
        return
    for t, x, w in zip(('lower', 'upper'), g[1] if isinstance(g[1], tuple) else g[1].items, (lo, hi)):
        bound_is(p, 'the %s bound' % t, x, w)


def bound_is(p, name, x, w):
    if isinstance(x, (PList, tuple)):
        x = PList(list(x)) if isinstance(x, tuple) else x
    elif isinstance(x, NdArr):
        x = PList(list(x.items))
    elif isinstance(x, GArr):
        x = PList(x.g)
    list_is(p, name, x, PList([w]) if is_num(w) else PList(w))


# ------------------------------------------------------------------ running
def parameters(p):
    """any number (at least one) of optimized parameters, each a name or an object"""
    I = p.I
    nm = z3.Function(V.fresh('pname'), z3.IntSort(), z3.StringSort())
    isname = z3.Function(V.fresh('pis'), z3.IntSort(), z3.BoolSort())

    def mk(I, i):
        s = SStr((nm(intz(i)),))
        if I.branch(isname(intz(i))):
            return s
        return obj_stub(p, C + 'parameter', 'Parameter', s)
    l = glist(p, 'pars', mk)
    I.assume(l.items.segs[0].dom.n >= 1)
    seqs.note_elem(I, l.items.segs[0].dom, 0)
    return l, (lambda i: SStr((nm(intz(i)),)))


def running(p, con, own, ready, l):
    I = p.I
    log = pygmo(p)
    n = study(p, pars=l, constraints=con, op=I.call(p.get(S + 'optimization', 'OptimizationProblem'), [p.int('dim')], {'bounds': own}), optimizer=p.pick(sorted(ALGOS), 'optimizer'))
    p.returns('the study is made', n.r)
    if ready:
        p.returns('the problem is prepared', p.call(n.op))
    seen = []
    pop = n.pop = Pop(Opt(), Opt())

    def prob(I, a, k):
        op = a[0]
        seqs._jappend(seen, ('problem', op, I.call(I.getattr(op, 'get_bounds'), [], {}), I.getattr(op, 'simulation_instance'), I.getattr(op, 'simulation_configuration')))
        return a[0]
    p.hook(prob, 'pygmo.problem')
    p.hook(lambda I, a, k: (seqs._jappend(seen, ('population', a, k)), pop)[1], 'pygmo.population')
    p.hook(lambda I, a, k: p.string('t'), 'time.strftime', 'time.gmtime')
    n.r = p.method(n.o, 'runOptimization', optimization_log=False, print_output=False)
    n.log, n.seen = log, seen
    return n


def ran(p, n, con):
    p.returns('the study runs', n.r)
    pr = [s for s in n.seen if s[0] == 'problem']
    po = [s for s in n.seen if s[0] == 'population']
    ev = [s for s in n.log if s[0] == 'evolve']
    p.ensure('one population of the problem evolves', len(pr) == 1 and len(po) == 1 and len(ev) == 1 and pr[0][1] is n.op and ev[0][1][0] is n.pop, repr(n.seen))
    p.same('the problem sees the simulation', pr[0][3], n.sim)
    p.same('the problem sees the simulation configuration', pr[0][4], n.conf)
    p.eq('the population has the size configured', po[0][2].get('size', po[0][1][1] if len(po[0][1]) > 1 else None), 100)
    r = p.method(n.o, 'getResults')
    p.returns('results are given', r)
    p.ensure('the results are the champion', r[1][0] is n.pop.x and r[1][1] is n.pop.f, repr(r[1]))
    p.same('the constraints are kept', p.attr(n.o, 'constraints'), con)
    return pr[0][2]


@spec.obligation('a study of any number of parameters with named constraints')
def _(p):
    I = p.I
    l, name = parameters(p)
    lo, hi = [z3.Function(V.fresh(t), z3.StringSort(), z3.RealSort()) for t in ('lo', 'hi')]
    con = gmap(p, 'con', lambda I, k: (SV('float', lo(V.str2z(k))), SV('float', hi(V.str2z(k)))))
    old = copy_of(con)
    dom = l.items.segs[0].dom
    miss = seqs.exists(I, seqs.Seg(dom, lambda I, i: i), lambda i: not I.branch(seqs.layered_dom(I, con, name(i))))
    ready = p.flag('prepared')
    own = p.pick([None, PList([p.real('a'), p.real('b')])], 'own bounds')
    p.case(lambda c: dict(kind='run', constraints='named', own='other' if own is not None else 0, mix=p.I.choose(1, 'x') == 0 and 'sq', dim=2, ready=int(ready), seed=1, **({'missing': 1} if miss else {})))
    n = running(p, con, own, ready, l)
    if miss or not ready:
        p.raises('a study without a constraint for each parameter, or unprepared, is refused', n.r)
        p.ensure('nothing is optimized', not n.seen, repr(n.seen))
        return
    b = ran(p, n, con)

    def bounds():
        for t, x, f in zip(('lower', 'upper'), b if isinstance(b, tuple) else b.items, (lo, hi)):
            bound_is(p, 'the %s bounds are those of the parameters in order' % t, x, seqs.GSeq([seqs.Seg(dom, lambda I, i, f=f: SV('float', f(V.str2z(name(i)))))]))
    p.one_of(bounds, lambda: dict_after(p, 'the constraints are unchanged', con, old))


@spec.obligation('a study with plain bounds, with the bounds of its problem, or with none')
def _(p):
    I = p.I
    l, name = parameters(p)
    con = p.pick([None, PList([p.real('lo'), p.real('hi')])], 'constraints')
    own = p.pick([None, PList([p.real('a'), p.real('b')])], 'own bounds')
    ready = p.flag('prepared')
    p.case(lambda c: dict(kind='run', constraints='pair' if con is not None else None, own=int(own is not None) if con is None else 'other', mix='s', dim=1, ready=int(ready), seed=1))
    n = running(p, con, own, ready, l)
    if con is None and own is None or not ready:
        p.raises('a study without any bounds, or unprepared, is refused', n.r)
        p.ensure('nothing is optimized', not n.seen, repr(n.seen))
        return
    b = ran(p, n, con)
    w = con if con is not None else own
    for t, x, v in zip(('lower', 'upper'), b if isinstance(b, tuple) else b.items, w.items):
        bound_is(p, 'the %s bound' % t, x, v)


@spec.obligation('a study that did not run has no results')
def _(p):
    pygmo(p)
    n = study(p)
    p.case(lambda c: dict(kind='run', constraints='lists', own=0, mix='s', dim=1, seed=3))
    p.raises('no results before running', p.method(n.o, 'getResults'))
