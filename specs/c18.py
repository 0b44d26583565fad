"""C18: simulation configuration, results and parameter lookup return what was set."""
from .lib import *
from pyvc.values import _MISSING
from pyvc import builtins_model as B
from .c14 import any_equations, has, WANT, TYPES, B_length

spec = Spec('C18')
spec.assumptions = ['json.load returns the mapping written in the configuration file',
                    'a container inside a container given as option is the caller\'s (options are copied one level deep)']
DEFAULTS = dict(initial_time=0., end_time=None, linear_solver='symbolicsys', nonlinear_solver='*', differential_solver='ODEINT', differential_algebraic_solver='IDA', problem_type=None,
                is_dynamic=False, compile_equations=True, domain=None, time_variable_name=None, initial_guess={}, initial_guess_solver=None, arg_names=[], args=[], verbosity_solver=0,
                number_of_time_steps=100, configuration_args={}, print_output=False, output_headers=None, variable_name_map={}, compilation_mechanism='numpy',
                number_parameters_to_optimize=0, times_for_solution=None)
KINDS = ('none', 'text', 'number', 'switch', 'list', 'mapping', 'object')


class Opt(Host):
    """an arbitrary object"""
    hname = 'object'

    def __repr__(self):
        return '<object>'


def value(p, kind, tag):
    if kind == 'none':
        return None
    if kind == 'text':
        return p.string(tag, False)
    if kind == 'number':
        return p.real(tag)
    if kind == 'switch':
        return p.flag(tag)
    if kind == 'list':
        return glist(p, tag, lambda I, i: SV('float', z3.Real(V.fresh('v'))))
    if kind == 'mapping':
        return gmap(p, tag, lambda I, k: SV('float', z3.Real(V.fresh('v'))))
    return Opt()


def sim(p, tvn=None):
    I = p.I
    pr = I.call(p.get(S + 'problem', 'Problem'), [p.string('prob')], {})
    if tvn is not None:
        I.setattr(pr, 'time_variable_name', tvn)
    s = I.call(p.get(S + 'simulation', 'Simulation'), [p.string('sim')], {'problem': pr})
    return s, pr


def default(k):
    v = DEFAULTS[k]
    return PList([]) if v == [] else PDict() if v == {} else v


def is_value(p, name, got, want):
    """the option has the value given; containers are the simulation's own"""
    if isinstance(want, PList):
        if p.ensure(name + ' (own)', got is not want):
            list_is(p, name, got, want)
    elif isinstance(want, PDict):
        if p.ensure(name + ' (own)', got is not want):
            dict_after(p, name, got, want)
    elif isinstance(want, Opt) or want is None or isinstance(want, bool):
        p.ensure(name, got is want, '%r instead of %r' % (got, want))
    else:
        p.eq(name, got, want)


def conf_of(p, s, r):
    p.returns('the configuration is accepted', r)
    c = p.attr(s, 'configurations')
    p.ensure('the configuration is a mapping', isinstance(c, PDict), repr(c))
    return c


def get(p, c, k):
    v = p.I.dict_get(c, k)
    if v is _MISSING:
        p.ensure('%s is configured' % k, False)
        raise EnsureStop()
    return v


def only_options(p, c):
    if c.layers is None:
        p.ensure('exactly the options are configured', sorted(c.keys()) == sorted(DEFAULTS), repr(sorted(c.keys())))


for _how in ('individually', 'by dictionary', 'by file'):
    def _(p, how=_how):
        """one option has any value of any kind, all the others are arbitrary objects or at their defaults"""
        I = p.I
        tvn = Opt()
        s, pr = sim(p, tvn)
        one = p.pick(sorted(DEFAULTS), 'option')
        kind = p.pick(KINDS if one != 'number_parameters_to_optimize' else ('none', 'number', 'object'), 'kind')
        v = value(p, kind, one)
        rest = p.flag('the others are given')
        given = {k: Opt() for k in DEFAULTS if k not in ('is_dynamic', 'number_parameters_to_optimize')} if rest else {}
        given[one] = v
        old = copy_of(v) if isinstance(v, (PList, PDict)) else v
        p.case(lambda c: dict(kind='conf', seed=1, how={'individually': 'kw', 'by dictionary': 'dict', 'by file': 'file'}[how], rate=.9))
        if how == 'individually':
            r = p.method(s, 'setConfigurations', **given)
        elif how == 'by dictionary':
            r = p.method(s, 'setConfigurations', definition_dict=p.pydict(given))
        else:
            p.hook(lambda I, a, k: p.pydict(given), 'json.load')
            p.hook(lambda I, a, k: File(), 'builtins.open')
            r = p.method(s, 'setConfigurations', configurations_file=p.string('path'))
        c = conf_of(p, s, r)
        want = {k: given.get(k, default(k)) for k in DEFAULTS}
        if want['is_dynamic'] is True and want['time_variable_name'] is None:
            want['time_variable_name'] = tvn
        if how == 'individually' or True:
            only_options(p, c)
        if isinstance(v, PList):
            list_is(p, 'the given list is unchanged', v, old)
        if isinstance(v, PDict):
            dict_after(p, 'the given mapping is unchanged', v, old)
        is_value(p, 'option %s given %s' % (one, how), get(p, c, one), want[one])
        for k in DEFAULTS:
            if k != one:
                is_value(p, 'option %s%s' % (k, ' given ' + how if k in given else ' not given'), get(p, c, k), want[k])
    spec.obligation('each option given %s, with any value' % _how)(_)


class File(Host):
    hname = 'file'

    def h_getattr(self, I, name):
        if name == '__enter__':
            return Native(name, lambda I, a, k: self)
        if name == '__exit__':
            return Native(name, lambda I, a, k: None)
        if name in ('close', 'flush'):
            return Native(name, lambda I, a, k: None)
        if name == 'read':
            return Native(name, lambda I, a, k: self)
        raise Unsupported('file.' + name)


def same_or_copy(p, name, got, want):
    p.ensure(name, got is want, '%r instead of %r' % (got, want))


for _how in ('dictionary', 'file'):
    def _(p, how=_how):
        I = p.I
        s, pr = sim(p, Opt())
        dd = gmap(p, 'given', lambda I, k: Opt())
        old = copy_of(dd)
        p.case(lambda c: dict(kind='conf', seed=2, how={'dictionary': 'dict', 'file': 'file'}[how], rate=.5))
        if how == 'dictionary':
            r = p.method(s, 'setConfigurations', definition_dict=dd)
        else:
            p.hook(lambda I, a, k: dd, 'json.load')
            p.hook(lambda I, a, k: File(), 'builtins.open')
            r = p.method(s, 'setConfigurations', configurations_file=p.string('path'))
        c = conf_of(p, s, r)
        if how == 'dictionary' and p.flag('the dictionary'):
            dict_after(p, 'the dictionary is unchanged', dd, old)
            return
        k = p.pick(sorted(DEFAULTS), 'option')
        inn = I.truth_f(I.contains(old, k))
        g = get(p, c, k)
        if inn:
            same_or_copy(p, 'an option that is given has the value given', g, I.dict_get(old, k))
        else:
            is_value(p, 'an option that is not given has its default', g, default(k))
    spec.obligation('any selection of options by %s' % _how)(_)


@spec.obligation('individual options stand beside a dictionary that does not give them')
def _(p):
    I = p.I
    s, pr = sim(p, Opt())
    a = p.pick(sorted(k for k in DEFAULTS if k not in ('is_dynamic', 'number_parameters_to_optimize')), 'option')
    given = {k: Opt() for k in DEFAULTS if k not in ('is_dynamic', 'number_parameters_to_optimize') and k != a}
    v = Opt()
    p.case(lambda c: dict(kind='conf', seed=3, how='both', rate=.6))
    how = p.flag('one individually, the others by dictionary')
    if how:
        r = p.method(s, 'setConfigurations', definition_dict=p.pydict(given), **{a: v})
    else:
        r = p.method(s, 'setConfigurations', definition_dict=p.pydict({a: v}), **given)
    c = conf_of(p, s, r)
    for k in DEFAULTS:
        is_value(p, 'option %s given beside a dictionary' % k, get(p, c, k), v if k == a else given.get(k, default(k)))


@spec.obligation('the configurations of two simulations share no container')
def _(p):
    I = p.I
    s, _ = sim(p)
    t, _ = sim(p)
    one = p.pick(sorted(k for k, v in DEFAULTS.items() if isinstance(v, (list, dict))), 'option')
    v = glist(p, 'v', lambda I, i: SV('float', z3.Real(V.fresh('v')))) if DEFAULTS[one] == [] else gmap(p, 'v', lambda I, k: SV('float', z3.Real(V.fresh('v'))))
    how = p.pick(['default', 'same object', 'same dictionary', 'one file'])
    p.case(lambda c: dict(kind='shared', seed=1, how='dict' if how == 'same dictionary' else 'kw') if how != 'default' else dict(kind='conf', seed=4, rate=0, mutate=1, how='kw'))
    if how == 'default':
        kw = [{}, {}]
    elif how == 'same object':
        kw = [{one: v}, {one: v}]
    else:
        d = p.pydict({one: v})
        kw = [{'definition_dict': d}, {'definition_dict': d}]
    if how == 'one file':
        p.hook(lambda I, a, k: d, 'json.load')
        p.hook(lambda I, a, k: File(), 'builtins.open')
        kw = [{'configurations_file': 'f.json'}, {'configurations_file': 'f.json'}]
    c1 = conf_of(p, s, p.method(s, 'setConfigurations', **kw[0]))
    old = {k: copy_of(get(p, c1, k)) for k in DEFAULTS if isinstance(get(p, c1, k), (PList, PDict))}
    c2 = conf_of(p, t, p.method(t, 'setConfigurations', **kw[1]))
    p.ensure('each simulation has a configuration of its own', c1 is not c2)
    for k in DEFAULTS:
        a, b = get(p, c1, k), get(p, c2, k)
        if isinstance(a, (PList, PDict)):
            p.ensure('option %s of two simulations' % k, a is not b)
            (list_is if isinstance(a, PList) else dict_after)(p, 'configuring another simulation leaves option %s' % k, a, old[k])


@spec.obligation('configuring again starts from the defaults')
def _(p):
    I = p.I
    s, pr = sim(p)
    first = {k: Opt() for k in DEFAULTS if k not in ('is_dynamic', 'number_parameters_to_optimize')}
    p.case(lambda c: dict(kind='conf', seed=5, how='kw', rate=.5))
    c1 = conf_of(p, s, p.method(s, 'setConfigurations', **first))
    c = conf_of(p, s, p.method(s, 'setConfigurations'))
    for k in DEFAULTS:
        is_value(p, 'option %s after configuring again' % k, get(p, c, k), default(k))


# ------------------------------------------------------------------ results
def solved(p):
    I = p.I
    eqs = any_equations(p)
    fl = tuple(has(p, eqs, t) for t in TYPES)
    if WANT[fl] not in ('linear', 'nonlinear'):
        raise PathInfeasible()
    s, pr = sim(p)
    I.setattr(pr, 'equation_block', I.call(p.get(C + 'equation_block', 'EquationBlock'), [eqs, PDict(), PDict()], {}))
    vals = z3.Function(V.fresh('out'), z3.StringSort(), z3.RealSort())
    out = gmap(p, 'out', lambda I, k: SV('float', vals(V.str2z(k))))
    I.setattr(s, 'output', out)
    return s, out, copy_of(out), WANT[fl]


@spec.obligation('the results of an algebraic problem with any number of unknowns, as a list')
def _(p):
    I = p.I
    s, out, old, w = solved(p)
    p.case(lambda c: dict(kind='results', seed=1, type=w, size=3))
    r = p.method(s, 'getResults', *p.pick([[], ['list']]))
    p.returns('results are given', r)
    vals = PList(seqs.DView(old, 'values').generic(I))
    p.one_of(lambda: list_is(p, 'the solved values in order', r[1], vals), lambda: dict_after(p, 'the output is unchanged', out, old))


@spec.obligation('the results of an algebraic problem with any number of unknowns, as a mapping')
def _(p):
    I = p.I
    s, out, old, w = solved(p)
    p.case(lambda c: dict(kind='results', seed=2, type=w, size=3))
    r = p.method(s, 'getResults', 'dict')
    p.returns('results are given', r)
    p.one_of(lambda: dict_after(p, 'name-to-value mapping', r[1], old), lambda: dict_after(p, 'the output is unchanged', out, old))


@spec.obligation('unknown kinds of results are refused')
def _(p):
    s, out, old, w = solved(p)
    k = p.pick([p.string('kind', False), None, 1, True])
    if is_str(k):
        p.distinct(k, 'list')
        p.distinct(k, 'dict')
    p.case(lambda c: dict(kind='results', seed=3, type=w, size=2))
    p.raises('an unknown kind is refused', p.method(s, 'getResults', k))


# ------------------------------------------------------------------ lookup
@spec.obligation('looking up a parameter by name or object')
def _(p):
    I = p.I
    s, pr = sim(p)
    kinds = {m: c for m, c in (('parameter', 'Parameter'), ('variable', 'Variable'), ('constant', 'Constant'))}
    pars = gmap(p, 'pars', lambda I, k: obj_stub(p, C + 'parameter', 'Parameter', k))
    vars_ = gmap(p, 'vars', lambda I, k: obj_stub(p, C + 'variable', 'Variable', k))
    I.setattr(pr, 'equation_block', I.call(p.get(C + 'equation_block', 'EquationBlock'), [PList([]), vars_, pars], {}))
    n = p.string('name', False)
    there = I.truth_f(seqs.layered_dom(I, pars, n))
    how = p.pick(['name', 'parameter', 'variable', 'constant'])
    p.case(lambda c: dict(kind='lookup', seed=1))
    old = copy_of(pars)
    if how == 'name':
        key = n
    elif how == 'parameter' and there:
        key = I.dict_get(pars, n)
    else:
        key = obj_stub(p, C + how, kinds[how], n)
    r = p.attempt(lambda: I.getitem(s, key))
    if there:
        p.returns('the parameter is found', r)
        p.same('it is the very parameter of the problem', r[1], I.dict_get(old, n))
    else:
        p.raises('a name that is no parameter is refused', r)
    p.one_of(lambda: dict_after(p, 'the parameters are unchanged', pars, old))


@spec.obligation('looking up anything else is refused')
def _(p):
    I = p.I
    s, pr = sim(p)
    pars = gmap(p, 'pars', lambda I, k: obj_stub(p, C + 'parameter', 'Parameter', k))
    I.setattr(pr, 'equation_block', I.call(p.get(C + 'equation_block', 'EquationBlock'), [PList([]), PDict(), pars], {}))
    p.case(lambda c: dict(kind='lookup', seed=2))
    k = p.pick([None, p.int('i'), p.real('r'), PList([]), (p.string('s'),), True, Opt()])
    p.raises('anything but a name or quantity is refused', p.attempt(lambda: I.getitem(s, k)))


# ------------------------------------------------------------------ running
@spec.obligation('a simulation keeps the output of the solver for its problem and configuration')
def _(p):
    I = p.I
    eqs = any_equations(p)
    fl = tuple(has(p, eqs, t) for t in TYPES)
    w = WANT[fl]
    if not any(fl):
        p.assume(B_length(p, eqs) == 0)
    s, pr = sim(p, Opt())
    I.setattr(pr, 'equation_block', I.call(p.get(C + 'equation_block', 'EquationBlock'), [eqs, PDict(), PDict()], {}))
    dom = Opt()
    given = p.pick([None, 'linear', 'nonlinear', 'differential', 'differential-algebraic', 'other'])
    n = p.int('n')
    r = p.method(s, 'setConfigurations', domain=dom, problem_type=given, number_parameters_to_optimize=n)
    conf = conf_of(p, s, r)
    p.hook(lambda I, a, k: p.string('now'), 'datetime.datetime.now')
    log = []
    out = Opt()

    class Solver(Host):
        hname = 'solver'

        def h_getattr(self, I, name):
            if name == 'solve':
                return Native('solve', lambda I, a, k: (seqs._jappend(log, ('solve', a, k)), out)[1])
            raise Unsupported('solver.' + name)

    class Dof(Host):
        hname = 'analysis'

        def h_getattr(self, I, name):
            if name == '_makeSanityChecks':
                return Native(name, lambda I, a, k: seqs._jappend(log, ('check', (), {})))
            raise Unsupported('analysis.' + name)
    I.setattr(p.mod(S + 'solvers'), '_createSolver', Native('_createSolver', lambda I, a, k: (seqs._jappend(log, ('create', a, k)), Solver())[1]))
    I.setattr(p.mod(S + 'analysis'), 'DOF_Analysis', Native('DOF_Analysis', lambda I, a, k: (seqs._jappend(log, ('dof', a, k)), Dof())[1]))
    check = p.flag('check')
    p.case(lambda c: dict(kind='results', seed=4, type=w if w in ('linear', 'nonlinear') else 'linear', size=2, msg=False, res=False))
    r = p.method(s, 'runSimulation', sanity_check=check, show_output_msg=False, show_final_residuals=False)
    if (given or w) in (None, 'other'):
        p.raises('a simulation without type is refused', r)
        p.ensure('nothing is solved', [l[0] for l in log] == [], repr(log))
        return
    p.returns('the simulation runs', r)
    p.same('the output of the solver is kept', p.attr(s, 'output'), out)
    p.same('the domain of the configuration is kept', p.attr(s, 'domain'), dom)
    kinds = [l[0] for l in log]
    p.ensure('one solver is created and solves once', kinds.count('create') == 1 and kinds.count('solve') == 1 and kinds.index('create') < kinds.index('solve'), repr(kinds))
    cr = [l for l in log if l[0] == 'create'][0]
    p.ensure('the solver is created for the problem and configuration of the simulation', list(cr[1]) + list(cr[2].values()) == [pr, conf] or
             (cr[1][0] is pr and cr[1][1] is conf), repr(cr))
    p.ensure('the check is made when asked for, before solving', kinds.count('check') == (1 if check else 0) and (not check or kinds.index('check') < kinds.index('solve')), repr(kinds))
    if check:
        d = [l for l in log if l[0] == 'dof'][0]
        p.ensure('the check is made on the problem', d[1][0] is pr, repr(d))
        p.eq('the check knows the number of optimized parameters', d[1][1] if len(d[1]) > 1 else d[2].get('number_parameters_to_optimize'), n)
