"""Histories of independently created objects: whatever is done with one of them, the others keep their state, share no
mutable state with it, and an object created later is what the same creation gave at the start."""
import enum
from .lib import *
from . import fakethermo

fakethermo.install()
import sympy
import numpy as np
import pandas as pd

ATOMS = (int, float, str, bool, bytes, type(None), type, complex, sympy.Basic, np.generic, enum.Enum)


def walk(root, seen=None, path='', immut=()):
    """-> (state, {id: (object, path)} of the mutable objects reachable)"""
    ids, out, keep = {}, {}, []

    def st(v, path):
        if isinstance(v, ATOMS):
            return (type(v).__name__, repr(v)) if not isinstance(v, sympy.Basic) else ('sympy', str(v))
        if isinstance(v, (tuple, frozenset)):
            return (type(v).__name__, [st(x, path + '[]') for x in v])
        if id(v) in ids:
            return ('ref', ids[id(v)])
        if callable(v) and not hasattr(v, '__dict__') or type(v).__name__ in ('function', 'method', 'builtin_function_or_method', 'module'):
            return ('fn', getattr(v, '__name__', '?'))
        ids[id(v)] = len(ids)
        out[id(v)] = (v, path)
        if isinstance(v, (list, set)):
            return (type(v).__name__, [st(x, '%s[%d]' % (path, i)) for i, x in enumerate(v)])
        if isinstance(v, dict):
            return (type(v).__name__, [(st(k, path), st(x, '%s[%r]' % (path, k))) for k, x in v.items()])
        if isinstance(v, pd.DataFrame):
            return ('frame', [str(x) for x in v.columns], v.values.tolist())
        if isinstance(v, np.ndarray):
            return ('array', v.tolist())
        if hasattr(v, '__dict__'):
            return (type(v).__name__, [(k, st(x, path + '.' + k)) for k, x in sorted(v.__dict__.items())])
        return ('opaque', type(v).__name__)
    return st(root, path), out


def templates():
    """units are values that nothing changes: every model uses the ones defined once"""
    m = importlib.import_module(C + 'template_units')
    un = get(C + 'unit', 'Unit')
    ok = {}
    for mod in ('template_units', 'unit', 'quantity'):
        mm = importlib.import_module(C + mod)
        for v in vars(mm).values():
            if isinstance(v, un):
                ok.update(walk(v)[1])
    return ok


import importlib


class Session:
    """one thing created independently of the others, with what belongs to it"""

    def __init__(self, kind, args, rng):
        self.kind, self.args = kind, args
        self.roots = []
        self.n = 0
        getattr(self, 'new_' + kind)(*args)

    def add(self, o):
        self.roots.append(o)
        return o

    # ---- creation, by arguments
    def new_model(self, name, how):
        self.m = self.add(get(S + 'model', 'Model')(name, 'text'))

    def new_stream(self, name, cls):
        pp = get(C + 'property_package', 'PropertyPackage')(phase_names=['water', 'hexane'][:2 if cls[:2] == 'Mu' else 1])
        self.m = self.add(get(S + 'unit_op_library', cls)(name, property_package=pp))

    def new_unit_op(self, name, _):
        m = get(S + 'model', 'Model')(name)
        self.m = m
        self.u = self.add(get(S + 'unit_op', 'UnitOp')(model=m))

    def new_problem(self, name, _):
        self.p = self.add(get(S + 'problem', 'Problem')(name))

    def new_simulation(self, name, _):
        self.s = self.add(get(S + 'simulation', 'Simulation')(name, problem=get(S + 'problem', 'Problem')(name)))

    def new_package(self, name, how):
        PP = get(C + 'property_package', 'PropertyPackage')
        self.pp = self.add(PP() if how == 0 else PP(phase_names=[name, 'hexane']))

    def new_domain(self, name, how):
        v = get(C + 'variable', 'Variable')(name, U([0, 0, 1, 0, 0, 0, 0]))
        self.d = self.add(get(C + 'domain', 'Domain')(name + '_d', U([0, 0, 1, 0, 0, 0, 0]), v if how == 0 else [v]))

    def new_expression(self, name, how):
        v = get(C + 'variable', 'Variable')(name, U([0, 0, 0, 0, 0, 0, 0]))
        w = get(C + 'parameter', 'Parameter')(name + 'p', U([0, 0, 0, 0, 0, 0, 0]), value=2.)
        self.x = self.add([v() * 2, v() + w()])
        self.add([v, w])

    def new_unit(self, name, how):
        Un = get(C + 'unit', 'Unit')
        self.un = self.add([Un(name, {'m': 1.} if how else Un('x', {'kg': 2.}), 'text')])

    def new_opt_problem(self, name, how):
        self.op = self.add(get(S + 'optimization', 'OptimizationProblem')(2, name))

    def new_optimization(self, name, how):
        class Sim:
            configurations = None
        s = Sim()
        s.configurations = {'print_output': False}
        self.o = self.add(get(S + 'optimization', 'Optimization')(s, get(S + 'optimization', 'OptimizationProblem')(1, name, bounds=([0], [1])), [name], optimizer=['de', 'pso'][how]))

    def new_block(self, name, how):
        v = get(C + 'variable', 'Variable')(name, U([0] * 7))
        e = get(C + 'equation', 'Equation')(name + 'e', 'text', v() - 1.)
        e._sweepObjects()
        self.e = e
        self.b = self.add(get(C + 'equation_block', 'EquationBlock')([e], {v.name: v}, {}))

    # ---- use
    def use(self, rng):
        self.n += 1
        ops = [k for k in dir(self) if k.startswith('use_' + self.kind + '_')]
        o = rng.choice(ops)
        attempt(lambda: getattr(self, o)(rng))
        return o[4:]

    def unit(self):
        return get(C + 'template_units', 'm')

    def use_model_create(self, rng):
        i = self.n
        v = self.m.createVariable('x%d' % i, self.unit(), is_exposed=True, type=rng.choice(['input', 'output']), value=1.)
        q = self.m.createParameter('k%d' % i, self.unit(), value=2.)
        c = self.m.createConstant('c%d' % i, self.unit(), value=3.)
        v.setValue(4.)
        self.m.createEquation('e%d' % i, 'text', v() * 2 - q() - c())

    def use_model_inlets(self, rng):
        st = get(S + 'unit_op_library', 'HomogeneousMaterialStream')('st%d' % self.n)
        self.m._setInlets([st], rng.choice(['in', 'other']))

    def use_model_port(self, rng):
        self.m.ports['outlets']['out%d' % self.n] = [self.n]

    def use_model_call(self, rng):
        self.m()
        self.m._gatherObjectsInfo_()

    def use_model_incorporate(self, rng):
        o = get(S + 'model', 'Model')('src')
        v = o.createVariable('v', self.unit(), is_exposed=True, type='input')
        o.createEquation('e', 'text', v() - 2.)
        self.m.incorporateFromExternalModel(o)

    use_stream_create = use_model_create
    use_stream_inlets = use_model_inlets

    def use_stream_values(self, rng):
        self.m.mdot.setValue(2. + self.n)
        self.m.T.setValue(300.)
        self.m.DeclareParameters()

    def use_stream_package(self, rng):
        self.m.property_package + get(C + 'property_package', 'PropertyPackage')(phase_names=['q%d' % self.n])

    def use_unit_op_in(self, rng):
        self.u._setInlets(get(S + 'unit_op_library', 'HomogeneousMaterialStream')('st%d' % self.n), rng.choice(['in', 'other']))

    def use_unit_op_out(self, rng):
        self.u._setOutlets([get(S + 'unit_op_library', 'HomogeneousMaterialStream')('so%d' % self.n)])

    def _model(self, tag):
        m = get(S + 'model', 'Model')(tag)
        v = m.createVariable('x', self.unit(), is_exposed=True, type='output')
        w = m.createVariable('y', self.unit(), is_exposed=True, type='input')
        m.x, m.y = v, w
        m.createEquation('e', 'text', v() * 2. - 3.) if tag[-1] in '02468' else m.createEquation('e', 'text', v() + w() - 3.)
        return m

    def use_problem_models(self, rng):
        a, b = self._model('a%d' % self.n), self._model('b%d' % self.n)
        self.p.addModels([a, b])
        self.p.createConnection(a, b, [a.x], [b.y])
        if rng.random() < .5:
            self.p.createConnection(a, b, a.x(), b.y())
            self.p.createConnection('', b, a.x(), b.y())
            self.p.createConnection('', b, a.x(), b.y())

    def use_problem_resolve(self, rng):
        self.p.resolve()

    def use_problem_set(self, rng):
        self.p.setTimeVariableName(rng.choice(['t', ['t', 'u']]))
        self.p.setInitialConditions({'x%d' % self.n: 2.})

    def use_problem_touch(self, rng):
        self.p.variable_dict['z%d' % self.n] = 1
        self.p.initial_conditions['q'] = 3.
        self.p.models['z'] = self._model('z')
        self.p.connections['z'] = 2

    def use_simulation_conf(self, rng):
        k = {}
        for o, v in (('initial_guess', {'x': 2.}), ('args', [1]), ('variable_name_map', {'a': 'b'}), ('nonlinear_solver', 'HYBR'), ('end_time', 3.)):
            if rng.random() < .4:
                k[o] = v
        if rng.random() < .5:
            self.s.setConfigurations(definition_dict=k)
        else:
            self.s.setConfigurations(**k)

    def use_simulation_touch(self, rng):
        if self.s.configurations is None:
            self.s.setConfigurations()
        for k, v in self.s.configurations.items():
            if isinstance(v, list):
                v.append(self.n)
            if isinstance(v, dict):
                v['n%d' % self.n] = self.n

    def use_simulation_run(self, rng):
        m = self._model('m0')
        del m.variables['y_m0']
        m.exposed_vars['input'].clear()
        self.s.problem.addModels(m)
        self.s.problem.resolve()
        self.s.setConfigurations()
        self.s.runSimulation(show_final_residuals=False)

    def use_package_add(self, rng):
        self.pp + get(C + 'property_package', 'PropertyPackage')(phase_names=['q%d' % self.n])

    def use_package_state(self, rng):
        self.pp.set_T(300. + self.n)
        self.pp.calculate(300. + self.n, 2e5)

    def use_package_fractions(self, rng):
        self.pp.ws.append(.5)
        self.pp.eos['x'] = 1

    def use_domain_distribute(self, rng):
        v = get(C + 'variable', 'Variable')('y%d' % self.n, self.unit())
        v.distributeOnDomain(self.d)
        self.d()
        self.d._register([[0.] * (1 + len(self.d.dependent_objs))] * 2)

    def use_domain_bounds(self, rng):
        self.d.lower_bound['all'] = 1.
        self.d.upper_bound['t'] = 2.

    def use_domain_rename(self, rng):
        self.d()
        self.d._renameHeaders({k: 'new' for k in self.d.independent_vars})

    def use_expression_more(self, rng):
        self.x.append(self.x[rng.randrange(len(self.x))] + self.x[rng.randrange(len(self.x))])
        self.x.append(self.x[rng.randrange(len(self.x))] * 3. - 1.)
        if len(self.x) > 8:
            del self.x[2:]

    def use_expression_records(self, rng):
        e = get(C + 'expression_evaluation', 'EquationNode')(name='n')
        e.symbolic_map['a%d' % self.n] = 1
        e.variable_map['a%d' % self.n] = 1
        self.x.append(e)

    def use_expression_value(self, rng):
        self.roots[1][0].setValue(2. + self.n)
        self.roots[1][0].domain = self.n

    def use_unit_algebra(self, rng):
        self.un.append(self.un[0] * self.unit())
        self.un.append(self.un[0] ** 2)
        self.un.append(self.un[0] / self.unit())
        self.un[-1].dimension['kg'] = 5.
        if rng.random() < .5:
            self.un[0].dimension['s'] = 1. + self.n

    def use_opt_problem_set(self, rng):
        self.op.setBounds(([self.n], [9]))
        self.op()

    def use_optimization_set(self, rng):
        self.o.optimization_configuration['number_of_individuals'] = self.n
        self.o.additional_args.append(self.n)
        self.o.constraints_additional_args.append(self.n)

    def use_block_call(self, rng):
        self.b()
        self.b._getEquationList()

    def use_block_value(self, rng):
        self.b.variable_dict['q'] = 1
        self.b.equations.append(self.e)


KINDS = [('model', ['a', 'a', 'b'], [0]), ('stream', ['s'], ['HomogeneousMaterialStream', 'MaterialStream', 'MultiphasicMaterialStream']), ('unit_op', ['u'], [0]), ('problem', ['p', 'p'], [0]),
         ('simulation', ['s'], [0]), ('package', ['water'], [0, 1]), ('domain', ['t'], [0, 1]), ('expression', ['v'], [0]), ('unit', ['u'], [0, 1]), ('opt_problem', ['o'], [0]),
         ('optimization', ['o'], [0, 1]), ('block', ['x'], [0])]


def run_case(c):
    F = Fails()
    if c['kind'] == 'conditions':
        for earlier in (False, True):
            a, b = get(S + 'problem', 'Problem')('a'), get(S + 'problem', 'Problem')('b')
            if earlier:
                a.setInitialConditions({'z': 0.})
            d = {'k': 1.}
            a.setInitialConditions(d)
            b.setInitialConditions(d)
            a.setInitialConditions({'l': 2., 'k': 3.})
            F.check(b.initial_conditions == {'k': 1.} and d == {'k': 1.}, 'initial conditions given to two problems', '%r %r' % (b.initial_conditions, d))
        return F
    rng = random.Random(c['seed'])
    ok = templates()
    kinds = [k for k in KINDS if not c.get('kinds') or k[0] in c['kinds']]
    S0, ref = [], {}

    def create():
        k, names, hows = rng.choice(kinds)
        args = (rng.choice(names), rng.choice(hows))
        s = Session(k, args, rng)
        st = [walk(r)[0] for r in s.roots]
        key = (k,) + args
        if key in ref:
            F.check(st == ref[key], 'a new %s is not what it was' % k, 'created %r: %s' % (args, diff(ref[key], st)))
        ref.setdefault(key, st)
        return s

    def diff(a, b, path=''):
        if a == b:
            return ''
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
            for x, y in zip(a, b):
                if x != y:
                    return diff(x, y, path + ' ' + (str(a[0]) if a and isinstance(a[0], str) else ''))
        return '%s: %r instead of %r' % (path[-200:], str(b)[:200], str(a)[:200])

    def states():
        return [[walk(r)[0] for r in s.roots] for s in S0]

    def apart(i, what):
        a = {}
        for r in S0[i].roots:
            a.update(walk(r, path=S0[i].kind)[1])
        for j, s in enumerate(S0):
            if j != i:
                b = {}
                for r in s.roots:
                    b.update(walk(r, path=s.kind)[1])
                sh = [a[k][1] + ' is ' + b[k][1] for k in a if k in b and k not in ok]
                F.check(not sh, 'shared state (%s, %s)' % tuple(sorted((S0[i].kind, s.kind))), '%s: %s' % (what, sh[:3]))
    for k, names, hows in kinds:
        for n in sorted(set(names)):
            for h in hows:
                s = Session(k, (n, h), rng)
                ref[(k, n, h)] = [walk(r)[0] for r in s.roots]
                S0.append(s)
    rng.shuffle(S0)
    del S0[c.get('keep', 4):]
    before = states()
    for step in range(c['steps']):
        if rng.random() < .3:
            S0.append(create())
            i, what = len(S0) - 1, 'created ' + S0[-1].kind
        else:
            i = rng.randrange(len(S0))
            what = 'used ' + S0[i].use(rng)
        now = states()
        for j, st in enumerate(before):
            if j != i:
                F.check(st == now[j], 'state of a %s' % S0[j].kind, 'step %d, %s: %s' % (step, what, diff(st, now[j])))
        if step % 4 == 0 or what.startswith('created'):
            apart(i, what)
        before = now
        if len(F) > 5:
            return F
        if len(S0) > 14:
            j = rng.randrange(len(S0))
            del S0[j], before[j]
    return F


def gen_cases(rng, tier):
    yield dict(kind='conditions')
    for k in KINDS:
        for i in range(3):
            yield dict(kind='one kind', kinds=[k[0]], steps=14, keep=9, seed=rng.randrange(10 ** 6))
    while True:
        for i in range(40 if tier == 'quick' else 400):
            yield dict(kind='history', steps=30, keep=8, seed=rng.randrange(10 ** 6))
        return
