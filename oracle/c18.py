import copy
import json
import os
import tempfile
from .lib import *

Z = [0] * 7
DEFAULTS = dict(initial_time=0., end_time=None, linear_solver='symbolicsys', nonlinear_solver='*', differential_solver='ODEINT', differential_algebraic_solver='IDA', problem_type=None,
                is_dynamic=False, compile_equations=True, domain=None, time_variable_name=None, initial_guess={}, initial_guess_solver=None, arg_names=[], args=[], verbosity_solver=0,
                number_of_time_steps=100, configuration_args={}, print_output=False, output_headers=None, variable_name_map={}, compilation_mechanism='numpy',
                number_parameters_to_optimize=0, times_for_solution=None)
CHOICES = dict(initial_time=[1.0, 0.], end_time=[5., 10], linear_solver=['sympy', 'scipy', None], nonlinear_solver=['sympy', None], differential_solver=['CVODE'], differential_algebraic_solver=[None],
               problem_type=['linear', 'nonlinear'], compile_equations=[False, True], time_variable_name=['t_M', ['t_A', 't_B']], initial_guess=[{'x_M': 2.0}, {}], initial_guess_solver=['hybr'],
               arg_names=[['a'], ['b', 'c']], args=[[1.0], [2.0, 3.0]], verbosity_solver=[1, 2], number_of_time_steps=[10, None], configuration_args=[{'rtol': 1e-3}], print_output=[True],
               output_headers=[['t', 'x']], variable_name_map=[{'x_M': 'x'}], compilation_mechanism=['mpmath'], number_parameters_to_optimize=[1, 2], times_for_solution=[[0., 1.]],
               is_dynamic=[True, False])


class FakeProblem:
    time_variable_name = ['tt']


def mutate(conf):
    """what solvers and users do to a configuration"""
    for k, v in conf.items():
        if isinstance(v, list):
            v.append('leak')
        elif isinstance(v, dict):
            v['leak'] = 1.0


def run_case(c):
    F = Fails()
    rng = random.Random(c['seed'])
    Sim, P, M = get(S + 'simulation', 'Simulation'), get(S + 'problem', 'Problem'), get(S + 'model', 'Model')
    if c['kind'] == 'conf':
        kept = []
        for i in range(c.get('sims', 2)):
            s = Sim('s%d' % i, problem=FakeProblem())
            for again in range(rng.choice([1, 1, 2])):
                given = {k: copy.deepcopy(rng.choice(CHOICES[k])) for k in CHOICES if rng.random() < c.get('rate', .3)}
                how = c.get('how') or rng.choice(['kw', 'dict', 'both', 'file'])
                kw, dd = {}, {}
                for k in given:
                    if how == 'kw' or (how == 'both' and rng.random() < .5):
                        kw[k] = given[k]
                    else:
                        dd[k] = given[k]
                want = {**copy.deepcopy(DEFAULTS), **copy.deepcopy(given)}
                if want['is_dynamic'] is True and want['time_variable_name'] is None:
                    want['time_variable_name'] = ['tt']
                call = dict(kw)
                path = None
                if how == 'file':
                    path = tempfile.mkdtemp()
                    with open(path + '/c.json', 'w') as f:
                        json.dump(dd, f)
                    call['configurations_file'] = path + '/c.json'
                elif how in ('dict', 'both'):
                    call['definition_dict'] = dd
                kw0, dd0 = copy.deepcopy(kw), copy.deepcopy(dd)
                r = attempt(s.setConfigurations, **call)
                if path:
                    os.remove(path + '/c.json')
                    os.rmdir(path)
                if not F.check(r[0] == 'ok', 'a configuration is refused', '%r %s' % (r[1], c)):
                    return F
                bad = [k for k in set(want) | set(s.configurations) if k not in s.configurations or k not in want or s.configurations[k] != want[k] or type(s.configurations[k]) is not type(want[k])]
                F.check(not bad, 'the configuration is not the defaults overridden by the options given (%s)' % ('file' if how == 'file' else 'arguments or dictionary'),
                        '%r %r %s' % (bad, [(s.configurations.get(k, '?'), want.get(k)) for k in bad], c))
                F.check((kw, dd) == (kw0, dd0), 'the given options are changed', c)
            kept.append((s, copy.deepcopy(s.configurations)))
            for t, w in kept[:-1]:
                F.check(t.configurations == w, 'configuring one simulation changes another', c)
            if rng.random() < c.get('mutate', .6):
                mutate(s.configurations)
                for t, w in kept[:-1]:
                    F.check(t.configurations == w, 'the configuration of one simulation leaks into another', c)
                kept[-1] = (s, copy.deepcopy(s.configurations))
        return F
    if c['kind'] == 'shared':
        dd = {k: copy.deepcopy(rng.choice(CHOICES[k])) for k in ('arg_names', 'initial_guess', 'variable_name_map', 'args')}
        a, b = Sim('a', problem=FakeProblem()), Sim('b', problem=FakeProblem())
        d0 = copy.deepcopy(dd)
        (a.setConfigurations(definition_dict=dd), b.setConfigurations(definition_dict=dd)) if c['how'] == 'dict' else (a.setConfigurations(**dd), b.setConfigurations(**dd))
        w = copy.deepcopy(b.configurations)
        mutate(a.configurations)
        F.check(b.configurations == w, 'the configuration of one simulation leaks into another', c)
        F.check(dd == d0, 'the given options are changed', c)
        return F
    if c['kind'] == 'results':
        from .c17 import system, REC
        REC.clear()
        REC['on'] = False
        pr, vs, sol = system(c['type'], c['size'], c['seed'])
        s = Sim('s', problem=pr)
        kw = {}
        if c.get('mech'):
            kw[{'linear': 'linear_solver', 'nonlinear': 'nonlinear_solver'}[c['type']]] = c['mech']
        s.setConfigurations(**kw)
        r = attempt(s.runSimulation, **dict(show_output_msg=c.get('msg', True), show_final_residuals=c.get('res', True)))
        if not F.check(r[0] == 'ok', 'the simulation fails', '%r %s' % (r[1], c)):
            return F
        out = {str(k): v for k, v in s.output.items()}
        a, b = attempt(s.getResults), attempt(s.getResults, 'list')
        F.check(a[0] == b[0] == 'ok' and a[1] == b[1] and a[1] == [float(v) for v in s.output.values()] and all(type(v) is float for v in a[1]), 'the list of results', '%r %r %s' % (a[1], s.output, c))
        d = attempt(s.getResults, 'dict')
        F.check(d[0] == 'ok' and type(d[1]) is dict and sorted(d[1]) == sorted(sol) and all(type(k) is str for k in d[1]) and all(d[1][k] == out[k] for k in out), 'the mapping of results', '%r %r %s' % (d[1], out, c))
        if c['type'] == 'linear' and d[0] == 'ok':
            F.check(all(close(float(d[1][k]), sol[k], 1e-5) for k in sol), 'the results are not those of the problem', '%r %r %s' % (d[1], sol, c))
        for bad in ('LIST', '', None, 'tuple', 1):
            F.check(attempt(s.getResults, bad)[0] == 'raise', 'an unknown kind of result is accepted', '%r %s' % (bad, c))
        F.check(out == {str(k): v for k, v in s.output.items()}, 'asking for results changes them', c)
        return F
    if c['kind'] == 'lookup':
        V, Q = get(C + 'variable', 'Variable'), get(C + 'parameter', 'Parameter')
        pr = P('p')
        ms = []
        for i in range(c.get('models', 2)):
            m = M('M%d' % i)
            ms.append(m)
            x = m.createVariable('x', U(Z))
            for j in range(3):
                q = m.createParameter('p%d' % j, U(Z))
                if rng.random() < .6:
                    q.setValue(float(j + 10 * i + 1))
                m.createEquation('e%d' % j, '', x() - q())
            pr.addModels(m)
        pr.resolve()
        s = Sim('s', problem=pr)
        for m in ms:
            for k, q in m.parameters.items():
                F.check(attempt(s.__getitem__, k) == ('ok', q), 'a parameter asked for by name', c)
                r = attempt(s.__getitem__, q)
                F.check(r[0] == 'ok' and r[1] is q, 'a parameter asked for by object', c)
                r = attempt(s.__getitem__, copy.copy(q))
                F.check(r[0] == 'ok' and r[1] is q, 'a parameter asked for by an object of its name is not the one of the problem', c)
        for bad in ('nobody', 'p0', '', None, 1, 2.5, [], ('p0_M0',)):
            F.check(attempt(s.__getitem__, bad)[0] == 'raise', 'something is looked up that is no parameter', '%r %s' % (bad, c))
        return F
    if c['kind'] == 'dynamic':
        D = get(C + 'domain', 'Domain')
        sims = []
        for i in range(2):
            m = M('M%d' % i)
            x, t = m.createVariable('x', U(Z)), m.createVariable('t', U(Z))
            dom = D('d%d' % i, U(Z), t)
            x.distributeOnDomain(dom)
            m.createEquation('e', '', x.Diff(t) == x() * -1.0)
            pr = P('p%d' % i)
            pr.addModels(m)
            pr.setTimeVariableName(t.name)
            pr.setInitialConditions({t.name: 0., x.name: 1.0})
            pr.resolve()
            s = Sim('s%d' % i, problem=pr)
            kw = dict(end_time=1.0, domain=dom, number_of_time_steps=3, compile_equations=bool(c.get('compile')))
            if c.get('how') == 'dict':
                s.setConfigurations(definition_dict=dict(kw, is_dynamic=True))
            else:
                s.setConfigurations(is_dynamic=True, **kw)
            sims.append((s, dom, t, x))
            F.check(s.configurations['arg_names'] == [], 'the configuration of one simulation leaks into another', '%r %s' % (s.configurations['arg_names'], c))
            F.check(s.configurations['time_variable_name'] == [t.name], 'the time variable of a dynamic simulation', '%r %s' % (s.configurations['time_variable_name'], c))
            n0 = list(pr.equation_block._var_list)
            for again in range(c.get('runs', 1)):
                dom._reset()
                r = attempt(s.runSimulation)
                if not F.check(r[0] == 'ok', 'the simulation fails', '%r %s' % (r[1], c)):
                    return F
                rs = attempt(s.getResults, 'dict')
                F.check(rs[0] == 'ok' and [len(v) for v in rs[1][t.name].values()] == [4, 4], 'results of a dynamic simulation', '%r %s' % (rs[1], c))
        return F


def gen_cases(rng, tier):
    for how in ('kw', 'dict', 'both', 'file'):
        for rate in (0., .2, .6, 1.):
            yield dict(kind='conf', how=how, rate=rate, sims=2, mutate=1.0, seed=rng.randrange(10 ** 6))
    for how in ('kw', 'dict'):
        for s in range(3):
            yield dict(kind='shared', how=how, seed=s)
        for comp in (0, 1):
            yield dict(kind='dynamic', how=how, compile=comp, runs=2, seed=0)
    for n in range(100 if tier == 'quick' else 2000):
        yield dict(kind='conf', sims=rng.randint(1, 4), rate=rng.choice([.05, .3, .8]), seed=rng.randrange(10 ** 6))
    for n in range(40 if tier == 'quick' else 500):
        ty = rng.choice(['linear', 'linear', 'nonlinear'])
        yield dict(kind='results', type=ty, mech=rng.choice([None, 'sympy', 'symbolicsys', 'scipy'] if ty == 'linear' else [None, '*', 'symbolicsys']), size=rng.randint(1, 5), msg=rng.random() < .5, res=rng.random() < .5,
                   seed=rng.randrange(10 ** 6))
    for n in range(10):
        yield dict(kind='lookup', models=rng.randint(1, 3), seed=n)
