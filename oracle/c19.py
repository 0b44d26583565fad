import copy
import json
import os
import tempfile
import numpy as np
from .lib import *

Z = [0] * 7
DEF = {'number_of_individuals': 100, 'number_of_generations': 600, 'crossover_rate': 0.6, 'mutation_rate': 0.04, 'elitism': 1, 'crossover_type': 'exponential', 'mutation_type': 'gaussian', 'selection_type': 'tournament',
       'selection_param': 4, 'scale_factor': 0.5, 'variant_de': 10, 'ftol_de': 1e-08, 'xtol_de': 1e-08, 'omega_pso': 0.7298, 'eta1_pso': 2.05, 'eta2_pso': 2.05, 'variant_pso': 5, 'max_v_pso': 0.5,
       'neighborhood_type_pso': 2, 'neighborhood_param_pso': 4}
CH = {'number_of_individuals': [10, 20], 'number_of_generations': [1, 3, 7], 'crossover_rate': [.25, .5], 'mutation_rate': [.125, .75], 'elitism': [2, 3], 'crossover_type': ['sbx', 'single', 'binomial'],
      'mutation_type': ['uniform', 'polynomial'], 'selection_type': ['truncated'], 'selection_param': [1, 2, 3], 'scale_factor': [.25, .375], 'variant_de': [1, 2, 3], 'ftol_de': [.5, .25], 'xtol_de': [.125, .0625],
      'omega_pso': [.5, .25], 'eta1_pso': [1.5, 3.], 'eta2_pso': [1.25, 2.5], 'variant_pso': [1, 2, 6], 'max_v_pso': [.25, .125], 'neighborhood_type_pso': [1, 3], 'neighborhood_param_pso': [2, 3]}
ARGS = {'ga': ('sga', dict(gen='number_of_generations', cr='crossover_rate', m='mutation_rate', param_s='selection_param', crossover='crossover_type', mutation='mutation_type', selection='selection_type')),
        'sade': ('de1220', dict(gen='number_of_generations', ftol='ftol_de', xtol='xtol_de')),
        'de': ('de', dict(gen='number_of_generations', F='scale_factor', CR='crossover_rate', variant='variant_de', ftol='ftol_de', xtol='xtol_de')),
        'pso': ('pso', dict(gen='number_of_generations', omega='omega_pso', eta1='eta1_pso', eta2='eta2_pso', max_vel='max_v_pso', variant='variant_pso', neighb_type='neighborhood_type_pso',
                            neighb_param='neighborhood_param_pso'))}


class Sim:
    def __init__(self, conf):
        self.configurations = conf


def info(algo):
    return [l for l in (algo.get_name() + '\n' + algo.get_extra_info()).split('\n') if 'Seed' not in l and 'Verbosity' not in l]


def study(**kw):
    return get(S + 'optimization', 'Optimization')(**kw)


def problem_class(F, box):
    OP = get(S + 'optimization', 'OptimizationProblem')

    class Prob(OP):
        def DeclareObjectiveFunction(self, x):
            box.append((list(map(float, x)), self.simulation_instance, self.simulation_configuration))
            return [sum((float(v) - .3) ** 2 for v in x)]
    return Prob


def run_case(c):
    F = Fails()
    rng = random.Random(c['seed'])
    import pygmo as pg
    OP = get(S + 'optimization', 'OptimizationProblem')
    Par, Unit_ = get(C + 'parameter', 'Parameter'), U(Z)
    if c['kind'] == 'conf':
        kept = []
        for i in range(c.get('n', 2)):
            o = c.get('optimizer') or rng.choice(list(ARGS))
            given = {k: rng.choice(CH[k]) for k in CH if rng.random() < c.get('rate', .4)}
            how = c.get('how') or rng.choice(['dict', 'file', 'none', 'empty'])
            if how in ('none', 'empty'):
                given = {}
            g0 = dict(given)
            arg = {'dict': given, 'none': None, 'empty': {}, 'file': None}[how]
            path = None
            if how == 'file':
                path = tempfile.mkdtemp()
                arg = path + '/o.json'
                json.dump(given, open(arg, 'w'))
            kw = dict(simulation=Sim({'a': 1}), optimization_problem=OP(1), optimization_parameters=['p'], optimizer=o)
            if how != 'none':
                kw['optimization_configuration'] = arg
            r = attempt(lambda: study(**kw))
            if path:
                os.remove(path + '/o.json')
                os.rmdir(path)
            if not F.check(r[0] == 'ok', 'a study is refused', '%r %s' % (r[1], c)):
                return F
            s = r[1]
            want = {**DEF, **given}
            F.check(s.optimization_configuration == want, 'the settings are not the defaults overridden by those given (%s)' % how, '%r %s' % (s.optimization_configuration, c))
            F.check(given == g0, 'the given settings are changed', c)
            f, names = ARGS[o]
            ref = pg.algorithm(getattr(pg, f)(**{k: want[v] for k, v in names.items()}))
            F.check(info(s.optimization_mechanism) == info(ref), 'the algorithm does not have its settings (%s)' % o, '%r instead of %r %s' % (info(s.optimization_mechanism), info(ref), c))
            F.check(s.optimizer == o, 'the optimizer asked for', '%r %s' % (s.optimizer, c))
            kept.append((s, dict(s.optimization_configuration)))
            s.optimization_configuration['leak%d' % i] = 1
            for t, w in kept[:-1]:
                F.check({k: v for k, v in t.optimization_configuration.items() if not k.startswith('leak')} == w and 'leak%d' % i not in t.optimization_configuration, 'one study changes another', c)
        return F
    if c['kind'] == 'supplied':
        conf = {'a': rng.random()}
        own = {'b': 1} if c['sim'] else None
        kw = dict(simulation=Sim(own), optimization_problem=OP(1), optimization_parameters=['p'], optimizer=rng.choice(list(ARGS)))
        path = None
        if c['how'] == 'dict':
            kw['simulation_configuration'] = conf
        elif c['how'] == 'file':
            path = tempfile.mkdtemp()
            json.dump(conf, open(path + '/s.json', 'w'))
            kw['simulation_configuration'] = path + '/s.json'
        elif c['how'] == 'wrong':
            kw['simulation_configuration'] = 5
        con = c.get('constraints')
        if con is not None:
            kw['constraints'] = con
        kw['is_maximization'] = bool(c.get('max'))
        c0 = copy.deepcopy(con)
        r = attempt(lambda: study(**kw))
        if path:
            os.remove(path + '/s.json')
            os.rmdir(path)
        if c['how'] == 'wrong' or c['how'] == 'none' and not c['sim']:
            F.check(r[0] == 'raise', 'a study without simulation configuration is accepted', c)
            return F
        if not F.check(r[0] == 'ok', 'a study is refused', '%r %s' % (r[1], c)):
            return F
        s = r[1]
        F.check(s.simulation_configuration == (own if c['how'] == 'none' else conf), 'the simulation configuration supplied', '%r %s' % (s.simulation_configuration, c))
        F.check(s.constraints is con if con is not None else s.constraints is None, 'the constraints supplied', '%r %s' % (s.constraints, c))
        F.check(con == c0, 'the constraints supplied are changed', c)
        F.check(s.is_maximization is bool(c.get('max')), 'the direction of the study', c)
        F.check(s.optimization_problem is kw['optimization_problem'] and s.simulation is kw['simulation'] and s.optimization_parameters is kw['optimization_parameters'], 'the objects supplied', c)
        return F
    if c['kind'] == 'problem':
        d = c['dim']
        lo = [rng.uniform(-3, 0) for _ in range(d)]
        hi = [l + rng.uniform(.5, 3) for l in lo]
        b = c.get('form')
        bounds = {'pair': lambda: [lo[0], hi[0]], 'lists': lambda: (list(lo), list(hi)), 'arrays': lambda: (np.array(lo), np.array(hi)), None: lambda: None}[b]()
        if b == 'pair':
            lo, hi = lo[:1], hi[:1]
        kw = dict(name='n', description='d')
        if c.get('how') == 'ctor':
            kw['bounds'] = bounds
        if c.get('max') is not None:
            kw['is_maximization'] = c['max']
        others = [OP(1, bounds=[5., 6.], is_maximization=not c.get('max'))]
        p = OP(d, **kw)
        others.append(OP(2))
        if c.get('how') == 'set':
            p.setBounds(bounds)
        F.check(p.bounds is bounds, 'the bounds of the problem', '%r %s' % (p.bounds, c))
        mx = c.get('max') or False
        F.check(p.is_maximization is mx, 'the direction of the problem', '%r %s' % (p.is_maximization, c))
        for ready in (0, 1):
            if ready:
                p()
            if bounds is not None:
                g = attempt(p.get_bounds)
                F.check(g[0] == 'ok' and len(g[1]) == 2 and np.array_equal(np.ravel(g[1][0]), lo) and np.array_equal(np.ravel(g[1][1]), hi), 'the bounds reported', '%r %s' % (g[1], c))
        for x, y in [(1., 2.), (2., 1.), (1., 1.), (-1., 0.), (float(rng.random()), float(rng.random()))]:
            F.check(bool(p.DeclareFitnessComparison([x], [y])) == (x > y if mx else x < y), 'the fitness preferred', '%s %s %s' % (x, y, c))
        F.check(others[0].bounds == [5., 6.] and others[1].bounds is None, 'another problem changed', c)
        return F
    if c['kind'] == 'run':
        box = []
        Prob = problem_class(F, box)
        d = c['dim']
        names = ['p%d' % i for i in range(d)]
        rng.shuffle(names)
        pars = [n if c['mix'][i % len(c['mix'])] == 's' else Par(n, Unit_, value=1.) for i, n in enumerate(names)]
        lo = [rng.uniform(-3, -1) + 10 * i for i in range(d)]
        hi = [l + rng.uniform(.5, 1) for l in lo]
        con = {'named': lambda: {n: (lo[i], hi[i]) for i, n in sorted(enumerate(names), key=lambda t: t[1])}, 'lists': lambda: (list(lo), list(hi)), 'pair': lambda: [lo[0], hi[0]], None: lambda: None}[c['constraints']]()
        own = (list(lo), list(hi)) if c.get('own') else None
        if c.get('own') == 'other':
            own = ([-50.] * d, [-40.] * d)
        missing = c.get('missing')
        if missing is not None:
            del con[names[missing % d]]
        if con is not None and c['constraints'] == 'named' and c.get('extra'):
            con['zz'] = (90., 91.)
        c0 = copy.deepcopy(con)
        p = Prob(d, bounds=own)
        if c.get('ready', 1):
            p()
        conf = {'a': 1}
        sim = Sim(conf)
        s = study(simulation=sim, optimization_problem=p, optimization_parameters=pars, constraints=con, optimizer=c.get('optimizer', 'de'), optimization_configuration={'number_of_individuals': 8, 'number_of_generations': 2, 'variant_pso': 5})
        r0 = attempt(s.getResults)
        F.check(r0[0] == 'raise', 'results of a study that did not run', '%r %s' % (r0[1], c))
        r = attempt(s.runOptimization)
        refuse = missing is not None or not c.get('ready', 1) or (con is None and own is None)
        if refuse:
            F.check(r[0] == 'raise', 'an ill-formed study runs', c)
            F.check(not box, 'a refused study evaluates its objective', c)
            return F
        if not F.check(r[0] == 'ok', 'a study does not run', '%r %s' % (r[1], c)):
            return F
        F.check(con == c0 and s.constraints is con, 'the constraints are changed by a run', c)
        F.check(bool(box) and all(len(x) == d and all(l <= v <= h for v, l, h in zip(x, lo, hi)) for x, _, _ in box), 'the objective is evaluated out of bounds',
                '%r not in %r %r %s' % ([x for x, _, _ in box][:3], lo, hi, c))
        F.check(all(g == conf for _, _, g in box), 'the objective does not see the simulation configuration', c)
        F.check(p.simulation_instance is sim and p.simulation_configuration is conf, 'the problem gets simulation and configuration', c)
        g = attempt(s.getResults)
        F.check(g[0] == 'ok' and len(g[1][0]) == d and close(float(g[1][1][0]), min(sum((v - .3) ** 2 for v in x) for x, _, _ in box), 1e-9), 'the best result', '%r %s' % (g[1], c))
        return F


def gen_cases(rng, tier):
    for o in ARGS:
        for how in ('dict', 'file', 'none', 'empty'):
            yield dict(kind='conf', optimizer=o, how=how, rate=.6, seed=rng.randrange(10 ** 6))
        yield dict(kind='conf', optimizer=o, how='dict', rate=1., seed=rng.randrange(10 ** 6))
    for how in ('dict', 'file', 'none', 'wrong'):
        for sim in (0, 1):
            for con in (None, [-1., 1.], {'p': (0., 1.)}):
                yield dict(kind='supplied', how=how, sim=sim, constraints=con, max=rng.random() < .5, seed=rng.randrange(10 ** 6))
    for dim in (1, 2, 3):
        for form in ('pair', 'lists', 'arrays', None):
            for how in ('ctor', 'set'):
                for mx in (None, True, False):
                    if (form is None and how == 'set') or (form == 'pair' and dim > 1):
                        continue
                    yield dict(kind='problem', dim=dim, form=form, how=how, max=mx, seed=rng.randrange(10 ** 6))
    for con in ('named', 'lists', 'pair', None):
        for own in (0, 1, 'other'):
            for mix in ('s', 'q', 'sq', 'qs'):
                for dim in (1, 2, 3):
                    if con == 'pair' and dim > 1 or (con is None and own == 'other'):
                        continue
                    yield dict(kind='run', constraints=con, own=own, mix=mix, dim=dim, seed=rng.randrange(10 ** 6), extra=rng.random() < .3, optimizer=rng.choice(list(ARGS)))
                    if con == 'named':
                        for m in range(dim):
                            yield dict(kind='run', constraints=con, own=own, mix=mix, dim=dim, missing=m, seed=rng.randrange(10 ** 6))
    for own in (0, 1):
        yield dict(kind='run', constraints='lists', own=own, mix='s', dim=1, ready=0, seed=1)
    for n in range(60 if tier == 'quick' else 1500):
        yield dict(kind='conf', n=rng.randint(1, 4), rate=rng.choice([.1, .4, .9]), seed=rng.randrange(10 ** 6))
