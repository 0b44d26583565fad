from .lib import *

KINDS = ('variable', 'parameter', 'constant')
TT = [0, 0, 1, 0, 0, 0, 0]
SPEC = ('name', 'value', 'latex_text', 'description', 'is_specified')


def build(mname, objs, eqs):
    """model with objects [(kind, name, value, exposure)] and equations [(name, left tree, right tree | number | None)]"""
    m = get(S + 'model', 'Model')(mname)
    d = {}
    for kind, name, value, exp in objs:
        kw = dict(value=value, latex_text='L' + name, description='D' + name)
        if kind == 'variable' and exp:
            kw.update(is_exposed=True, type=exp)
        o = getattr(m, 'create' + kind.capitalize())(name, U([0] * 7), **kw)
        if kind != 'variable':
            o.setValue(value)
        d[name] = o
    for name, l, r in eqs:
        a, b = tree(l, d), tree(r, d)
        if r is not None and r == l:
            b = a               # one expression on both sides
        m.createEquation(name, 'd', a if r is None else (a == b))
    return m


def tree(t, d):
    if t is None or isinstance(t, (int, float)):
        return t
    if t[0] == 'q':
        return d[t[1]]()
    if t[0] == 'D':
        if d[t[1]].domain is None:
            d[t[1]].distributeOnDomain(get(C + 'domain', 'Domain')('time', U([0] * 7), [d[t[2]]]))
        return d[t[1]].Diff(d[t[2]])
    a = tree(t[1], d)
    if t[0] == 'Exp':
        return get(C + 'equation_operators', 'Exp')(a)
    b = tree(t[2], d)
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[t[0]]()


def quantity(o):
    return tuple(getattr(o, a, None) for a in SPEC) + (tuple(dims(o.units)), o.owner_model_name, getattr(o, 'is_exposed', None), getattr(o, 'type', None),
                                                       getattr(o, 'lower_bound', None))


def node(n):
    return (n.symbolic_object, n.repr_symbolic, [(k, id(v)) for k, v in n.symbolic_map.items()], [(k, id(v)) for k, v in n.variable_map.items()],
            dict(n.equation_type), dims(n.unit_object), n.latex_text, n.name)


def sides(e):
    return [e.equation_expression] + list(e.elementary_equation_expression or ())


def state(m):
    out = []
    for r in ('variables', 'parameters', 'constants'):
        out.append([(k, id(o), quantity(o)) for k, o in getattr(m, r).items()])
    out.append([(k, id(e), e.name, e.owner_model_name, e.type, e.equation_form, [node(n) for n in sides(e)], [(a, id(b)) for a, b in e.objects_declared.items()])
                for k, e in m.equations.items()])
    out.append({k: [id(v) for v in l] for k, l in m.exposed_vars.items()})
    return out


def base(name, owner):
    return name[:-len('_' + owner)] if name.endswith('_' + owner) else name


def run_case(c):
    F = Fails()
    src = build(c['src'], c['objs'], c['eqs'])
    dst = build(c['dst'], c.get('dobjs', []), [])
    if c.get('through'):       # the source itself got its objects from another model
        mid = get(S + 'model', 'Model')(c['through'])
        r = attempt(mid.incorporateFromExternalModel, src, rewrite_name=bool(c.get('trewrite', True)))
        if not F.check(r[0] == 'ok', 'incorporation fails', '%r %s' % (r[1], c)):
            return F
        src = mid
    sel = c.get('sel', [1, 1, 1, 1])
    rew = bool(c.get('rewrite', True))
    before = state(src)
    dbefore = {r: dict(getattr(dst, r)) for r in ('variables', 'parameters', 'constants', 'equations')}
    dexp = {k: list(v) for k, v in dst.exposed_vars.items()}
    dq = {id(o): quantity(o) for r in ('variables', 'parameters', 'constants') for o in dbefore[r].values()}
    r = attempt(dst.incorporateFromExternalModel, src, *[bool(x) for x in sel], rewrite_name=rew)
    F.check(state(src) == before, 'the source model is changed', c)
    names, want = {}, {}
    for i, reg in enumerate(('variables', 'parameters', 'constants')):
        for k, o in getattr(src, reg).items():
            names[k] = base(k, o.owner_model_name) + '_' + c['dst'] if rew else k
            if sel[i]:
                want[reg, names[k]] = o
    news = [n for (g, n) in want]
    need = {k for e in src.equations.values() for k in e.equation_expression.symbolic_map}
    known = set(news) | {k for g in ('variables', 'parameters', 'constants') for k in dbefore[g]}
    if len(set(names.values())) < len(names):
        return F            # two objects get one name
    if sel[3] and not {names[k] for k in need} <= known:
        F.check(r[0] == 'raise', 'an equation over objects that are not there is incorporated', c)
        return F
    if not F.check(r[0] == 'ok', 'incorporation fails', '%r %s' % (r[1], c)):
        return F
    for reg in ('variables', 'parameters', 'constants'):
        d = getattr(dst, reg)
        F.check(set(d) == set(dbefore[reg]) | {n for g, n in want if g == reg}, 'registry of %s' % reg, '%s %s' % (list(d), c))
        for k, o in dbefore[reg].items():
            if (reg, k) not in want:
                F.check(d.get(k) is o and quantity(o) == dq[id(o)], 'an object of the new owner is changed', c)
        for (g, n), o in want.items():
            if g != reg or n not in d:
                continue
            x = d[n]
            F.check(x is not o and type(x) is type(o), 'not a copy', c)
            F.check(x.name == n, 'name of a copy', '%s %s %s' % (x.name, n, c))
            F.check(x.owner_model_name == c['dst'], 'owner of a copy', c)
            q1, q2 = quantity(x), quantity(o)
            F.check(q1[1:6] == q2[1:6] and q1[7:] == q2[7:], 'a copy differs from its original', '%s %s %s' % (q1, q2, c))
            F.check(x.units is not o.units and x.units.dimension is not o.units.dimension, 'a copy shares its unit', c)
            F.check(getattr(dst, base(o.name, o.owner_model_name), None) is x or sum(base(y, z.owner_model_name) == base(o.name, o.owner_model_name) for q in ('variables', 'parameters', 'constants', 'equations') for y, z in getattr(src, q).items()) > 1,
                    'a copy is no attribute of the new owner', c)
    for t in ('input', 'output'):
        l = dst.exposed_vars[t]
        more = [dst.variables[names[k]] for k, o in src.variables.items() if sel[0] and o.is_exposed and o.type == t]
        F.check(len(l) == len(dexp[t]) + len(more) and all(a is b for a, b in zip(l, dexp[t] + more)), 'exposed variables', c)
    if not sel[3]:
        F.check(dst.equations == dbefore['equations'], 'equations not asked for', c)
    rng = random.Random(5)
    for k, e in (src.equations.items() if sel[3] else ()):
        n = base(k, e.owner_model_name) + '_' + c['dst'] if rew else k
        if not F.check(n in dst.equations, 'an equation is missing', '%s %s %s' % (n, list(dst.equations), c)):
            continue
        x = dst.equations[n]
        F.check(x is not e and x.name == n and x.owner_model_name == c['dst'] and x.type == e.type and x.equation_form == e.equation_form and x.description == e.description,
                'attributes of an incorporated equation', c)
        F.check(len(sides(x)) == len(sides(e)), 'sides of an incorporated equation', c)
        pool = {}
        for reg in ('constants', 'parameters', 'variables'):
            pool.update(dbefore[reg])
        for g, nn in want:
            pool[nn] = getattr(dst, g)[nn]
        for a, b in zip(sides(e), sides(x)):
            F.check({names[q] for q in a.symbolic_map} == set(b.symbolic_map) and all(b.symbolic_map[q] is pool.get(q) for q in b.symbolic_map),
                    'an incorporated equation does not refer to the copies', '%s %s %s' % (list(a.symbolic_map), list(b.symbolic_map), c))
            F.check({names[q] for q in a.variable_map} == set(b.variable_map) and all(b.variable_map[q] is pool.get(q) for q in b.variable_map),
                    'unknowns of an incorporated equation do not refer to the copies', '%s %s %s' % (list(a.variable_map), list(b.variable_map), c))
            F.check(a.equation_type == b.equation_type and dims(a.unit_object) == dims(b.unit_object) and a.latex_text == b.latex_text,
                    'attributes of an incorporated expression', c)
            for _ in range(3):
                env = {q: rng.uniform(0.3, 1.7) for q in names}
                env2 = {names[q]: env[q] for q in names}
                for q in names:
                    for q2 in names:
                        env['D:%s:%s' % (q, q2)] = env2['D:%s:%s' % (names[q], names[q2])] = rng.uniform(0.3, 2)
                for f in ('symbolic_object', 'repr_symbolic'):
                    if getattr(a, f) is None:
                        F.check(getattr(b, f) is None, 'representation', c)
                        continue
                    u = attempt(tree_value, getattr(a, f), env)
                    if u[0] != 'ok':
                        continue
                    v = attempt(tree_value, getattr(b, f), env2)
                    F.check(v[0] == 'ok' and close(u[1], v[1]), 'an incorporated equation denotes another formula (%s)' % f, '%s -> %s %s' % (getattr(a, f), getattr(b, f), c))
        F.check({names[q] for q in e.objects_declared} == set(x.objects_declared) and all(x.objects_declared[q] is pool.get(q) for q in x.objects_declared),
                'declared objects of an incorporated equation', c)
    F.check(dst.equations.keys() == set(dbefore['equations']) | ({base(k, e.owner_model_name) + '_' + c['dst'] if rew else k for k, e in src.equations.items()} if sel[3] else set()),
            'registry of equations', '%s %s' % (list(dst.equations), c))
    # later changes stay apart
    before = state(src)
    for reg in ('variables', 'parameters', 'constants'):
        for (g, n), o in want.items():
            if g == reg:
                x = getattr(dst, reg)[n]
                x.value = 77.25
                x.units.dimension['m'] = 5
                x.units.dimension['m'] = 0
                x.is_specified = True
                x.description = 'changed'
    for e in (dst.equations.values() if sel[3] else ()):
        for n in sides(e):
            n.symbolic_map.clear()
            n.variable_map.clear()
            n.equation_type['is_linear'] = 'changed'
            n.unit_object.dimension['kg'] = 9
    dst.variables.clear()
    F.check(state(src) == before, 'changing the new owner changes the source', c)
    return F


OB = [['variable', 'x', 1.5, None], ['variable', 'y', 2.5, 'input'], ['parameter', 'p', 3.0, None], ['constant', 'k', 4.0, None]]
EQ = [['e1', ['+', ['*', ['q', 'x'], ['q', 'k']], ['q', 'y']], None], ['e2', ['+', ['q', 'x'], ['q', 'p']], ['q', 'y']], ['e3', ['-', ['q', 'x'], ['q', 'y']], 2.5],
      ['e4', ['Exp', ['q', 'y']], ['*', ['q', 'x'], ['q', 'x']]], ['', ['+', ['q', 'y'], ['q', 'p']], 3]]


def gen_cases(rng, tier):
    for sel in itertools.product([1, 0], repeat=4):
        yield dict(kind='inc', src='m1', dst='m2', objs=OB, eqs=EQ, sel=list(sel))
        yield dict(kind='inc', src='m1', dst='m2', objs=OB, eqs=[['e1', ['+', ['D', 'x', 'y'], ['q', 'x']], ['q', 'p']], ['e2', ['-', ['D', 'x', 'y'], ['q', 'p']], None]], sel=list(sel))
    yield dict(kind='inc', src='m1', dst='m2', objs=OB, eqs=EQ, sel=[1, 1, 1, 1], rewrite=False)
    yield dict(kind='inc', src='m1', dst='m2', objs=OB, eqs=EQ, sel=[1, 1, 1, 1], through='m3')
    yield dict(kind='inc', src='m1', dst='m2', objs=OB, eqs=EQ, sel=[1, 1, 1, 1], through='m3', trewrite=False)
    for sd in (['q', 'x'], ['+', ['q', 'x'], ['q', 'p']], ['Exp', ['q', 'y']]):
        for rw in (True, False):
            yield dict(kind='inc', src='m1', dst='m2', objs=OB, eqs=[['e1', sd, sd]], sel=[1, 1, 1, 1], rewrite=rw)
    # the new name of one object is the old name of another
    for dep in (['-', ['q', 'x'], ['*', ['q', 'x_m2'], ['q', 'x_m2']]], ['+', ['*', ['q', 'x'], ['q', 'x']], ['-', ['q', 'x_m2'], ['q', 'x_m2_m2']]]):
        for ks in itertools.product(KINDS, repeat=2):
            yield dict(kind='inc', src='m2', dst='m2', through='m3', trewrite=False, objs=[[ks[0], 'x', 1.5, None], [ks[1], 'x_m2', 2.5, None], [ks[1], 'x_m2_m2', 3.5, None]],
                       eqs=[['e1', dep, None], ['e2', dep, ['q', 'x_m2']]], sel=[1, 1, 1, 1])
            yield dict(kind='inc', src='m1', dst='m2', objs=[[ks[0], 'x', 1.5, None], [ks[1], 'x_m2', 2.5, None], [ks[1], 'x_m2_m2', 3.5, None]],
                       eqs=[['e1', dep, None], ['e2', dep, ['q', 'x_m2']]], sel=[1, 1, 1, 1])
    names = ['x', 'x_a', 'y', 'a', 'm1', 'x_m1', 'k', 'E', 'value2', 'T_in', 'm', 'x_m']
    models = ['m1', 'm', 'a_m1', 'a', 'x', 'm1_m1', 'm2', 'a_m1_a']
    n = 400 if tier == 'quick' else 5000
    for _ in range(n):
        s, d = rng.sample(models, 2)
        ns = rng.sample(names, rng.randint(1, 4))
        objs = [[rng.choice(KINDS), x, round(rng.uniform(0.5, 3), 2), None] for x in ns]
        for o in objs:
            if o[0] == 'variable' and rng.random() < 0.4:
                o[3] = rng.choice(['input', 'output'])

        def t(depth):
            if depth == 0 or rng.random() < 0.2:
                return ['q', rng.choice(ns)]
            if rng.random() < 0.2:
                return ['Exp', t(depth - 1)]
            return [rng.choice('+-*'), t(depth - 1), t(depth - 1) if rng.random() < 0.8 else rng.choice([2, 0.5])]
        eqs = []
        for i in range(rng.randint(0, 3)):
            eqs.append(['e%d' % i if rng.random() < 0.9 else rng.choice(ns), t(2), rng.choice([None, 2.5, 3, t(1)])])
        dn = rng.sample(names, rng.randint(0, 2))
        yield dict(kind='inc', src=s, dst=d, objs=objs, eqs=eqs, sel=[int(rng.random() < 0.85) for _ in range(4)], rewrite=rng.random() < 0.85,
                   dobjs=[[rng.choice(KINDS), x, 9.0, None] for x in dn], **(dict(through=rng.choice([m for m in models if m not in (s, d)]), trewrite=rng.random() < 0.7)
                                                                            if rng.random() < 0.2 else {}))
