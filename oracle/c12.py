from .lib import *

Z = [0] * 7
UNITS = [Z, [1, 0, 0, 0, 0, 0, 0], [0, 1, -1, 0, 0, 0, 0]]


def world(c, rng):
    M, P = get(S + 'model', 'Model'), get(S + 'problem', 'Problem')
    ms = []
    for i, n in enumerate(c.get('mnames', ['A', 'B', 'D'])):
        m = M(n)
        m.vs = {'input': [], 'output': [], '': []}
        for t in ('input', 'output', ''):
            for j in range(c.get('nv', 3)):
                kw = dict(is_exposed=True, type=t) if t else {}
                m.vs[t].append(m.createVariable('%s%d' % (t[:1] or 'h', j), U(UNITS[c.get('u', 0)]), value=rng.choice([0., 1.5]), **kw))
        ms.append(m)
    p = P('prob')
    p.addModels(ms)
    return p, ms


def state(p, ms):
    return ([(k, id(v)) for k, v in p.connections.items()], list(p.models), [list(m.equations) for m in ms], [[id(e) for e in m.equations.values()] for m in ms],
            [{t: [id(v) for v in l] for t, l in m.exposed_vars.items()} for m in ms], [list(m.variables) for m in ms],
            [[(v.name, v.value, v.is_specified, dims(v.units)) for v in m.variables.values()] for m in ms])


def residual(eq, vals):
    return float(eq.equation_expression.symbolic_object.subs(vals))


def run_case(c):
    F = Fails()
    rng = random.Random(c['seed'])
    p, ms = world(c, rng)
    out_m, in_m = ms[c.get('from', 0)], ms[c.get('to', 1)]
    Ex_ = get(C + 'error_definitions', 'ExposedVariableError')
    E, CO = get(C + 'equation', 'Equation'), get(S + 'connection', 'Connection')
    seen = []
    for step in range(c.get('steps', 1)):
        if c['kind'] == 'vars':
            pool = lambda m, t, bad: [(m.vs[t][i], True) for i in rng.sample(range(len(m.vs[t])), rng.randint(1, len(m.vs[t])))]
            outs, ins = pool(out_m, 'output', 0), pool(in_m, 'input', 0)
            if c.get('bad'):
                which = outs if rng.random() < .5 else ins
                own = out_m if which is outs else in_m
                oth = in_m if which is outs else out_m
                t = 'output' if which is outs else 'input'
                cand = [(v, False) for v in own.vs['']] + [(v, False) for v in own.vs['input' if t == 'output' else 'output']]
                if own is not oth:
                    cand += [(v, False) for v in oth.vs[t]]
                which[rng.randrange(len(which))] = rng.choice(cand)
            if c.get('scalar_out'):
                outs = outs[:1]
            if c.get('scalar_in'):
                ins = ins[:1]
            ok = all(f for _, f in outs + ins)
            o, i = [v for v, _ in outs], [v for v, _ in ins]
            a, b = (o[0] if c.get('scalar_out') else list(o)), (i[0] if c.get('scalar_in') else list(i))
            kw = {}
            if c.get('expr'):
                kw['expr'] = i[0]() * 2.0 - o[0]() if c['expr'] == 1 else (i[0]() == o[0]() * 3.0)
            if c.get('desc'):
                kw['description'] = 'text'
            before = state(p, ms)
            r = attempt(p.createConnection, out_m, in_m, a, b, **kw)
            if not ok:
                F.check(r[0] == 'raise', 'variables that are not exposed are connected', c)
                if r[0] == 'raise':
                    F.check(type(r[1]) is Ex_ and bool(attempt(str, r[1])[0] == 'ok'), 'the refusal is not an exposed-variable error', '%r %s' % (r[1], c))
                F.check(state(p, ms) == before, 'a refused connection changes something', c)
                continue
            if not F.check(r[0] == 'ok', 'exposed variables are not connected', '%r %s' % (r[1] if r[0] == 'raise' else '', c)):
                continue
            key = (tuple(v.name for v in o), tuple(v.name for v in i))
            fresh = key not in [k for k, _ in seen]
            seen.append((key, None))
            eqs = list(in_m.equations.values())
            old_ids = before[3][ms.index(in_m)]
            new = [e for e in eqs if id(e) not in old_ids]
            F.check(len(new) == 1 and (not fresh or len(eqs) == len(old_ids) + 1), 'not exactly one equation is added', '%d %d %s' % (len(new), len(eqs), c))
            F.check(all(list(m.equations.values()) == [] or m is in_m or [id(e) for e in m.equations.values()] == before[3][k] for k, m in enumerate(ms)), 'another model is changed', c)
            F.check(state(p, ms)[4:] == before[4:] and list(p.models) == before[1], 'a variable or registry is changed', c)
            if not new:
                continue
            e = new[0]
            F.check([k for k, v in in_m.equations.items() if v is e] == [e.name], 'the equation is not registered under its name', c)
            vals = {v.name: rng.uniform(.5, 2) for m in ms for v in m.variables.values()}
            if c.get('expr') == 1:
                w = 2 * vals[i[0].name] - vals[o[0].name]
            elif c.get('expr') == 2:
                w = vals[i[0].name] - 3 * vals[o[0].name]
            else:
                w = sum(vals[v.name] for v in i) - sum(vals[v.name] for v in o)
            F.check(close(residual(e, vals), w), 'the equation is not what was stated', '%r %r %s' % (residual(e, vals), w, c))
            decl = {v.name for v in (i[:1] + o[:1] if c.get('expr') else i + o)}
            F.check(set(e.objects_declared) == decl, 'declared objects of the connection', '%r %s' % (list(e.objects_declared), c))
            F.check(isinstance(e, E) and e.output_var_name == ','.join(v.name for v in o) and e.input_var_name == ','.join(v.name for v in i), 'outputs and inputs of the connection are not recorded',
                    '%r %r %s' % (e.output_var_name, e.input_var_name, c))
            F.check([v for v in p.connections.values() if v is e] == [e] and len(p.connections) == len(before[0]) + fresh, 'the connection is not recorded once in the problem', c)
            F.check(all(k in p.connections and id(p.connections[k]) == v for k, v in before[0]) or not fresh, 'an earlier connection is lost', c)
        else:
            n1 = {'model': out_m, 'str': 'feed', 'empty': '', 'mixed': rng.choice([out_m, 'feed', '', 'other'])}[c['kind']]
            x, y = rng.choice(out_m.vs['output']), rng.choice(in_m.vs['input'])
            k1, k2 = rng.choice([1.0, 2.0]), rng.choice([1.0, 3.0])
            before = state(p, ms)
            r = attempt(p.createConnection, n1, in_m, x() * k1, y() * k2)
            if not F.check(r[0] == 'ok', 'expressions are not connected', '%r %s' % (r[1] if r[0] == 'raise' else '', c)):
                continue
            eqs = list(in_m.equations.values())
            old = before[3][ms.index(in_m)]
            new = [e for e in eqs if id(e) not in old]
            F.check(len(new) == 1 and len(eqs) == len(old) + 1, 'connecting expressions does not add one equation', '%d of %d %s' % (len(eqs), len(old) + 1, c))
            F.check([m for k, m in enumerate(ms) if m is not in_m and [id(e) for e in m.equations.values()] != before[3][k]] == [], 'another model is changed', c)
            F.check(state(p, ms)[4:] == before[4:] and state(p, ms)[0] == before[0], 'connecting expressions changes a variable or registry', c)
            if new:
                vals = {v.name: rng.uniform(.5, 2) for m in ms for v in m.variables.values()}
                w = k2 * vals[y.name] - k1 * vals[x.name]
                F.check(close(residual(new[0], vals), w), 'the equation is not what was stated', '%r %r %s' % (residual(new[0], vals), w, c))
    return F


def gen_cases(rng, tier):
    for so in (0, 1):
        for si in (0, 1):
            for ex in (0, 1, 2):
                for bad in (0, 1):
                    for s in range(3):
                        yield dict(kind='vars', scalar_out=so, scalar_in=si, expr=ex, bad=bad, seed=s)
    for k in ('model', 'str', 'empty', 'mixed'):
        for st in (1, 2, 4):
            yield dict(kind=k, steps=st, seed=st)
    for n in range(200 if tier == 'quick' else 3000):
        a, b = rng.sample(range(3), 2) if rng.random() < .9 else (0, 0)
        yield dict(kind=rng.choice(['vars'] * 4 + ['model', 'str', 'empty', 'mixed']), scalar_out=rng.random() < .4, scalar_in=rng.random() < .4, expr=rng.choice([0, 0, 0, 1, 2]),
                   bad=rng.random() < .3, steps=rng.randint(1, 4), nv=rng.randint(1, 4), u=rng.randint(0, 2), desc=rng.random() < .3,
                   seed=rng.randrange(10 ** 6), **{'from': a, 'to': b})
