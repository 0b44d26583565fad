from .lib import *


def variable(name):
    return get(C + 'variable', 'Variable')(name, U([0] * 7))


def run_case(c):
    import numpy as np
    F = Fails()
    Dm = get(C + 'domain', 'Domain')
    if c['kind'] == 'ctor':
        vs = [variable('t%d' % i) for i in range(c['n'])]
        d = Dm('d', U([0] * 7), list(vs) if c['aslist'] else vs[0], 'text')
        d2 = Dm('e', U([0] * 7), list(vs) if c['aslist'] else vs[0])
        F.check(list(d.independent_vars) == [v.name for v in vs] and all(a is b for a, b in zip(d.independent_vars.values(), vs)), 'independent variables', c)
        F.check(len(d.dependent_objs) == 0 and d.values is None and d.is_set is False and d.name == 'd', 'a new domain', c)
        x = variable('x')
        x.distributeOnDomain(d)
        F.check(len(d2.dependent_objs) == 0 and d2.values is None, 'domains share state', c)
        return F
    nind = c.get('nind', 1)
    ts = [variable('t%d' % i) for i in range(nind)]
    d = Dm('d', U([0] * 7), ts[0] if nind == 1 else ts)
    other = Dm('o', U([0] * 7), variable('t0'))
    deps = []
    heads, rows = {}, {}
    cur = 0.0
    rng = __import__('random').Random(c.get('seed', 1))

    def check(what):
        if not heads:
            return
        F.check(list(d.values) == [t.name for t in ts], what + ': tables', c)
        for t in ts:
            df = d.values[t.name]
            F.check(list(df.columns) == heads[t.name], what + ': headings', '%r %r %s' % (list(df.columns), heads[t.name], c))
            want = rows[t.name]
            got = df.values
            F.check(got.shape[0] == len(want) and (not want or np.array_equal(np.array(got, dtype=float), np.array(want))), what + ': rows', '%r %r %s' % (got, want, c))
            if want and len(set(heads[t.name])) == len(heads[t.name]):
                hs = list(heads[t.name])
                one = rng.choice(hs)
                r = attempt(lambda: d[t.name, one])
                F.check(r[0] == 'ok' and np.array_equal(np.array(r[1], dtype=float).reshape(-1), [x[hs.index(one)] for x in want]), what + ': reading one heading', c)
                rng.shuffle(hs)
                r = attempt(lambda: d[t.name, hs])
                col = [[x[heads[t.name].index(h)] for x in want] for h in hs]
                F.check(r[0] == 'ok' and np.array_equal(np.array(r[1], dtype=float), np.array(col)), what + ': reading headings', c)
        F.check([id(x) for x in d.dependent_objs.values()] == [id(x) for x in deps], what + ': dependent objects', c)
        F.check(len(other.dependent_objs) == 0 and other.values is None, what + ': another domain', c)

    def reset():
        for t in ts:
            heads[t.name] = [x.name for x in ts] + [x.name for x in deps]
            rows[t.name] = []
    for i, st in enumerate(c['steps']):
        k = st[0]
        if k == 'distribute':
            if any(x.name == st[1] for x in deps):
                continue
            v = variable(st[1])
            deps.append(v)
            v.distributeOnDomain(d)
            F.check(v.domain is d and d.is_set, 'the variable does not know its domain', c)
            reset()
        elif not heads:
            continue
        elif k == 'reset':
            d._reset()
            reset()
        elif k == 'rename':
            t = ts[-1]
            m = {h: 'new%d_%s' % (i, h) for h in heads[t.name] if rng.random() < .6}
            m['absent'] = 'x'
            d._renameHeaders(m)
            for u in ts:
                heads[u.name] = [m.get(h, h) for h in heads[u.name]]
        else:
            w = len(ts) + len(deps) + (0 if k == 'register' else st[2] if len(st) > 2 else 1)
            n = st[1]
            data = []
            for _ in range(n):
                cur += 1
                if data and rng.random() < .3:
                    data.append(list(rng.choice(data)))      # a row may repeat
                else:
                    data.append([cur * (-1 if rng.random() < .4 else 1) + 0.01 * j for j in range(w)])
            if not data or w <= 0:
                continue
            explicit = nind > 1 and rng.random() < .7
            t = rng.choice(ts) if explicit else ts[-1]
            arg = data if rng.random() < .5 else np.array(data)
            r = attempt(d._register, arg, t) if explicit else attempt(d._register, arg)
            if k == 'register':
                if F.check(r[0] == 'ok', 'rows of the right width are refused', '%r %s' % (r[1], c)):
                    rows[t.name] = rows[t.name] + data
            else:
                F.check(r[0] == 'raise', 'rows of the wrong width are accepted', c)
        check(k)
        if F:
            break
    return F


def gen_cases(rng, tier):
    for n in (1, 2, 3):
        for l in (True, False):
            if l or n == 1:
                yield dict(kind='ctor', n=n, aslist=l)
    names = ['a', 'b', 'T_M', 'x y', 'Time', 'z']
    for n in range(600 if tier == 'quick' else 6000):
        steps = []
        for i in range(rng.randint(1, 10)):
            k = rng.choice(['distribute', 'distribute', 'register', 'register', 'register', 'wrong', 'reset', 'rename'])
            steps.append([k] if k in ('reset', 'rename') else [k, rng.choice(names)] if k == 'distribute' else [k, rng.choice([1, 1, 2, 3, 7])] + ([rng.choice([1, -1, 2])] if k == 'wrong' else []))
        yield dict(kind='history', nind=rng.choice([1, 1, 1, 2, 3]), steps=[['distribute', 'a']] + steps, seed=n)
