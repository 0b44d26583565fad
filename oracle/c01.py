from .lib import *
from .lib import TEMPL


def run_case(case):
    F = Fails()
    Unit = get(C + 'unit', 'Unit')
    k = case['kind']
    if k == 'ctor':
        d = dict(case['dims'])
        src = dict(d)
        r = attempt(Unit, 'n', d)
        if F.check(r[0] == 'ok', 'unit construction raises', r):
            F.check(same_dims(dims(r[1]), [src.get(x, 0) for x in DIMS]), 'exponents of a new unit', case)
            F.check(d == src, 'unit construction changed its argument')
            r[1].dimension['m'] = 77
            F.check(d == src, 'unit shares state with its argument')
        return F
    if k == 'templates':
        from copy import deepcopy
        for n, want in TEMPL.items():
            u = get(C + 'template_units', n)
            F.check(same_dims(dims(u), [want.get(x, 0) for x in DIMS]), 'exponents of template unit ' + n, dims(u))
        us = [get(C + 'template_units', n) for n in TEMPL]
        for i, a in enumerate(us):
            for b in us[i + 1:]:
                F.check(a is b or a.dimension is not b.dimension, 'template units share state')
        return F
    a = U(case['a'], case.get('an', 'a'), 'da')
    if k == 'ctoru':
        r = Unit('n', a)
        F.check(same_dims(dims(r), case['a']), 'unit made from a unit')
        r.dimension['s'] = 99
        F.check(dims(a) == list(case['a']), 'unit made from a unit shares state')
        return F
    if k == 'bad':
        r = attempt({'*': lambda: a * None, '/': lambda: a / 'text', '**': lambda: a ** 'text'}[case['op']])
        F.check(r[0] == 'raise', 'unit arithmetic with a foreign operand accepted')
        F.check(dims(a) == list(case['a']), 'operand changed')
        return F
    ops = [a]
    if k == 'binop':
        b = a if case.get('same') else U(case['b'], 'b')
        bd = dims(b)
        ops.append(b)
        r = attempt(lambda: a * b if case['op'] == '*' else (a.__div__(b) if case.get('meth') else a / b))
        s = 1 if case['op'] == '*' else -1
        want = [x + s * y for x, y in zip(case['a'], bd)]
    elif k == 'pow':
        r = attempt(lambda: a ** case['n'])
        want = [x * case['n'] for x in case['a']]
    elif k == 'powu':
        b = U(case['b'], 'b')
        ops.append(b)
        r = attempt(lambda: a ** b)
        want = list(case['a'])
    elif k == 'scale':
        n = case['n']
        if case['op'] == '/' and n == 0:
            return F
        r = attempt(lambda: a * n if case['op'] == '*' else (a.__div__(n) if case.get('meth') else a / n))
        want = list(case['a'])
    else:
        return F
    befores = [list(case['a'])] + ([list(case['b'])] if len(ops) > 1 and ops[1] is not a else [])
    if not F.check(r[0] == 'ok', 'unit operation %s raises' % k, r):
        return F
    u = r[1]
    if k == 'scale':
        F.check(isinstance(u, get(C + 'quantity', 'Quantity')), 'scaling a unit does not give a quantity')
        F.check(close(u.value, n if case['op'] == '*' else 1.0 / n), 'scaling a unit loses the number', u.value)
        u = u.units
    F.check(isinstance(u, Unit) and set(u.dimension) == set(DIMS), 'result is not a unit over the seven dimensions')
    F.check(same_dims(dims(u), want), '%s %s: wrong exponents' % (k, case.get('op', '')), '%s != %s' % (dims(u), want))
    for o, w in zip(ops, befores):
        F.check(dims(o) == w, 'operand changed', case)
        F.check(o is not u and o.dimension is not u.dimension, 'result shares state with an operand')
    for d in DIMS:
        u.dimension[d] = 1234
    for o, w in zip(ops, befores):
        F.check(dims(o) == w, 'operand changed through the result', case)
    return F


def gen_cases(rng, tier):
    yield dict(kind='templates')
    z = [0] * 7
    ex = [0, 0, 1, -1, 2, 0.5, -3.25, 1e-3, 1 / 3, -2.0000004, 1e-9, 12345678.5, 0.1]
    for i in range(7):
        a = list(z)
        a[i] = 2
        b = list(z)
        b[(i + 1) % 7] = 3
        for op in '*/':
            for x, y in ((a, b), (b, a), (a, a), (z, a), (a, z)):
                yield dict(kind='binop', op=op, a=x, b=y)
            yield dict(kind='binop', op='/', a=a, b=b, meth='__div__')
            yield dict(kind='scale', op=op, a=a, n=2.5)
            yield dict(kind='scale', op=op, a=a, n=4)
        for n in (2, 0.5, -1, 0, -2.5):
            yield dict(kind='pow', a=a, n=n)
        yield dict(kind='powu', a=a, b=z)
        yield dict(kind='ctor', dims=[[DIMS[i], 1.5]])
        yield dict(kind='ctoru', a=a)
    for _ in range(400 if tier == 'quick' else 10000):
        a, b = [rng.choice(ex) for _ in range(7)], [rng.choice(ex) for _ in range(7)]
        k = rng.choice(['binop', 'pow', 'scale', 'powu', 'ctor', 'ctoru', 'bad'])
        c = dict(kind=k, a=a, op=rng.choice('*/'))
        if k == 'binop':
            c['b'] = b
            if rng.random() < 0.1:
                c['same'] = True
        if k in ('pow', 'scale'):
            c['n'] = rng.choice([2, 3, -1, 0.5, 1e-3, -7.25, 10, 1, 1 / 3, 1e-8, 1e7])
            if k == 'scale' and c['op'] == '/' and rng.random() < .5:
                c['meth'] = True
        if k == 'powu':
            c['b'] = z
        if k == 'ctor':
            ks = rng.sample(DIMS, rng.randint(0, 7))
            c = dict(kind='ctor', dims=[[x, rng.choice(ex)] for x in ks])
        if k == 'bad':
            c['op'] = rng.choice(['*', '/', '**'])
        yield c
