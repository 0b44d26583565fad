from .lib import *


def extra(case):
    F = Fails()
    k = case['kind']
    if k in ('coh', 'uadd', 'usub'):
        a, b = U(case['a'], 'a'), U(case['b'], 'b')
        same = list(case['a']) == list(case['b'])
        if k == 'coh':
            F.check(bool(a._check_dimensional_coherence(b)) == same, 'coherence of units', case)
        else:
            r = attempt(lambda: a + b if k == 'uadd' else a - b)
            F.check((r[0] == 'ok') == same, 'unit %s: accepted iff coherent' % k, case)
            if r[0] == 'ok' and same:
                F.check(same_dims(dims(r[1]), case['a']), 'unit %s: result' % k)
    elif k == 'dimless':
        F.check(bool(U(case['a'])._is_dimensionless()) == (not any(case['a'])), 'dimensionless test', case)
    elif k == 'upow':
        r = attempt(lambda: U(case['a']) ** U(case['b']))
        F.check((r[0] == 'ok') == (not any(case['b'])), 'unit exponent accepted iff dimensionless', case)
    return F


def more(rng, tier):
    z = [0] * 7
    vals = [1, -1, 0.5, 2.0, 1e-9]
    for i in range(7):
        for v in vals:
            a = list(z)
            a[i] = v
            for k in ('coh', 'uadd', 'usub', 'upow'):
                yield dict(kind=k, a=a, b=z)
                yield dict(kind=k, a=z, b=a)
                yield dict(kind=k, a=a, b=list(a))
            yield dict(kind='dimless', a=a)
            for j in range(7):
                if j != i:
                    b = list(z)
                    b[i], b[j] = -v, v
                    yield dict(kind='dimless', a=b)
                    c = list(z)
                    c[j] = v
                    yield dict(kind='coh', a=a, b=c)
                    yield dict(kind='upow', a=z, b=b)
    yield dict(kind='dimless', a=z)
    for _ in range(300):
        a = [rng.choice([0, 0, 1, -1, 2, 0.5]) for _ in range(7)]
        b = list(a) if rng.random() < 0.5 else [rng.choice([0, 0, 1, -1, 2, 0.5]) for _ in range(7)]
        yield dict(kind=rng.choice(['coh', 'uadd', 'usub', 'upow']), a=a, b=b)


run_case, gen_cases = expr_oracle({'C02'}, extra, more)
