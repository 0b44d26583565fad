import zlib
from .lib import *
from . import fakethermo

fakethermo.install()
STREAMS = ['HomogeneousMaterialStream', 'MaterialStream', 'MultiphasicMaterialStream']
Q = ['mdot', 'ndot', 'P', 'H', 'T']
UN = {'mdot': [0, 1, -1, 0, 0, 0, 0], 'ndot': [0, 0, -1, 0, 0, 1, 0], 'P': [-1, 1, -2, 0, 0, 0, 0], 'H': [2, 1, -2, 0, 0, -1, 0], 'T': [0, 0, 0, 0, 1, 0, 0]}


def run_case(c):
    F = Fails()
    rng = random.Random(c['seed'])
    kind = c.get('stream') or rng.choice(STREAMS)
    phases = c.get('phases', rng.sample(['water', 'hexane', 'ethanol', 'w2'], rng.randint(1, 3)))
    PP = get(C + 'property_package', 'PropertyPackage')
    with_pp = kind.startswith('Multi') or c.get('package', rng.random() < .8)
    pp = PP(phase_names=phases) if with_pp else None
    s = get(S + 'unit_op_library', kind)('st', property_package=pp)
    given = c.get('given')
    if given is None:
        given = {k: rng.choice([0., 1., 2.5, 300., 101325., 7, -3.5, 1e-6, 12345.678]) for k in Q if rng.random() < .5}
    un = get(C + 'unit', 'Unit')
    for k, v in given.items():
        q = getattr(s, k)
        if rng.random() < .3:
            q.setValue(v, U(UN[k]))
        else:
            q.setValue(v)
    names = {k: getattr(s, k).name for k in Q}
    objs = {k: getattr(s, k) for k in Q}
    others = {n: p for n, p in s.parameters.items() if n not in names.values()}
    set_ = {}
    for n, p in others.items():
        if rng.random() < .5:
            set_[n] = rng.random()
            p.setValue(set_[n])
    calls = []
    if pp is not None:
        for n, ph in pp.phases.items():
            def calc(T=None, P=None, n=n):
                calls.append((n, T, P))
            ph.calculate = calc
    MW = pp.phases[phases[-1]].MW if pp else None
    times = c.get('times', rng.choice([1, 1, 2]))
    how = c.get('how', rng.choice(['prepare', 'call']))
    want = dict(given)
    if pp is not None:
        if 'mdot' in given and 'ndot' not in given:
            want['ndot'] = given['mdot'] / (MW * 1e-3)
        if 'ndot' in given and 'mdot' not in given:
            want['mdot'] = given['ndot'] * MW * 1e-3
    for i in range(times):
        r = attempt(s.DeclareParameters if how == 'prepare' else s)
        F.check(r[0] == 'ok', 'preparation', '%s %s %s: %r' % (kind, given, 'with package' if pp else 'without package', r[1]))
    for k in Q:
        q = getattr(s, k)
        F.check(q is objs[k] and s.parameters.get(names[k]) is q, 'parameter ' + k, 'replaced')
        F.check((q.is_specified is True) == (k in want), 'specified: ' + k, '%s, given %s: %s' % (kind, given, q.is_specified))
        if k in want:
            F.check(close(q.value, want[k]), 'value of ' + k, '%s, given %s, MW %s: %r instead of %r' % (kind, given, MW, q.value, want[k]))
        if k in given:
            F.check(q.value == given[k], 'given value of ' + k, '%r instead of %r' % (q.value, given[k]))
        F.check(dims(q.units) == UN[k], 'unit of ' + k, str(dims(q.units)))
    for n, p in others.items():
        F.check((p.is_specified is True) == (n in set_) and (n not in set_ or p.value == set_[n]), 'other parameters', n)
    if pp is not None:
        F.check(s.property_package is pp and list(pp.phases) == phases, 'package')
        T, P = ('T' in given), ('P' in given)
        exp = [(n, float(given['T']) if T else 298.15, float(given['P']) if P else 101325) for n in phases] * times if T or P else []
        F.check([(a, float(b), float(d)) for a, b, d in calls] == [(a, b, float(d)) for a, b, d in exp], 'conditions of the package', 'given %s: %s' % (given, calls[:4]))
    return F


def gen_cases(rng, tier):
    for kind in STREAMS:
        for m in range(32):
            for pk in (True, False):
                given = {k: 2.5 + i for i, k in enumerate(Q) if m >> i & 1}
                yield dict(kind=kind, stream=kind, package=pk, given=given, seed=rng.randrange(10 ** 6))
    for i in range(400 if tier == 'quick' else 4000):
        yield dict(kind='any', seed=rng.randrange(10 ** 6))
