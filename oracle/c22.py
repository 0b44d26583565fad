from .lib import *
from . import fakethermo

fakethermo.install()
UNITS = ['Mixer', 'Splitter', 'Valve', 'SimplePump', 'Heater', 'Cooler', 'Tank', 'Fermenter']
UN = dict(ndot=(0, 0, -1, 0, 0, 1, 0), mdot=(0, 1, -1, 0, 0, 0, 0), P=(-1, 1, -2, 0, 0, 0, 0), T=(0, 0, 0, 0, 1, 0, 0), H=(2, 1, -2, 0, 0, -1, 0),
          Qdot=(3, 0, -1, 0, 0, 0, 0), Q=(2, 1, -3, 0, 0, 0, 0), Delta=(-1, 1, -2, 0, 0, 0, 0), perc=(0,) * 7, cp=(2, 0, -2, 0, -1, 0, 0), z=(0,) * 7, w=(0,) * 7,
          N=(0, 0, 0, 0, 0, 1, 0), M=(0, 1, 0, 0, 0, 0, 0), E=(2, 1, -2, 0, 0, 0, 0), level=(1, 0, 0, 0, 0, 0, 0), t=(0, 0, 1, 0, 0, 0, 0), area=(2, 0, 0, 0, 0, 0, 0))
PORTS = ['%s_%s' % (q, d) for q in ('ndot', 'mdot', 'P', 'T', 'H') for d in ('in', 'out')]
EXTRA = {'Valve': ['Qdot_out', 'Delta_P', 'perc_open'], 'SimplePump': ['Delta_P'], 'Heater': ['Delta_P', 'Q'], 'Cooler': ['Delta_P', 'Q']}
TANKS = ('Tank', 'Fermenter')
HOLD = ['N', 'M', 'E', 'level']
TANK = ['%s_%s' % (q, d) for q in ('ndot', 'mdot', 'H') for d in ('in', 'out')] + ['P_In', 'P_Out', 'Q', 'area_sec', 't'] + HOLD


def laws(kind, rho, cp, phases):
    """name -> (f, variable, its value making the law hold); f(v) vanishes exactly when the law holds"""
    R = {}

    def law(n, f, k, solve):
        R[n] = (f, k, solve)
    if kind in TANKS:
        law('mole balance', lambda v: v['dN'] - v['ndot_in'] + v['ndot_out'], 'dN', lambda v: v['ndot_in'] - v['ndot_out'])
        law('mass balance', lambda v: v['dM'] - v['mdot_in'] + v['mdot_out'], 'dM', lambda v: v['mdot_in'] - v['mdot_out'])
        law('energy balance', lambda v: v['dE'] - v['ndot_in'] * v['H_in'] + v['ndot_out'] * v['H_out'] - v['Q'], 'dE',
            lambda v: v['ndot_in'] * v['H_in'] - v['ndot_out'] * v['H_out'] + v['Q'])
        law('level balance', lambda v: v['dlevel'] * rho * v['area_sec'] - v['mdot_in'] + v['mdot_out'], 'dlevel', lambda v: (v['mdot_in'] - v['mdot_out']) / (rho * v['area_sec']))
        law('pressure relation', lambda v: v['P_Out'] - v['P_In'], 'P_Out', lambda v: v['P_In'])
        return R
    heat = kind in ('Heater', 'Cooler')
    q = (lambda v: v['Q']) if heat else (lambda v: 0.)
    dp = {'Valve': lambda v: -v['Delta_P'], 'SimplePump': lambda v: v['Delta_P'], 'Heater': lambda v: -v['Delta_P'], 'Cooler': lambda v: -v['Delta_P']}.get(kind, lambda v: 0.)
    law('mole balance', lambda v: v['ndot_in'] - v['ndot_out'], 'ndot_out', lambda v: v['ndot_in'])
    law('mass balance', lambda v: v['mdot_in'] - v['mdot_out'], 'mdot_out', lambda v: v['mdot_in'])
    law('energy balance', lambda v: v['ndot_in'] * v['H_in'] + q(v) - v['ndot_out'] * v['H_out'], 'H_out', lambda v: (v['ndot_in'] * v['H_in'] + q(v)) / v['ndot_out'])
    law('pressure relation', lambda v: v['P_out'] - v['P_in'] - dp(v), 'P_out', lambda v: v['P_in'] + dp(v))
    if heat:
        law('temperature relation', lambda v: v['mdot_out'] * cp * (v['T_out'] - v['T_in']) - v['Q'], 'T_out', lambda v: v['T_in'] + v['Q'] / (v['mdot_out'] * cp))
    else:
        law('temperature relation', lambda v: v['T_out'] - v['T_in'], 'T_out', lambda v: v['T_in'])
    if kind == 'Valve':
        law('volumetric flow', lambda v: v['Qdot_out'] * rho - v['perc_open'] * v['mdot_out'], 'Qdot_out', lambda v: v['perc_open'] * v['mdot_out'] / rho)
    if len(phases) > 1:
        mix = kind in ('Mixer', 'Splitter')
        for a in 'zw':
            for x in phases[:-1] if mix else phases:
                o, i = '%s_%s_out' % (a, x), '%s_%s_in' % (a, x)
                law('%s fraction of %s' % (a, x), lambda v, o=o, i=i: v[o] - v[i], o, lambda v, i=i: v[i])
            if mix:
                for d in ('in', 'out'):
                    ks = ['%s_%s_%s' % (a, x, d) for x in phases]
                    law('%s fractions %s' % (a, d), lambda v, ks=ks: sum(v[k] for k in ks) - 1, ks[-1], lambda v, ks=ks: 1 - sum(v[k] for k in ks[:-1]))
    return R


def run_case(c):
    import sympy as sp
    F = Fails()
    rng = random.Random(c['seed'])
    kind = c.get('kind') or rng.choice(UNITS)
    phases = c.get('phases') or [rng.choice(['water', 'hexane', 'ethanol'])]
    PP = get(C + 'property_package', 'PropertyPackage')
    pp = PP(phases=len(phases), phase_names=phases)
    if rng.random() < .5:
        pp.calculate(T=rng.uniform(280, 400), P=2e5)
    rho, cp = pp.phases[phases[-1]].rho, pp.phases[phases[-1]].Cp
    name = rng.choice(['u1', 'mix', 'P_in', 'a_b'])
    kw = dict(description='some unit') if rng.random() < .5 else {}
    if kind == 'Tank' and rng.random() < .7:
        kw['orientation'] = rng.choice(['vertical', 'horizontal', ''])
    r = attempt(get(S + 'unit_op_library', kind), name, property_package=pp, **kw)
    F.check(r[0] == 'ok', 'creation', '%s: %r' % (kind, r[1]))
    if r[0] != 'ok':
        return F
    u = r[1]
    names = TANK if kind in TANKS else PORTS + EXTRA.get(kind, []) + (['%s_%s_%s' % (a, x, d) for a in 'zw' for x in phases for d in ('in', 'out')] if len(phases) > 1 else [])
    q = {k: getattr(u, k, None) for k in names}
    if not F.check(all(o is not None for o in q.values()), 'quantities', '%s lacks %s' % (kind, [k for k in q if q[k] is None])):
        return F
    F.check(u.name == name and all(o.name == '%s_%s' % (k, name) for k, o in q.items()), 'name', '%s: %s' % (kind, u.name))
    for k in PORTS:
        if not (kind in TANKS and k[0] in 'PT'):
            d = 'input' if k.endswith('_in') else 'output'
            F.check([sum(x is q[k] for x in u.exposed_vars[e]) for e in ('input', 'output')] == [int(d == 'input'), int(d == 'output')], 'exposure of ' + k, kind)
    given = {}
    for k in names:
        if k not in HOLD + ['t'] and rng.random() < c.get('share', rng.choice([0, .3, 1])):
            given[k] = round(rng.uniform(.5, 5), 3)
            q[k].setValue(given[k])
    for i in range(c.get('times', rng.choice([1, 1, 2]))):
        r = attempt(u)
        if not F.check(r[0] == 'ok', 'declaration', '%s with %s: %r' % (kind, phases, r[1])):
            return F
    for k in names:
        F.check(dims(q[k].units) == list(UN[k.split('_')[0]]), 'unit of ' + k, '%s: %s' % (kind, dims(q[k].units)))
        F.check(getattr(u, k) is q[k] and (q[k].is_specified is True) == (k in given) and (k not in given or q[k].value == given[k]), 'quantity ' + k, 'changed')
    sym = {k: sp.Symbol(o.name) for k, o in q.items()}
    fixed = {}
    for reg in (u.variables, u.parameters):
        for o in reg.values():
            if o.is_specified:
                fixed[sp.Symbol(o.name)] = o.value
    ders = {}
    if kind in TANKS:
        for k in HOLD:
            ders['d' + k] = q[k].Diff(q['t']).symbolic_object
    want = laws(kind, rho, cp, phases)

    def point(solve=None):
        v = {k: given.get(k, round(rng.uniform(.5, 5), 3)) for k in names}
        v.update({k: rng.uniform(-3, 3) for k in ders})
        if solve:
            v[solve[1]] = solve[2](v)
        return v

    def value(e, v):
        e = sp.sympify(e)
        e = e.xreplace({ders[k]: sp.Float(v[k]) for k in ders})
        m = {s: sp.Float(x) for s, x in fixed.items()}
        m.update({sym[k]: sp.Float(v[k]) for k in names})
        return float(e.xreplace(m))
    left = dict(u.equations)
    free = lambda k: k not in given
    for w, law in want.items():
        hit = None
        for n, e in left.items():
            ok = True
            E = (e.equation_expression.repr_symbolic, e.equation_expression.symbolic_object)
            try:
                for _ in range(3):
                    v = point()
                    # the symbolic form holds for all values, the evaluated one for those that agree with the specified values
                    ok = ok and (abs(value(E[0], v)) > 1e-12) == (abs(law[0](v)) > 1e-9)
                    vv = point(law)
                    ok = ok and abs(value(E[0], vv)) < 1e-8 * (1 + max(abs(x) for x in vv.values()))
                    v = point()
                    a, b = value(E[0], v), value(E[1], v)
                    ok = ok and close(a, b)
            except (TypeError, ValueError, ZeroDivisionError):
                ok = False
            if ok:
                hit = n
                break
        if F.check(hit is not None, w, '%s with phases %s, specified %s: no equation states the %s; equations: %s' % (
                kind, phases, sorted(given), w, {n: str(e.equation_expression.repr_symbolic) for n, e in u.equations.items()})):
            own = [id(o) for reg in (u.variables, u.parameters) for o in reg.values()]
            F.check(all(id(o) in own for o in left[hit].objects_declared.values()), 'objects', '%s: %s' % (kind, hit))
            del left[hit]
    F.check(not left, 'other relations', '%s: %s' % (kind, list(left)))
    return F


def gen_cases(rng, tier):
    for kind in UNITS:
        for share in (0, .3, 1):
            for times in (1, 2):
                yield dict(kind=kind, share=share, times=times, seed=rng.randrange(10 ** 6))
    for kind in ('Mixer', 'Splitter', 'SimplePump'):
        for ph in (['water', 'hexane'], ['ethanol', 'water', 'hexane']):
            for share in (0, .3, 1):
                yield dict(kind=kind, phases=ph, share=share, seed=rng.randrange(10 ** 6))
    for i in range(60 if tier == 'quick' else 1500):
        yield dict(seed=rng.randrange(10 ** 6))
