"""C22: library unit operations state the conservation laws they model."""
from .lib import *
from pyvc import builtins_model as B

spec = Spec('C22')
spec.assumptions = ['thermo.chemical.Chemical returns an object holding the data of the substance named; densities and heat capacities are positive',
                    'the mass flow leaving a heater and the section of a tank are not zero']
L = S + 'unit_op_library'
UNITS = ('Mixer', 'Splitter', 'Valve', 'SimplePump', 'Heater', 'Cooler', 'Tank', 'Fermenter')
TANKS = ('Tank', 'Fermenter')
HOLDUPS = ('N', 'M', 'E', 'level')
DIM = dict(ndot=(0, 0, -1, 0, 0, 1, 0), mdot=(0, 1, -1, 0, 0, 0, 0), P=(-1, 1, -2, 0, 0, 0, 0), T=(0, 0, 0, 0, 1, 0, 0), H=(2, 1, -2, 0, 0, -1, 0),
           Qdot=(3, 0, -1, 0, 0, 0, 0), Q=(2, 1, -3, 0, 0, 0, 0), Delta=(-1, 1, -2, 0, 0, 0, 0), perc=(0,) * 7, cp=(2, 0, -2, 0, -1, 0, 0),
           N=(0, 0, 0, 0, 0, 1, 0), M=(0, 1, 0, 0, 0, 0, 0), E=(2, 1, -2, 0, 0, 0, 0), level=(1, 0, 0, 0, 0, 0, 0), t=(0, 0, 1, 0, 0, 0, 0), area=(2, 0, 0, 0, 0, 0, 0),
           z=(0,) * 7, w=(0,) * 7)
PORTS = ['%s_%s' % (q, d) for q in ('ndot', 'mdot', 'P', 'T', 'H') for d in ('in', 'out')]
EXTRA = {'Valve': ['Qdot_out', 'Delta_P', 'perc_open'], 'SimplePump': ['Delta_P'], 'Heater': ['Delta_P', 'Q', 'cp_mix'], 'Cooler': ['Delta_P', 'Q', 'cp_mix']}


TANK = ['%s_%s' % (q, d) for q in ('ndot', 'mdot', 'H') for d in ('in', 'out')] + ['P_In', 'P_Out', 'Q', 'area_sec', 't'] + list(HOLDUPS)


class Data(Host):
    """property data of a phase"""
    hname = 'property data'

    def __init__(self, name, rho, cp):
        self.name, self.rho, self.cp = name, rho, cp

    def h_getattr(self, I, n):
        if n == 'rho':
            return self.rho
        if n == 'Cp':
            return self.cp
        raise Unsupported('attribute %s of property data' % n)


def laws(kind, v, rho, cp, phases):
    """name of the law -> an expression that vanishes exactly when the law holds"""
    if kind in TANKS:
        return {'mole balance': v['dN'] - v['ndot_in'] + v['ndot_out'],
                'mass balance': v['dM'] - v['mdot_in'] + v['mdot_out'],
                'energy balance': v['dE'] - v['ndot_in'] * v['H_in'] + v['ndot_out'] * v['H_out'] - v['Q'],
                'level balance': v['dlevel'] * rho * v['area_sec'] - v['mdot_in'] + v['mdot_out'],
                'pressure relation': v['P_Out'] - v['P_In']}
    heat = kind in ('Heater', 'Cooler')
    r = {'mole balance': v['ndot_in'] - v['ndot_out'],
         'mass balance': v['mdot_in'] - v['mdot_out'],
         'energy balance': v['ndot_in'] * v['H_in'] + (v['Q'] if heat else 0) - v['ndot_out'] * v['H_out']}
    dp = {'Valve': -1, 'SimplePump': 1, 'Heater': -1, 'Cooler': -1}.get(kind, 0)
    r['pressure relation'] = v['P_out'] - v['P_in'] - (dp * v['Delta_P'] if dp else 0)
    r['temperature relation'] = v['mdot_out'] * cp * (v['T_out'] - v['T_in']) - v['Q'] if heat else v['T_out'] - v['T_in']
    if kind == 'Valve':
        r['volumetric flow'] = v['Qdot_out'] * rho - v['perc_open'] * v['mdot_out']
    if len(phases) > 1:
        mix = kind in ('Mixer', 'Splitter')
        for a in 'zw':
            for x in phases[:-1] if mix else phases:
                r['%s fraction of %s' % (a, x)] = v['%s_%s_out' % (a, x)] - v['%s_%s_in' % (a, x)]
            if mix:
                for d in ('in', 'out'):
                    r['%s fractions %s' % (a, d)] = sum([v['%s_%s_%s' % (a, x, d)] for x in phases]) - 1
    return r


def states_laws(kind, phases, twice):
    def ob(p):
        I = p.I
        p.case(lambda c: dict(kind=kind, phases=phases or ['water'], seed=7))
        n = phases or [p.string('phase')]
        data = []

        def chem(I, a, k):
            d = Data(a[0], p.real('rho'), p.real('Cp'))
            p.assume(z3.And(d.rho.t > 0, d.cp.t > 0))
            data.append(d)
            return d
        p.hook(chem, 'thermo.chemical.Chemical')
        if not phases:
            p.assume(z3.Not(I.eqf(n[0], '*')))
        pp = I.call(p.get(C + 'property_package', 'PropertyPackage'), [], dict(phases=len(n), phase_names=PList(list(n))))
        unit = p.string('unit')
        how = p.flag('described')
        kw = dict(description=p.string('description')) if how else {}
        if how and kind == 'Tank':
            kw['orientation'] = p.string('orientation')
        r = p.call(p.get(L, kind), unit, property_package=pp, **kw)
        p.returns('the unit is created', r)
        u = r[1]
        p.eq('the unit bears its name', p.attr(u, 'name'), unit)
        for d in ('input', 'output'):
            ex = I.getitem(p.attr(u, 'exposed_vars'), d)
            for k in PORTS:
                if k.endswith(d[:-3]) and not (kind in TANKS and k[0] in 'PT'):
                    p.ensure('%s is exposed as %s only' % (k, d), sum(x is p.attr(u, k) for x in I.iterate(ex)) == 1
                             and not any(x is p.attr(u, k) for x in I.iterate(I.getitem(p.attr(u, 'exposed_vars'), 'output' if d == 'input' else 'input'))))
        names = TANK if kind in TANKS else PORTS + EXTRA.get(kind, []) + (['%s_%s_%s' % (a, x, d) for a in 'zw' for x in phases for d in ('in', 'out')] if phases and len(phases) > 1 else [])
        q = {k: p.attr(u, k) for k in names}
        given = {}
        which = p.pick(['none', 'all', 'some'], 'specified')
        for i, k in enumerate(names):
            if k not in ('cp_mix', 't') + HOLDUPS and (which == 'all' or which == 'some' and i % 3 == 1):
                given[k] = p.real('v_' + k)
                if k in ('mdot_out', 'area_sec'):
                    p.assume(given[k].t != 0)
                s = p.method(q[k], 'setValue', given[k])
                p.returns('setting ' + k, s)
        for i in range(2 if twice else 1):
            r = p.call(u)
            p.returns('the unit is declared', r)
        for k in names:
            p.ensure('the same quantity: ' + k, p.attr(u, k) is q[k])
            sp = p.attr(q[k], 'is_specified')
            p.ensure('specified: ' + k, sp is (k in given or k == 'cp_mix'), repr(sp))
        eqs = [(I.str_(k), e) for k, e in p.attr(u, 'equations').items()]
        for nm in names:
            dims_are(p, 'unit of ' + nm, p.attr(q[nm], 'units'), list(DIM[nm.split('_')[0]]))
        # every valuation of the names that agrees with the values specified
        v = {k: symx.den(symx.symbol(p.attr(o, 'name'))) for k, o in q.items()}
        if kind in TANKS:
            for k in HOLDUPS:
                d = p.method(q[k], 'Diff', q['t'])
                p.returns('derivative of ' + k, d)
                v['d' + k] = symx.den(p.attr(d[1], 'symbolic_object'))
            p.assume(v['area_sec'] != 0)
        own = {}
        for reg in ('variables', 'parameters'):
            for o in p.attr(u, reg).values():
                own[id(o)] = o
                if p.attr(o, 'is_specified') is True:
                    p.assume(symx.den(symx.symbol(p.attr(o, 'name'))) == real(p.attr(o, 'value')))
        if kind in ('Heater', 'Cooler'):
            p.assume(v['mdot_out'] != 0)
            p.eq('heat capacity', p.attr(q['cp_mix'], 'value'), data[-1].cp)
        want = laws(kind, v, data[-1].rho.t, data[-1].cp.t, phases or [])
        found = {}
        for form in ('symbolic_object', 'repr_symbolic'):
            left = list(eqs)
            for w, b in want.items():
                hit, doubt = None, False
                for e in left:
                    d = symx.den(p.attr(e[1], 'equation_expression', form))
                    x = I.check(z3.Not(z3.Or(d == b, d == -b)))
                    if x != z3.unsat:
                        x = I.check((d == 0) != (b == 0))
                    doubt = doubt or x == z3.unknown
                    if x == z3.unsat:
                        hit = e
                        break
                if hit is None and doubt:
                    p.res.undecided.append((w, 'solver: unknown'))
                    continue
                p.ensure('%s (%s)' % (w, form), hit is not None, 'no equation states it')
                if hit is not None:
                    left = [e for e in left if e is not hit]
                    found.setdefault(w, []).append(hit)
            p.ensure('no other relation is imposed (%s)' % form, not left, repr([e[0] for e in left]))
        for w, (a, b) in [x for x in found.items() if len(x[1]) == 2]:
            p.ensure('%s: one equation' % w, a is b)
            p.ensure('%s: its quantities are those of the unit' % w, all(id(o) in own for o in p.attr(a[1], 'objects_declared').values()))
    return ob


for _k in UNITS:
    for _t in (False, True):
        spec.obligation('%s, one phase%s' % (_k, ', declared twice' if _t else ''))(states_laws(_k, None, _t))
for _k in ('Mixer', 'Splitter', 'SimplePump'):
    for _ph in (['water', 'hexane'], ['ethanol', 'water', 'hexane']):
        spec.obligation('%s, %d phases' % (_k, len(_ph)), bounded='package of %d phases with given names' % len(_ph))(states_laws(_k, _ph, False))
