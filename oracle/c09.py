from .lib import *
import itertools


def make(how, expr, name='eq'):
    E = get(C + 'equation', 'Equation')
    if how == 'direct':
        return attempt(E, name, 'd', expr)
    if how == 'set':
        e = E(name, 'd')
        r = attempt(e.setResidual, expr)
        return r if r[0] == 'raise' else ('ok', e)
    m = get('src.sloth.model', 'Model')('M')
    return attempt(m.createEquation, name, 'd', expr, check_equation=False)


def sub(ra, rb):
    return Ref(num=False, dims=ra.dims if not ra.num else rb.dims, syms=ra.syms | rb.syms, unk=ra.unk | rb.unk, f=lambda env: ra.f(env) - rb.f(env),
               specder=ra.specder or rb.specder, differ=ra.differ or rb.differ, num_=False, lin=False)


class Sub(Formula):
    def node(self, what, e, ref, ds):
        EN = get(C + 'expression_evaluation', 'EquationNode')
        if not self.F.check(isinstance(e, EN), what + ': not an expression', repr(e)):
            return
        T = self.case.get('tree')
        self.F.check(same_dims(dims(e.unit_object), ds), what + ': wrong unit', self.case)
        self.F.check(set(e.symbolic_map) == ref.syms, what + ': wrong quantities', self.case)
        self.F.check(set(e.variable_map) == ref.unk, what + ': wrong unknowns', self.case)
        byname = {q['name']: o for q, o in zip(self.qs, self.objs)}
        self.F.check(all(v is byname.get(k) for k, v in list(e.symbolic_map.items()) + list(e.variable_map.items())), what + ': wrong objects', self.case)
        self.value(e, ref, what, 'C09')

    def declared(self, eq, syms):
        d = eq.objects_declared
        byname = {q['name']: o for q, o in zip(self.qs, self.objs)}
        self.F.check(isinstance(d, dict) and set(d) == syms and all(d[k] is byname[k] for k in d), 'declared objects are not those of the expression',
                     '%r %s' % (d, self.case))


def eqn(case):
    F = Fails()
    fm = Sub(dict(case, tree=case['l']), F, {'C09'})
    try:
        l, rl = fm.build(case['l'])
        if case.get('r') is None:
            r = rr = None
        else:
            r, rr = fm.build(case['r'])
    except Stop:
        return F
    if rl.num or (rr is None and not hasattr(l, 'unit_object')):
        return F
    F.items = [] if not hasattr(F, 'items') else F.items
    snaps = fm.snap([x for x in (l, r) if x is not None])
    how = case.get('how', 'direct')
    for name in ('eq', ''):
        if rr is None:
            q = make(how, l, name)
            if not F.check(q[0] == 'ok', 'a residual is rejected', '%r %s' % (q[1], case)):
                return F
            eq = q[1]
            fm.node('residual', eq.equation_expression, rl, rl.dims)
            fm.node('residual read', eq(), rl, rl.dims)
            fm.declared(eq, rl.syms)
            res = rl
        else:
            w = attempt(lambda: l == r)
            q = make(how, w[1], name) if w[0] == 'ok' else w
            if not rr.num and not same_dims(rl.dims, rr.dims):
                F.check(q[0] == 'raise', 'sides of different dimension accepted', case)
                return F
            if not rr.num and rl.dims != rr.dims:
                return F
            if not F.check(q[0] == 'ok', 'a coherent equation is rejected', '%r %s' % (q[1], case)):
                return F
            eq = q[1]
            res = sub(rl, rr)
            L, R = attempt(eq, 0), attempt(eq, 1)
            if F.check(L[0] == 'ok' and R[0] == 'ok', 'a side cannot be read', case):
                fm.node('left side', L[1], rl, rl.dims)
                fm.node('right side', R[1], rr, rl.dims)
                if rr.num:
                    n = float(r)
                    for a in ('symbolic_object', 'repr_symbolic'):
                        v = attempt(lambda: float(getattr(R[1], a)))
                        F.check(v[0] == 'ok' and abs(v[1] - n) <= 1e-9 * abs(n), 'the right side is another number (%s)' % a, '%r %s' % (v[1], case))
            fm.node('residual', eq.equation_expression, res, rl.dims)
            fm.declared(eq, res.syms)
            F.check(attempt(eq, 2)[0] == 'raise', 'a third side exists', case)
        t = [k for k in ('linear', 'nonlinear', 'differential') if eq.equation_expression.equation_type['is_' + k]]
        F.check([eq.type] == t, 'type is not that of the residual', '%s %s %s' % (eq.type, t, case))
        q = attempt(eq._convertToResidualForm)
        F.check(q[0] == 'ok', 'residual form refused', case)
        fm.node('residual after conversion', eq.equation_expression, res, rl.dims)
        if rr is not None:
            s = eq.elementary_equation_expression
            if F.check(len(s) == 2, 'sides lost', case):
                fm.node('left side after conversion', s[0], rl, rl.dims)
                fm.node('right side after conversion', s[1], rr, rl.dims)
        for n, sm, vm, et, ds, so, rs, nm in snaps:
            if hasattr(n, 'symbolic_map'):
                F.check(dict(n.symbolic_map) == sm and dict(n.variable_map) == vm and dict(n.equation_type) == et and dims(n.unit_object) == ds
                        and n.symbolic_object is so and n.repr_symbolic is rs, 'writing an equation changed an expression', case)
    if rr is None and how != 'model':
        # the residual replaces an earlier equation
        V = get(C + 'variable', 'Variable')
        a, b = V('a0', U([0] * 7)), V('b0', U([0] * 7))
        q = make(how, a() == b())
        if q[0] == 'ok':
            eq = q[1]
            q = attempt(eq.setResidual, l)
            if F.check(q[0] == 'ok', 'an equation cannot be replaced', case):
                r0 = attempt(eq)
                if F.check(r0[0] == 'ok', 'a replaced equation cannot be read', case):
                    fm.node('replaced residual read', r0[1], rl, rl.dims)
                fm.declared(eq, rl.syms)
                fm.node('replaced residual', eq.equation_expression, rl, rl.dims)
                for sd in ('lhs', 'rhs'):
                    F.check(attempt(eq._convertToFunction, None, sd, 'numpy')[0] == 'raise', 'a residual has a side after it replaced an equation', case)
                eq._convertToResidualForm()
                fm.node('replaced residual after conversion', eq.equation_expression, rl, rl.dims)
    return F


def bad(case):
    F = Fails()
    V = get(C + 'variable', 'Variable')
    x = V('x', U([1, 0, 0, 0, 0, 0, 0]))
    e = x()
    for v in (None, 'text', 2.0, 3, [], {}, x, V, (), (e, None), (e, 'text'), (2.0, e), (e, x), [e, e], (e,)):
        for how in ('direct', 'set', 'model'):
            if v is None and how != 'set':
                continue
            F.check(make(how, v)[0] == 'raise', 'a foreign object is accepted as an equation', '%r %s' % (v, how))
    return F


def run_case(c):
    k = c['kind']
    F = Fails()
    if k == 'eqn':
        return eqn(c)
    if k in ('bad', 'sides'):
        F.extend(bad(c))
        if k == 'sides':
            F.extend(eqn(dict(qs=[dict(cls='Variable', name='x', dims=[0] * 7, spec=False, value=1, dom=False)], l=['q', 0], r=None)))
        return F
    if k in ('elem', 'resid', 'incoherent'):
        qs = []
        for a in operand(c['a'], 'a', qs):
            if k == 'resid':
                F.extend(eqn(dict(kind='eqn', qs=qs, l=a, r=None, how=c['how'])))
                F.extend(eqn(dict(kind='eqn', qs=qs, l=a, r=None, how='direct')))
            elif c.get('b') is None:
                F.extend(eqn(dict(kind='eqn', qs=qs, l=a, r=['num', c['n']], how=c['how'])))
            else:
                for b in operand(c['b'], 'b', qs):
                    F.extend(eqn(dict(kind='eqn', qs=qs, l=a, r=b, how=c['how'])))
        return F
    return F


def gen_cases(rng, tier):
    yield dict(kind='bad')
    hows = itertools.cycle(['direct', 'set', 'model'])
    for c in itertools.chain(systematic_trees(), (random_tree_case(rng, depth=rng.choice([1, 2, 3])) for _ in range(1000 if tier == 'quick' else 20000))):
        t = c['tree']
        if t[0] in '+-' and t[1][0] != 'num':
            yield dict(kind='eqn', qs=c['qs'], l=t[1], r=t[2], how=next(hows))
        elif t[0] not in ('q', 'num'):
            yield dict(kind='eqn', qs=c['qs'], l=t, r=None, how=next(hows))
            yield dict(kind='eqn', qs=c['qs'], l=t, r=['num', rng.choice([0, 1, 2.5, -3, 0.0, 1.25e-13, 3.7e15])], how=next(hows))
