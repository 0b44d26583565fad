from .lib import *


def extra(case):
    F = Fails()
    k = case['kind']
    if k == 'leaf':
        for nm in ('q', 'T_in', 'lambda', 'E', 'I', 'S', 'pi', 'N', 'beta', 'x1'):
            q = get(C + case['cls'].lower(), case['cls'])(nm, U(case['q']))
            if case['spec']:
                q.value, q.is_specified = case['v'], True
            else:
                q.is_specified = False
            F.extend(leaf(q, nm, case))
            # rename, then use again
            q.name = nm + '_model'
            F.extend(leaf(q, nm + '_model', case))
            q.setValue(case.get('v2', 4.25))
            F.extend(leaf(q, nm + '_model', dict(case, spec=True, v=case.get('v2', 4.25))))
        return F
    if k == 'diff':
        V = get(C + 'variable', 'Variable')
        x, t = V('x', U(case['x'])), V('t', U(case['t']))
        if case['spec']:
            x.value, x.is_specified = case['v'], True
        if case['dom'] is None:
            F.check(attempt(x.Diff, t)[0] == 'raise', 'derivative of a variable without a domain accepted', case)
            F.check(attempt(x.Diff)[0] == 'raise', 'derivative of a variable without a domain accepted', case)
            return F
        D = get(C + 'domain', 'Domain')
        d = D('d', U(case['t']), t)
        r = attempt(x.distributeOnDomain, d)
        if not F.check(r[0] == 'ok', 'a variable cannot be distributed on a domain', repr(r[1])):
            return F
        qs = [dict(cls='Variable', name='x', dims=case['x'], spec=case['spec'], value=case['v'], dom=True),
              dict(cls='Variable', name='t', dims=case['t'], spec=False, value=0)]
        F.extend(run_tree(dict(kind='tree', qs=qs, tree=['diff', 0, 1]), {'C08', 'C03', 'C05', 'C06'}))
        r = attempt(x.Diff, t)
        if not F.check(r[0] == 'ok', 'derivative of a distributed variable rejected', repr(r[1])):
            return F
        e = r[1]
        import sympy as sp
        ok = isinstance(e.repr_symbolic, sp.Derivative) and str(e.repr_symbolic.args[0]) == 'x' and str(e.repr_symbolic.args[1][0]) == 't' \
            and e.repr_symbolic.args[1][1] == 1
        F.check(ok, 'wrong derivative', e.repr_symbolic)
        F.check(e.symbolic_map == {'x': x}, 'differentiated variable not recorded', e.symbolic_map)
        return F
    return F


def leaf(q, nm, case):
    import sympy as sp
    F = Fails()
    before = (q.name, q.value, q.is_specified, dims(q.units), id(q.units))
    r = attempt(q)
    if not F.check(r[0] == 'ok', '%s: using a quantity raises' % case['cls'], '%s %r' % (case, r[1])):
        return F
    e = r[1]
    if case['spec']:
        F.check(not isinstance(e.symbolic_object, sp.Basic) and e.symbolic_object == case['v'], '%s: value of a specified quantity' % case['cls'],
                '%r' % (e.symbolic_object,))
        F.check(e.variable_map == {}, '%s: a specified quantity is recorded as unknown' % case['cls'], e.variable_map)
    else:
        F.check(isinstance(e.symbolic_object, sp.Symbol) and str(e.symbolic_object) == nm, '%s: unknown is not named after the quantity' % case['cls'],
                '%r %r' % (e.symbolic_object, nm))
        F.check(list(e.variable_map.items()) == [(nm, q)] if not hasattr(q, '__eq__') else (list(e.variable_map) == [nm] and e.variable_map[nm] is q),
                '%s: unknown not recorded' % case['cls'], e.variable_map)
    F.check(isinstance(e.repr_symbolic, sp.Symbol) and str(e.repr_symbolic) == nm, '%s: symbolic representation' % case['cls'], e.repr_symbolic)
    F.check(list(e.symbolic_map) == [nm] and e.symbolic_map[nm] is q, '%s: quantity not recorded' % case['cls'], e.symbolic_map)
    F.check(dims(e.unit_object) == list(case['q']), '%s: unit not carried' % case['cls'], dims(e.unit_object))
    F.check(before == (q.name, q.value, q.is_specified, dims(q.units), id(q.units)), '%s: using a quantity changed it' % case['cls'], case)
    return F


def more(rng, tier):
    for cls in ('Quantity', 'Variable', 'Parameter', 'Constant'):
        for q in ([0] * 7, [1, 0, -1, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 1], [0.5, 1, 2, -1, 0, 3, 0]):
            for spec, v in ((False, 1.5), (True, 1.5), (True, 0), (True, 0.0), (True, 3), (True, -2.5), (True, 1e-30)):
                yield dict(kind='leaf', cls=cls, q=q, spec=spec, v=v)
    for x in ([0] * 7, [1, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 1]):
        for t in ([0, 0, 1, 0, 0, 0, 0], [1, 0, 0, 0, 0, 0, 0], [0] * 7):
            for spec in (False, True):
                for dom in (None, 'd'):
                    yield dict(kind='diff', x=x, t=t, spec=spec, v=2.0, dom=dom)


run_case, gen_cases = expr_oracle({'C08'}, extra, more)
