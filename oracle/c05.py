from .lib import *


def extra(case):
    F = Fails()
    if case['kind'] == 'diff':
        qs = [dict(cls='Variable', name='x', dims=[1, 0, 0, 0, 0, 0, 0], spec=bool(case.get('spec')), value=1.5, dom=True),
              dict(cls='Variable', name='t', dims=[0, 0, 1, 0, 0, 0, 0], spec=False, value=0)]
        return run_tree(dict(kind='tree', qs=qs, tree=['diff', 0, 1]), {'C05'})
    if case['kind'] == 'defaults':
        EN = get(C + 'expression_evaluation', 'EquationNode')
        a, b = EN(name='a', symbolic_object=1.0, unit_object=U([0] * 7)), EN(name='b', symbolic_object=2.0, unit_object=U([0] * 7))
        a.symbolic_map['probe'] = 1
        a.variable_map['probe'] = 1
        F.check('probe' not in b.symbolic_map and 'probe' not in b.variable_map, 'default records are shared between expressions')
        a.symbolic_map.pop('probe', None)
        a.variable_map.pop('probe', None)
    if case['kind'] == 'eqnum':
        V, E = get(C + 'variable', 'Variable'), get(C + 'equation', 'Equation')
        x, y = V('x', U([0] * 7)), V('y', U([0] * 7))
        e1, e2 = E('e1', '', fast_expr=x() == 1.0), E('e2', '', fast_expr=y() == 2.0)
        l = [e1.elementary_equation_expression, e2.elementary_equation_expression]
        l = [n for t in l for n in t] + [e1.equation_expression, e2.equation_expression]
        for i, a in enumerate(l):
            for b in l[i + 1:]:
                F.check(a.symbolic_map is not b.symbolic_map and a.variable_map is not b.variable_map, 'records of expressions of two equations are shared')
    return F


run_case, gen_cases = expr_oracle({'C05'}, extra, lambda rng, tier: [dict(kind='diff', spec=False), dict(kind='diff', spec=True), dict(kind='defaults'),
                                                                      dict(kind='eqnum')])
