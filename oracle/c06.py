from .lib import *


def extra(case):
    qs = [dict(cls='Variable', name='x', dims=[1, 0, 0, 0, 0, 0, 0], spec=bool(case.get('spec')), value=1.5, dom=True),
          dict(cls='Variable', name='t', dims=[0, 0, 1, 0, 0, 0, 0], spec=False, value=0)]
    if case['kind'] == 'diff':
        return run_tree(dict(kind='tree', qs=qs, tree=['diff', 0, 1]), {'C06'})
    if case['kind'] == 'leaf':
        qs[0]['cls'] = case['cls']
        return run_tree(dict(kind='tree', qs=qs, tree=['q', 0]), {'C06'})


run_case, gen_cases = expr_oracle({'C06'}, extra, lambda rng, tier: [dict(kind='diff', spec=False), dict(kind='diff', spec=True)])
