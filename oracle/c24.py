from .lib import *
import itertools
from .c09 import make, Sub


def state(eq, objs):
    ee = [eq.equation_expression] + list(eq.elementary_equation_expression or [])
    return ([(id(e), e.symbolic_object, e.repr_symbolic, dict(e.symbolic_map), dict(e.variable_map), dims(e.unit_object)) for e in ee],
            eq.equation_form, eq.type, dict(eq.objects_declared or {}), [(o.name, o.value, o.is_specified) for o in objs])


def fnum(x):
    try:
        c = complex(x)
    except Exception:
        return 'not a number: %r' % (x,)
    return c.real if abs(c.imag) < 1e-9 * max(1, abs(c.real)) else c


def run(case):
    F = Fails()
    fm = Sub(dict(case, tree=case['l']), F, set())
    try:
        l, rl = fm.build(case['l'])
        r, rr = fm.build(case['r']) if case.get('r') is not None else (None, None)
    except Stop:
        return F
    if rl.num or not hasattr(l, 'unit_object') or rl.differ or (rr is not None and rr.differ):
        return F
    expr = l if rr is None else (l, r)
    q = make('direct', expr)
    if q[0] != 'ok':
        return F
    eq = q[1]
    if rr is None and case.get('reuse'):
        V = get(C + 'variable', 'Variable')
        a, b = V('a0', U([0] * 7)), V('b0', U([0] * 7))
        eq = make('direct', a() == b())[1]
        eq.setResidual(l)
    fres = rl.f if rr is None else (lambda env: rl.f(env) - rr.f(env))
    sides = {None: fres}
    if rr is not None:
        sides['lhs'] = rl.f
        sides['rhs'] = rr.f
    else:
        for s in ('lhs', 'rhs'):
            for kw in ({}, {'symbolic_map': {q['name']: 1.5 for q in fm.qs}}):
                F.check(attempt(eq.eval, side=s, **kw)[0] == 'raise', 'a side of an equation without sides was evaluated', case)
    F.check(attempt(eq.eval, side='middle')[0] == 'raise', 'an unknown side was evaluated', case)
    envs = list(fm.envs(2))
    for q, o in zip(fm.qs, fm.objs):
        if not q.get('spec'):
            o.value = q['value'] if q['value'] else 0.75
    for s, f in sides.items():
        for env, given in [(e, True) for e in envs] + [(None, False)] * 3:
            if env is None:
                # the values in force now, changed since the last evaluation
                env = {q['name']: o.value for q, o in zip(fm.qs, fm.objs)}
                turn = [(o, o.value) for q, o in zip(fm.qs, fm.objs) if not q.get('spec')]
            e2 = dict(env)
            if given:
                m = {q['name']: env[q['name']] for q in fm.qs}
                if case.get('unk'):
                    m = {k: v for k, v in m.items() if k in (rl.unk | (rr.unk if rr is not None else set()))}
            before = state(eq, fm.objs)
            b2 = dict(m) if given else None
            r0 = attempt(eq.eval, m, s) if given else (attempt(eq.getResidual) if s is None and case.get('gr') else attempt(eq.eval, side=s))
            try:
                want = f(e2)
                if not close(want, f({k: v * (1 + 1e-9) + 1e-9 for k, v in e2.items()}), 1e-5):
                    continue
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                continue
            if isinstance(want, complex) or abs(want) > 1e9 or math.isnan(want):
                continue
            so = {None: eq.equation_expression, 'lhs': l, 'rhs': r}[s]
            so = getattr(so, 'symbolic_object', so)
            if hasattr(so, 'evalf'):
                ext = attempt(so.evalf, subs=dict(e2))
                if ext[0] != 'ok' or not close(fnum(ext[1]), want, 1e-5):
                    continue    # sympy itself cannot evaluate this point faithfully
            w = 'supplied values' if given else 'current values'
            if not F.check(r0[0] == 'ok', 'evaluation with %s raises' % w, '%r %s' % (r0[1], case)):
                continue
            F.check(close(fnum(r0[1]), want, 1e-5), 'evaluation with %s: wrong value' % w, 'side %s got %s want %s %s' % (s, r0[1], want, case))
            F.check(state(eq, fm.objs) == before, 'evaluation changed the equation or a quantity', case)
            if given:
                F.check(m == b2, 'evaluation changed the value map', case)
            else:
                for o, v in turn:
                    o.value = v * 1.25 if isinstance(v, (int, float)) and v else 1.5
    return F


def run_case(c):
    if c['kind'] == 'eqn':
        return run(c)
    F = Fails()
    qs = []
    if c['kind'] == 'eval':
        for a in operand(c['a'], 'a', qs):
            rs = [None] if c['form'] == 'resid' else ([['num', c['n']]] if c['form'] == 'num' else operand(c['b'], 'b', qs))
            for r in rs:
                F.extend(run(dict(kind='eqn', qs=qs, l=a, r=r)))
                F.extend(run(dict(kind='eqn', qs=qs, l=a, r=r, gr=True)))
    if c['kind'] == 'noside':
        for reuse in (False, True):
            F.extend(run(dict(kind='eqn', qs=[dict(cls='Variable', name='x', dims=[0] * 7, spec=False, value=1.5)], l=['q', 0], r=None, reuse=reuse)))
            F.extend(run(dict(kind='eqn', qs=[dict(cls='Variable', name='x', dims=[0] * 7, spec=False, value=1.5)], l=['q', 0], r=['num', 2.0])))
    return F


def gen_cases(rng, tier):
    yield dict(kind='noside')
    flags_ = itertools.cycle(itertools.product((False, True), repeat=3))
    for c in itertools.chain(systematic_trees(), (random_tree_case(rng, depth=rng.choice([1, 2, 3])) for _ in range(700 if tier == 'quick' else 20000))):
        t = c['tree']
        a, b, d = next(flags_)
        kw = dict(reuse=a, unk=b, gr=d)
        if t[0] in '+-' and t[1][0] != 'num':
            yield dict(kind='eqn', qs=c['qs'], l=t[1], r=t[2], **kw)
        elif t[0] not in ('q', 'num'):
            yield dict(kind='eqn', qs=c['qs'], l=t, r=None, **kw)
            yield dict(kind='eqn', qs=c['qs'], l=t, r=['num', rng.choice([0, 1, 2.5, -3, 0.0])], **kw)
