from .lib import *

REGS = ('variables', 'parameters', 'constants', 'equations')
NAMES = ['x', 'y', 'T', 'x_M', 'M', '', 'a_b', 'flow_out', 'n', 'E']
MNAMES = ['M', 'm', 'x', 'Model_1', '', 'a_b']


class World:
    """a model and what it must contain"""

    def __init__(self, mname):
        self.m = get('src.sloth.model', 'Model')(mname)
        self.mname = mname
        self.ref = {r: {} for r in REGS}
        self.exp = {'input': [], 'output': []}

    def check(self, F, what, case):
        m = self.m
        for r in REGS:
            d = getattr(m, r)
            F.check(isinstance(d, dict) and list(d) == list(self.ref[r]) and all(d[k] is self.ref[r][k] for k in d), what + ': registry of ' + r,
                    '%r %r %s' % (list(d), list(self.ref[r]), case))
        for t in ('input', 'output'):
            l = m.exposed_vars[t]
            F.check(len(l) == len(self.exp[t]) and all(a is b for a, b in zip(l, self.exp[t])), what + ': exposed ' + t, case)
        F.check(sorted(m.exposed_vars) == ['input', 'output'], what + ': directions', case)
        for r in ('connections', 'parameter_arrays'):
            F.check(getattr(m, r) == {}, what + ': ' + r, case)


CLS = dict(variable='Variable', parameter='Parameter', constant='Constant')


def do_create(F, w, c):
    kind = c['what']
    u = U(c['u'])
    kw = {}
    if c.get('value') is not None:
        kw['value'] = c['value']
    if c.get('full'):
        kw.update(description='some text', latex_text='\\lt')
    if kind == 'variable':
        if c.get('lb') is not None:
            kw.update(is_lower_bounded=True, lower_bound=c['lb'])
        if c.get('ub') is not None:
            kw.update(is_upper_bounded=True, upper_bound=c['ub'])
        if c.get('type'):
            kw['type'] = c['type']
        if c.get('exposed'):
            kw['is_exposed'] = True
    f = getattr(w.m, 'create' + kind.capitalize())
    if c.get('positional') and kind == 'variable':
        g = dict(description='', is_lower_bounded=False, is_upper_bounded=False, lower_bound=None, upper_bound=None, is_exposed=False, type='', latex_text='', value=0.0)
        g.update(kw)
        r = attempt(f, c['name'], u, *g.values())
    else:
        r = attempt(f, c['name'], u, **kw)
    if not F.check(r[0] == 'ok', 'creating a %s failed' % kind, '%r %s' % (r[1], c)):
        return None
    o = r[1]
    q = c['name'] + '_' + w.mname
    w.ref[kind + 's'][q] = o
    F.check(type(o).__name__ == CLS[kind], 'wrong class', c)
    F.check(o.name == q, '%s: name not qualified' % kind, '%r %s' % (o.name, c))
    F.check(dims(o.units) == list(c['u']) and dims(u) == list(c['u']), '%s: unit' % kind, c)
    F.check(o.value == (c['value'] if c.get('value') is not None else 0), '%s: value' % kind, '%r %s' % (o.value, c))
    F.check(o.is_specified is False, '%s: specified' % kind, c)
    F.check(o.owner_model_name == w.mname, '%s: owner' % kind, c)
    F.check(o.description == ('some text' if c.get('full') else ''), '%s: description' % kind, '%r %s' % (o.description, c))
    F.check(o.latex_text == ('\\lt' if c.get('full') else c['name']), '%s: representation' % kind, '%r %s' % (o.latex_text, c))
    if kind == 'variable':
        F.check(o.lower_bound == c.get('lb') and o.is_lower_bounded is (c.get('lb') is not None), 'lower bound', c)
        F.check(o.upper_bound == c.get('ub') and o.is_upper_bounded is (c.get('ub') is not None), 'upper bound', c)
        F.check(bool(o.is_exposed) is bool(c.get('exposed')) and o.type == (c.get('type') or ''), 'exposure', c)
        F.check(o.domain is None, 'domain', c)
        if c.get('exposed'):
            w.exp[c['type']].append(o)
    w.check(F, 'creating a %s' % kind, c)
    return o


def do_equation(F, w, c, objs, foreign, name, accept, form):
    def e(os):
        x = None
        for o in os:
            x = o() if x is None else x + o()
        return x
    if accept:
        l, r = objs, objs[::-1]
    else:
        l, r = (objs + [foreign], objs) if c.get('side', 0) == 0 or form != 'elem' else (objs, objs + [foreign])
        l = l or [foreign]
        r = r or [foreign]
    if form == 'resid':
        ex = e(l)
    elif form == 'num':
        ex = e(l) == 2.5
    else:
        ex = e(l) == e(r)
    q = attempt(w.m.createEquation, name, 'd', ex)
    if accept:
        if F.check(q[0] == 'ok', 'an equation over declared objects is rejected', '%r %s' % (q[1], c)):
            eq = q[1]
            if name:
                F.check(eq.name == name + '_' + w.mname, 'equation: name', '%r %s' % (eq.name, c))
            F.check(eq.owner_model_name == w.mname, 'equation: owner', c)
            w.ref['equations'][eq.name] = eq
    else:
        F.check(q[0] == 'raise', 'an equation over a foreign object is accepted', c)
    w.check(F, 'equation ' + ('accepted' if accept else 'rejected'), c)


def run_case(c):
    F = Fails()
    if c['kind'] == 'create':
        w = World(c['mname'])
        do_create(F, w, c)
        return F
    if c['kind'] == 'equation':
        w = World(c['mname'])
        z = [0, 0, 1, 0, 0, 0, 0]
        objs = [w.m.createVariable('p', U(z)), w.m.createParameter('q', U(z)), w.m.createConstant('r', U(z))]
        for r, o in zip(('variables', 'parameters', 'constants'), objs):
            w.ref[r][o.name] = o
        V = get(C + c.get('fclass', 'variable'), c.get('fclass', 'variable').capitalize())
        foreign = V(c.get('fname', 'foreign'), U(z))
        if c.get('spec'):
            foreign.setValue(1.5)
            objs[1].setValue(2.)
        known_ = [o.name for o in objs]
        if foreign.name in known_:
            return F
        for n in range(1, 4):
            do_equation(F, w, c, objs[:n], foreign, (c['name'] or '') + ('' if n == 1 or not c['name'] else str(n)), c['accept'], c['form'])
        return F
    # history: several models in one session
    ws = [World(n) for n in c['models']]
    z = [0] * 7
    for i, st in enumerate(c['steps']):
        w = ws[st['m'] % len(ws)]
        if st['what'] == 'equation':
            pool = [o for r in ('variables', 'parameters', 'constants') for o in w.ref[r].values() if dims(o.units) == z]
            other = [o for v in ws if v is not w for r in ('variables', 'parameters', 'constants') for o in v.ref[r].values() if dims(o.units) == z]
            allowed = {k for r in ('variables', 'parameters', 'constants') for k in w.ref[r]}
            other = [o for o in other if o.name not in allowed]
            if not pool and (st['accept'] or not other):
                continue
            if not st['accept'] and not other:
                continue
            do_equation(F, w, dict(c, side=i % 2), pool[:st['k']], other[0] if other else None, st['name'], st['accept'], st['form'])
        else:
            o = do_create(F, w, st)
            if o is not None and st.get('specify'):
                o.setValue(3.5)
        for v in ws:
            v.check(F, 'another model', c)
        if F:
            break
    return F


def rcreate(rng, z=False):
    k = rng.choice(['variable', 'variable', 'parameter', 'constant'])
    c = dict(what=k, u=[0] * 7 if z or rng.random() < .7 else [rng.choice([0, 1, -1, 2]) for _ in range(7)], name=rng.choice(NAMES) + rng.choice(['', '1', '2']),
             value=rng.choice([None, 0.0, 1.5, -2, 7]), full=rng.random() < .5)
    if k == 'variable':
        c.update(lb=rng.choice([None, 0.0, -1.5]), ub=rng.choice([None, 0, 10.0]), type=rng.choice([None, 'input', 'output']))
        c['exposed'] = bool(c['type']) and rng.random() < .6
        c['positional'] = rng.random() < .4
    return c


def gen_cases(rng, tier):
    for mname in MNAMES:
        for name in NAMES:
            for what in CLS:
                for v in (None, 0.0, 2.5, 3):
                    for full in (False, True):
                        yield dict(kind='create', what=what, u=[1, 0, -2, 0, 0, 0.5, 0], mname=mname, name=name, value=v, full=full)
            for lb in (None, 0.0, -3, 1.5):
                for ub in (None, 0, 4.5):
                    for ty, ex in ((None, False), ('input', False), ('input', True), ('output', False), ('output', True)):
                        yield dict(kind='create', what='variable', u=[0] * 7, mname=mname, name=name, value=1.0, lb=lb, ub=ub, type=ty, exposed=ex, positional=rng.random() < .5)
    for accept in (True, False):
        for form in ('resid', 'elem', 'num'):
            for name in ('', 'eq', 'eq_M', 'M'):
                for fname in ('foreign', 'p', 'p_', '_M', 'p_MM', 'q_m', 'r_M_M', 'xp_M'):
                    for fc in CLS:
                        for side in (0, 1):
                            yield dict(kind='equation', accept=accept, form=form, name=name, mname='M', fname=fname, fclass=fc, side=side, spec=rng.random() < .5)
    for n in range(400 if tier == 'quick' else 6000):
        steps = []
        for i in range(rng.randint(2, 12)):
            if rng.random() < .35:
                st = dict(what='equation', accept=rng.random() < .6, form=rng.choice(['resid', 'elem', 'num']), name=rng.choice(['', 'e%d' % i, 'x']), k=rng.randint(1, 4))
            else:
                st = rcreate(rng)
                st['specify'] = rng.random() < .4
            st['m'] = rng.randrange(3)
            steps.append(st)
        yield dict(kind='history', models=rng.sample(MNAMES, rng.randint(1, 3)), steps=steps)
