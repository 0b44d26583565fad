"""C10: a model registers what it creates and rejects undeclared objects."""
from .lib import *

spec = Spec('C10')
spec.assumptions = ['names are strings; floats are mathematical reals']


def opt(p, tag, v, kw, key):
    if p.flag(tag):
        kw[key] = v
        return True
    return False


def create(kind, bounds='', expo=None):
    reg, ctor, mod, cls = {'variable': ('variables', 'createVariable', C + 'variable', 'Variable'),
                           'parameter': ('parameters', 'createParameter', C + 'parameter', 'Parameter'),
                           'constant': ('constants', 'createConstant', C + 'constant', 'Constant')}[kind]

    def ob(p):
        I = p.I
        m = model(p)
        u = unit(p)
        es = dims(p, u)
        nm = p.string('nm')
        kw = {}
        v = p.number('v')
        hv = opt(p, 'has_value', v, kw, 'value')
        full = p.flag('described')
        ds, lt = p.string('ds'), p.string('lt')
        if full:
            kw.update(description=ds, latex_text=lt)
        lb, ub, hl, hu, exp, ty = p.real('lb'), p.real('ub'), False, False, False, None
        if kind == 'variable':
            hl, hu, exp = 'l' in bounds, 'u' in bounds, expo == 'exposed'
            if hl:
                kw.update(is_lower_bounded=True, lower_bound=lb)
            if hu:
                kw.update(is_upper_bounded=True, upper_bound=ub)
            if expo:
                ty = kw['type'] = p.pick(['input', 'output'], 'dir')
            if exp:
                kw['is_exposed'] = True
        before = Before(p, m.obj)
        snap = snapshot(p, u)
        p.case(lambda c: dict(kind='create', what=kind, u=u_case(p, c, 'u'), mname=c.str(m.name), name=c.str(nm), value=c.num(v) if hv else None,
                              lb=c.num(lb) if hl else None, ub=c.num(ub) if hu else None, exposed=exp, type=ty, full=full))
        r = p.method(m.obj, ctor, nm, u, **kw)
        p.returns('the object is created', r)
        o = r[1]
        p.ensure('it is of the kind asked for', I.isinstance_(o, p.get(mod, cls)), repr(o))
        q = I.binop('Add', I.binop('Add', nm, '_'), m.name)

        def attrs():
            p.eq('its name is qualified by the model', p.attr(o, 'name'), q)
            dims_are(p, 'its unit is the one given', p.attr(o, 'units'), es)
            p.eq('its value is the one given', p.attr(o, 'value'), v if hv else 0)
            p.ensure('it is not specified', p.attr(o, 'is_specified') is False)
            p.eq('it knows its owner', p.attr(o, 'owner_model_name'), m.name)
            p.eq('its description is the one given', p.attr(o, 'description'), ds if full else '')
            p.eq('its representation is the one given, or its name', p.attr(o, 'latex_text'), lt if full else nm)
            if kind == 'variable':
                for a, h, b in (('lower', hl, lb), ('upper', hu, ub)):
                    p.eq('its %s bound is the one given' % a, p.attr(o, a + '_bound'), b if h else None)
                    p.ensure('it is %s bounded exactly when a bound is given' % a, p.attr(o, 'is_%s_bounded' % a) is h)
                p.ensure('its exposure is the one given', p.attr(o, 'is_exposed') is exp)
                p.eq('its direction is the one given', p.attr(o, 'type'), ty if ty else '')
                p.ensure('it is not distributed', p.attr(o, 'domain') is None)
            unchanged(p, 'the unit is unchanged', snap)
        p.one_of(attrs, *before.after(p, 'registered once', {reg: [(q, o)]}, {ty: [o]} if exp else {}))
    return ob


for _k in ('parameter', 'constant'):
    spec.obligation('creating a %s' % _k)(create(_k))
for _b, _bn in (('', 'unbounded'), ('l', 'bounded below'), ('u', 'bounded above'), ('lu', 'bounded on both sides')):
    for _x, _xn in ((None, 'neither directed nor exposed'), ('directed', 'directed'), ('exposed', 'exposed')):
        spec.obligation('creating a variable, %s, %s' % (_bn, _xn))(create('variable', _b, _x))


def positional(p):
    """the documented positional order of createVariable"""
    I = p.I
    m = model(p)
    u = unit(p)
    es = dims(p, u)
    nm, ds, lt = p.string('nm'), p.string('ds'), p.string('lt')
    lb, ub, v = p.real('lb'), p.real('ub'), p.real('v')
    ty = p.pick(['input', 'output'])
    before = Before(p, m.obj)
    p.case(lambda c: dict(kind='create', what='variable', u=u_case(p, c, 'u'), mname=c.str(m.name), name=c.str(nm), value=c.num(v), lb=c.num(lb), ub=c.num(ub),
                          exposed=True, type=ty, full=True))
    r = p.method(m.obj, 'createVariable', nm, u, ds, True, True, lb, ub, True, ty, lt, v)
    p.returns('the object is created', r)
    o = r[1]
    q = I.binop('Add', I.binop('Add', nm, '_'), m.name)

    def attrs():
        p.eq('name', p.attr(o, 'name'), q)
        dims_are(p, 'unit', p.attr(o, 'units'), es)
        p.eq('value', p.attr(o, 'value'), v)
        p.eq('lower bound', p.attr(o, 'lower_bound'), lb)
        p.eq('upper bound', p.attr(o, 'upper_bound'), ub)
        p.eq('description', p.attr(o, 'description'), ds)
        p.eq('representation', p.attr(o, 'latex_text'), lt)
        p.eq('direction', p.attr(o, 'type'), ty)
        p.ensure('exposure', p.attr(o, 'is_exposed') is True)
    p.one_of(attrs, *before.after(p, 'registered once', {'variables': [(q, o)]}, {ty: [o]}))


spec.obligation('creating a variable, all arguments by position')(positional)


def declared_f(I, m, k):
    return [I.contains(m.regs[r], k) for r in ('variables', 'parameters', 'constants')]


def equation(accept, form):
    def ob(p):
        I = p.I
        m = model(p)
        a = enode(p, 'a')
        maps = [a.smap]
        ex = a.obj
        if form == 'elem':
            b = enode(p, 'b', u=a.u)
            maps.append(b.smap)
            ex = (a.obj, b.obj)
        elif form == 'num':
            ex = (a.obj, p.number('n'))
        ds = [seqs.KeyDom(a.sm)] + ([seqs.KeyDom(b.sm)] if form == 'elem' else [])
        regs = [seqs.KeyDom(m.regs[r]) for r in ('variables', 'parameters', 'constants')]
        if accept:
            for d in ds:
                seqs.forall(I, d, lambda I, k: z3.Or(*[r.inside(I, k) for r in regs]))
        else:
            d = p.pick(ds, 'foreign_side')
            w = seqs.elem(I, d)
            p.assume(z3.And(*[z3.Not(r.inside(I, w)) for r in regs]))
        named = p.flag('named')
        nm = p.string('nm') if named else ''
        kw = dict(description=p.string('d')) if p.flag('d') else {}
        before = Before(p, m.obj)
        p.case(lambda c: dict(kind='equation', accept=accept, form=form, name=c.str(nm), mname=c.str(m.name)))
        r = p.method(m.obj, 'createEquation', nm, expr=ex, **kw)
        if accept:
            p.returns('an equation over declared objects is accepted', r)
            eq = r[1]
            q = p.attr(eq, 'name')

            def attrs():
                p.ensure('it is an equation', I.isinstance_(eq, p.get(C + 'equation', 'Equation')))
                p.eq('it knows its owner', p.attr(eq, 'owner_model_name'), m.name)
                if named:
                    p.eq('its name is qualified by the model', q, I.binop('Add', I.binop('Add', nm, '_'), m.name))
            p.one_of(attrs, *before.after(p, 'registered once', {'equations': [(q, eq)]}))
        else:
            p.raises('an equation over a foreign object is rejected', r)
            p.one_of(*before.after(p, 'rejection leaves the registries unchanged'))
    return ob


for _f in ('resid', 'elem', 'num'):
    spec.obligation('an equation over declared objects (%s)' % _f)(equation(True, _f))
    spec.obligation('an equation over a foreign object (%s)' % _f)(equation(False, _f))


@spec.obligation('a new model has empty registries of its own')
def _(p):
    I = p.I
    M = p.get(S + 'model', 'Model')
    ms = [I.call(M, [p.string('n%d' % i)], {}) for i in range(2)]
    for m in ms:
        for r in REGS + ('connections', 'parameter_arrays'):
            d = p.attr(m, r)
            p.ensure('no %s' % r, isinstance(d, PDict) and d.layers is None and not d.keys())
        ev = p.attr(m, 'exposed_vars')
        p.ensure('exposed variables by direction', isinstance(ev, PDict) and sorted(ev.keys()) == ['input', 'output']
                 and all(isinstance(x, PList) and x.items == [] for x in ev.values()))
    a, b = ms
    for r in REGS + ('connections', 'parameter_arrays', 'exposed_vars'):
        p.ensure('registries are not shared', p.attr(a, r) is not p.attr(b, r))
    for t in ('input', 'output'):
        p.ensure('registries are not shared', I.getitem(p.attr(a, 'exposed_vars'), t) is not I.getitem(p.attr(b, 'exposed_vars'), t))
    p.ensure('directions are not shared', I.getitem(p.attr(a, 'exposed_vars'), 'input') is not I.getitem(p.attr(a, 'exposed_vars'), 'output'))
