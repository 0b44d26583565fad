"""C11: incorporating a model copies it under the new owner, leaving the source intact."""
from .lib import *
from pyvc.values import _MISSING

spec = Spec('C11')
spec.assumptions = ['registered objects are named base_owner (C10), and no base name is the name of an attribute every model has',
                    'model names are not empty', 'no two objects of the source get one name']
KINDS = {'variables': (C + 'variable', 'Variable'), 'parameters': (C + 'parameter', 'Parameter'), 'constants': (C + 'constant', 'Constant')}
SS = (z3.StringSort(), z3.StringSort())
SR = (z3.StringSort(), z3.RealSort())



class World:
    """a source model with arbitrary objects, a new owner with an arbitrary history"""

    def __init__(self, p, kinds=('variables', 'parameters', 'constants'), equations=None):
        I = p.I
        self.p = p
        self.dst = model(p, 'd')
        self.sname = p.string('s_name')
        I.assume(str2z(self.sname) != z3.StringVal(''))
        I.assume(str2z(self.dst.name) != z3.StringVal(''))
        self.base = z3.Function(V.fresh('base'), *SS)
        self.own = z3.Function(V.fresh('owner'), *SS)      # an object may have come from another model
        self.inv = z3.Function(V.fresh('inv'), *SS)        # no two objects of the source get one name
        self.val = z3.Function(V.fresh('val'), *SR)
        self.text = z3.Function(V.fresh('text'), *SS)
        self.lb = z3.Function(V.fresh('lb'), *SR)
        self.spec = z3.Function(V.fresh('spec'), z3.StringSort(), z3.BoolSort())
        self.exp = z3.Function(V.fresh('exposed'), z3.StringSort(), z3.BoolSort())
        self.inp = z3.Function(V.fresh('input'), z3.StringSort(), z3.BoolSort())
        self.dim = [z3.Function(V.fresh('dim_' + d), *SR) for d in DIMS]
        self.src = I.call(p.get(S + 'model', 'Model'), [self.sname], {})
        V.NOT_AMONG[self.base.name()] = frozenset({k for c in self.src.cls.mro for k in getattr(c, 'ns', {})} | {I.conc_str(k) for k in self.src.d.keys()})
        self.eqbase = z3.Function(V.fresh('eqbase'), *SS)
        V.NOT_AMONG[self.eqbase.name()] = V.NOT_AMONG[self.base.name()]
        self.regs = {}
        for r, (mod, c) in KINDS.items():
            self.regs[r] = gmap(p, 's_' + r, lambda I, k, mod=mod, c=c: self.obj(I, mod, c, k)) if r in kinds else PDict()
            I.setattr(self.src, r, self.regs[r])

        def named(I, k):
            return self.name(str2z(k))
        named.flat = True
        for r in kinds:
            seqs.forall(I, seqs.KeyDom(self.regs[r]), named)

    def name(self, z):
        return z3.And(z == z3.Concat(self.base(z), z3.StringVal('_'), self.own(z)), self.own(z) != z3.StringVal(''), self.inv(self.base(z)) == z)

    def bare(self, k):
        return SStr((self.base(str2z(k)),))

    def new(self, k):
        return self.p.I.binop('Add', self.p.I.binop('Add', self.bare(k), '_'), self.dst.name)

    def obj(self, I, mod, c, k):
        p, z = self.p, str2z(k)
        I.define(self.name(z))
        own = SStr((self.own(z),))
        o = Obj(p.get(mod, c))
        u = Obj(p.get(C + 'unit', 'Unit'))
        for a, v in (('name', SStr((self.text(z),))), ('description', ''), ('dimension', dimdict(p, [SV('float', f(z)) for f in self.dim]))):
            u.d.rset(a, v)
        for a, v in (('name', I.binop('Add', I.binop('Add', self.bare(k), '_'), own)), ('units', u), ('description', SStr((self.text(z),))), ('value', SV('float', self.val(z))), ('latex_text', SStr((self.text(z),))),
                     ('is_specified', SV('bool', self.spec(z))), ('owner_model_name', own)):
            o.d.rset(a, v)
        if c == 'Variable':
            t = SStr((z3.If(self.inp(z), z3.StringVal('input'), z3.StringVal('output')),))
            for a, v in (('is_exposed', SV('bool', self.exp(z))), ('type', t), ('lower_bound', SV('float', self.lb(z))), ('upper_bound', None), ('is_lower_bounded', True),
                         ('is_upper_bounded', False), ('domain', None)):
                o.d.rset(a, v)
        return o


def copied(p, w, k, o, x, name):
    """x is an independent copy of o (registered as k), renamed"""
    I = p.I
    if not p.ensure('the copy is an object of its own', isinstance(x, Obj) and x is not o and x.cls is o.cls, repr(x)):
        return
    p.eq('the copy is renamed', p.attr(x, 'name'), name)
    p.eq('the copy is owned by the new model', p.attr(x, 'owner_model_name'), w.dst.name)
    for a in ('description', 'value', 'latex_text', 'is_specified') + (('is_exposed', 'type', 'lower_bound', 'upper_bound') if x.cls.name == 'Variable' else ()):
        p.eq('the copy has the same ' + a, p.attr(x, a), p.attr(o, a))
    z = str2z(k)
    dims_are(p, 'the copy has the same unit', p.attr(x, 'units'), [SV('float', f(z)) for f in w.dim])
    disjoint(p, 'the copy shares nothing with its original', [x], [o])


def others(p, w, dom, new, got, old):
    """keys that are no new name: as before"""
    I = p.I
    q = p.string('q')
    seqs.forall(I, dom, lambda I, e: z3.Not(boolf(I.str_eq(new(e), q))))
    a, b = I.truth_f(I.contains(got, q)), I.truth_f(I.contains(old, q))
    if p.ensure('no other name is registered or lost', a == b) and a:
        p.ensure('other objects stay', I.dict_get(got, q) is I.dict_get(old, q))


def boolf(r):
    return z3.BoolVal(r) if isinstance(r, bool) else r


def exposures(p, w, reg, before, t, renamed):
    """the exposed variables: the old ones and the copies of those the source exposes"""
    I = p.I
    got = I.dict_get(p.attr(w.dst.obj, 'exposed_vars'), t)
    if not p.ensure('exposed %s variables (a list)' % t, isinstance(got, PList), repr(got)):
        return
    ss = [x for x in seqs.segs_of(seqs.norm(seqs.segs_of(got.items))) if x != []]
    old = [x for x in seqs.segs_of(seqs.norm(seqs.segs_of(before.exposed[t].items))) if x != []]
    dom = seqs.KeyDom(w.regs[reg])
    if not p.maybe('exposed %s variables (shape)' % t, len(ss) == len(old) + 1 and all(not isinstance(x, list) for x in ss) and [x.dom.key for x in ss[:-1]] == [x.dom.key for x in old]
                   and ss[-1].ordered and ss[-1].dom.key == dom.key, repr(ss)):
        return
    k = seqs.elem(I, dom)
    z = str2z(k)
    want = I.branch(z3.And(w.exp(z), w.inp(z) if t == 'input' else z3.Not(w.inp(z))))
    v = ss[-1].run(I, k)
    if p.ensure('exposed %s variables' % t, len(v) == (1 if want else 0), repr(v)) and want:
        p.ensure('the exposed variable is the copy', v[0] is I.dict_get(p.attr(w.dst.obj, reg), renamed(k)), repr(v))


def one_kind(reg, part, rewrite=True, selected=True):
    def ob(p):
        I = p.I
        w = World(p, (reg,))
        if part == 'exposed':
            k = None
        else:
            k = seqs.elem(I, seqs.KeyDom(w.regs[reg]))
            o = I.dict_get(w.regs[reg], k)
            snap = snapshot(p, o)
        sregs = {r: copy_of(d) for r, d in w.regs.items()}
        before = Before(p, w.dst.obj)
        new = w.new if rewrite else (lambda k: k)
        sel = {'incorporate_' + reg: False} if not selected else {}
        p.case(lambda c: dict(kind='inc', src='m1', dst='m2', objs=[[reg[:-1], 'x', 1.5, None], [reg[:-1], 'y', 2.0, 'input' if reg == 'variables' else None]], eqs=[],
                              rewrite=rewrite, sel=[int(selected or reg != r) for r in KINDS] + [1]))
        r = p.method(w.dst.obj, 'incorporateFromExternalModel', w.src, **dict(sel, **({} if rewrite else {'rewrite_name': False})))
        p.returns('a model is incorporated', r)
        if not selected:
            p.one_of(*before.after(p, 'the new owner is unchanged'))
            return
        got = p.attr(w.dst.obj, reg)
        dom = seqs.KeyDom(sregs[reg])

        def present():
            if p.ensure('every object is there under its new name', I.truth_f(I.contains(got, new(k)))):
                copied(p, w, k, o, I.dict_get(got, new(k)), new(k))

        def source():
            unchanged(p, 'the objects of the source are unchanged', snap)
            for r in KINDS:
                p.ensure('the registries of the source are unchanged', p.attr(w.src, r) is w.regs[r] and same_shallow(shallow(w.regs[r]), shallow(sregs[r])))
            p.ensure('the name of the source is unchanged', p.attr(w.src, 'name') is w.sname)
        if part == 'exposed':
            if reg == 'variables':
                p.one_of(lambda: exposures(p, w, reg, before, 'input', new), lambda: exposures(p, w, reg, before, 'output', new))
            else:
                p.one_of(*before.after(p, 'exposures')[-2:])
        elif part == 'copies':
            p.one_of(present, source)
        else:
            p.one_of(lambda: others(p, w, dom, new, got, before.regs[reg]),
                     *[lambda r=r: dict_after(p, r, p.attr(w.dst.obj, r), before.regs[r], ()) for r in REGS if r != reg])
    return ob


for _r in KINDS:
    spec.obligation('any number of %s: the copies' % _r)(one_kind(_r, 'copies'))
    spec.obligation('any number of %s: everything else in the new owner' % _r)(one_kind(_r, 'others'))
    spec.obligation('any number of %s: exposed variables' % _r)(one_kind(_r, 'exposed'))
    spec.obligation('any number of %s, names kept' % _r)(one_kind(_r, 'copies', rewrite=False))
    spec.obligation('any number of %s, not asked for' % _r)(one_kind(_r, 'copies', selected=False))


# ------------------------------------------------------------------ equations
def merge(I, regs):
    """the source's objects by name: names are unique within a model"""
    whole = PDict()
    whole.layers = [l for r in regs for l in r.layers or []]
    return whole


def source_equation(p, w, regs, form, tag='e', **types):
    """an equation of the source over its objects, residual or two-sided, as createEquation and deepcopy leave it"""
    I = p.I
    whole = merge(I, regs)

    def stub(I, k):
        return I.dict_get(whole, k)
    def known(I, k):
        return boolf(seqs.layered_dom(I, whole, k))
    known.flat = True
    n = Node()
    n.sides = []

    def side(t, **kw):
        x = enode(p, tag + t, stub=stub, **kw)
        for d in (x.sm, x.vm):
            seqs.forall(I, seqs.KeyDom(d), known)
        n.sides.append(x)
        return x
    a = side('a', **types)
    ex = a.obj
    if form == 'elem':
        b = side('b', u=a.u, **types)
        ex = (a.obj, b.obj)
    elif form == 'num':
        ex = (a.obj, p.real('rhs'))
    elif form == 'same':
        ex = (a.obj, a.obj)
    n.bare = SStr((w.eqbase(z3.String(V.fresh('eq'))),))
    n.key = I.binop('Add', I.binop('Add', n.bare, '_'), w.sname)
    n.obj = I.call(p.get(C + 'equation', 'Equation'), [n.key, p.string('eq_desc'), ex, w.sname], {})
    return n


def nodes(p, e):
    x = p.attr(e, 'elementary_equation_expression')
    return [p.attr(e, 'equation_expression')] + (list(x) if isinstance(x, tuple) else [])


def renamed_tree(p, what, a, b, maps):
    """b is a, with a substitution applied to its unknown parts and symbols"""
    if isinstance(a, symx.Ex) and a.op == 'gen':
        if p.maybe(what + ' (shape)', isinstance(b, symx.Ex) and b.op == 'subs' and b.args[0] is a and b.info[0] == 'map', repr(b)):
            maps.append(b.info[1])
    elif isinstance(a, symx.Ex) and a.op == 'app':
        if p.maybe(what + ' (shape)', isinstance(b, symx.Ex) and b.op == 'app' and b.info == a.info and len(a.args) == len(b.args), repr(b)):
            for x, y in zip(a.args, b.args):
                renamed_tree(p, what, x, y, maps)
    else:
        p.ensure(what, (a is b) or same_val(a, b), '%r %r' % (a, b))


def refers(p, w, what, old, new, rename, copy):
    """the map of an incorporated expression: the copies of what the original recorded, under their new names"""
    I = p.I
    if old.layers is None and not old.keys():
        return
    q = seqs.elem(I, seqs.KeyDom(old))
    n = rename(q)
    if p.ensure(what + ': every quantity is recorded under its new name', I.truth_f(I.contains(new, n))):
        p.ensure(what + ': the copy is referred to', I.dict_get(new, n) is copy(q), repr(I.dict_get(new, n)))


def refers_only(p, w, what, old, new, rename):
    I = p.I
    q = p.string('q')
    if old.layers is not None or old.keys():
        seqs.forall(I, seqs.KeyDom(old), lambda I, e: z3.Not(boolf(I.str_eq(rename(e), q))))
    p.ensure(what + ': nothing else is recorded', not I.truth_f(I.contains(new, q)))


def equations(form, reg, rewrite=True):
    def ob(p):
        I = p.I
        w = World(p, (reg,))
        e = source_equation(p, w, [w.regs[reg]], form, **({'type_': 0} if reg == 'variables' and form != 'res' else {}))
        I.dict_set(p.attr(w.src, 'equations'), e.key, e.obj)
        before = Before(p, w.dst.obj)
        rename = w.new if rewrite else (lambda k: k)
        old = nodes(p, e.obj)
        snap = [snapshot(p, x) for x in [e.obj] + old]
        osym = [(p.attr(x, 'symbolic_object'), p.attr(x, 'repr_symbolic')) for x in old]
        omap = [(copy_of(p.attr(x, 'symbolic_map')), copy_of(p.attr(x, 'variable_map'))) for x in old]
        p.case(lambda c: dict(kind='inc', src='m1', dst='m2', objs=[[reg[:-1], 'x', 1.5, None], [reg[:-1], 'y', 2.0, None]],
                              eqs=[['e', ['+', ['q', 'x'], ['q', 'y']], {'res': None, 'num': 3.5, 'elem': ['q', 'x'], 'same': ['+', ['q', 'x'], ['q', 'y']]}[form]]], rewrite=rewrite, sel=[1, 1, 1, 1]))
        r = p.method(w.dst.obj, 'incorporateFromExternalModel', w.src, **({} if rewrite else {'rewrite_name': False}))
        p.returns('a model with an equation is incorporated', r)
        name = I.binop('Add', I.binop('Add', e.bare, '_'), w.dst.name) if rewrite else e.key
        eqs = p.attr(w.dst.obj, 'equations')

        def found():
            if not p.ensure('the equation is there under its new name', I.truth_f(I.contains(eqs, name))):
                raise EnsureStop()
            x = I.dict_get(eqs, name)
            if not p.ensure('the equation is a copy', isinstance(x, Obj) and x is not e.obj and x.cls is e.obj.cls, repr(x)):
                raise EnsureStop()
            return x

        def attributes():
            x = found()
            p.eq('the equation is renamed', p.attr(x, 'name'), name)
            p.eq('the equation is owned by the new model', p.attr(x, 'owner_model_name'), w.dst.name)
            for a in ('description', 'type', 'equation_form'):
                p.eq('the equation has the same ' + a, p.attr(x, a), p.attr(e.obj, a))
            p.ensure('the equation has the same sides', len(nodes(p, x)) == len(old))
            disjoint(p, 'the equation shares no expression', nodes(p, x), old)

        def formulas():
            x = found()
            i = p.choice(len(old), 'side')
            if len(nodes(p, x)) != len(old):
                raise EnsureStop()
            y = nodes(p, x)[i]
            j = p.choice(2, 'which form')
            maps = []
            renamed_tree(p, 'the formula is renamed', osym[i][j], p.attr(y, ('symbolic_object', 'repr_symbolic')[j]), maps)
            if not maps:
                raise EnsureStop()
            m = maps[p.choice(len(maps), 'part')]
            if omap[i][0].layers is None:
                raise EnsureStop()
            q = seqs.elem(I, seqs.KeyDom(omap[i][0]))
            if p.ensure('every quantity is renamed', I.truth_f(I.contains(m, q))):
                v = I.dict_get(m, q)
                v = v.info if isinstance(v, symx.Ex) and v.op == 'sym' else v
                if p.ensure('a quantity is replaced by a symbol', is_str(v), repr(v)):
                    p.eq('the new symbol', v, rename(q))

        def recorded(what, k, only):
            def f():
                x = found()
                i = p.choice(len(old), 'side')
                if len(nodes(p, x)) != len(old):
                    raise EnsureStop()
                new = p.attr(nodes(p, x)[i], what)
                if only:
                    refers_only(p, w, what, omap[i][k], new, rename)
                else:
                    refers(p, w, what, omap[i][k], new, rename, lambda q: I.dict_get(p.attr(w.dst.obj, reg), rename(q)))
            return f

        def source():
            for s in snap:
                unchanged(p, 'the equation of the source is unchanged', s)
        p.one_of(attributes, formulas, recorded('symbolic_map', 0, False), recorded('symbolic_map', 0, True), recorded('variable_map', 1, False), recorded('variable_map', 1, True),
                 source, lambda: dict_after(p, 'equations', eqs, before.regs['equations'], [(name, I.dict_get(eqs, name))]))
    return ob


for _f in ('res', 'num', 'elem', 'same'):
    for _r in KINDS:
        spec.obligation('an equation over any number of %s: %s' % (_r, _f))(equations(_f, _r))


@spec.obligation('an equation over objects that are not there is refused')
def _(p):
    I = p.I
    reg = p.pick(list(KINDS), 'kind')
    w = World(p, (reg,))
    e = source_equation(p, w, [w.regs[reg]], 'res', type_=0)
    I.dict_set(p.attr(w.src, 'equations'), e.key, e.obj)
    q = seqs.elem(I, seqs.KeyDom(p.attr(e.obj, 'equation_expression', 'symbolic_map')))
    for r in KINDS:
        f = I.truth_f(I.contains(p.attr(w.dst.obj, r), w.new(q)))
        p.assume(not f)
    p.case(lambda c: dict(kind='inc', src='m1', dst='m2', objs=[[reg[:-1], 'x', 1.5, None], [reg[:-1], 'y', 2.0, None]], eqs=[['e', ['+', ['q', 'x'], ['q', 'y']], None]],
                          rewrite=True, sel=[int(r != reg) for r in KINDS] + [1]))
    r = p.method(w.dst.obj, 'incorporateFromExternalModel', w.src, **{'incorporate_' + reg: False})
    p.raises('an equation over objects that are not there is refused', r)


@spec.obligation('equations not asked for')
def _(p):
    I = p.I
    w = World(p, ())
    e = source_equation(p, w, [w.regs['variables']], p.pick(['res', 'elem', 'num'], 'form'), type_=0)
    I.setattr(w.src, 'equations', gmap(p, 's_eqs', lambda I, k: obj_stub(p, C + 'equation', 'Equation', k)))
    before = Before(p, w.dst.obj)
    p.case(lambda c: dict(kind='inc', src='m1', dst='m2', objs=[['variable', 'x', 1.5, None]], eqs=[['e', ['q', 'x'], None]], rewrite=True, sel=[1, 1, 1, 0]))
    r = p.method(w.dst.obj, 'incorporateFromExternalModel', w.src, incorporate_equations=False)
    p.returns('a model is incorporated', r)
    dict_after(p, 'equations', p.attr(w.dst.obj, 'equations'), before.regs['equations'], ())
