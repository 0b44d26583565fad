"""C12: connections join only exposed ports and equate what they join."""
from .lib import *

spec = Spec('C12')
spec.assumptions = ['the connected quantities carry the same unit (else C02 refuses their sum), their names contain no comma',
                    'automatically generated names are fresh (C27)',
                    'sum(list of expressions) adds them one after the other to 0; by induction with the obligations "adding one more term" it denotes the sum']


def unit0(p):
    I = p.I
    return unit(p, 'q')


def variable(p, u, name, specified=False, value=0.0):
    o = Obj(p.get(C + 'variable', 'Variable'))
    p.I.assume(str2z(name) != z3.StringVal(''))
    for k, v in dict(name=name, units=u, description='', value=value, latex_text='', is_specified=specified, owner_model_name='', is_lower_bounded=False,
                     is_upper_bounded=False, lower_bound=None, upper_bound=None, is_exposed=True, type='', domain=None).items():
        o.d.rset(k, v)
    return o


def vlist(p, tag, u):
    """an arbitrary list of variables; their fields depend on the position only"""
    nm = z3.Function(V.fresh('name_' + tag), z3.IntSort(), z3.StringSort())

    def mk(I, i):
        return variable(p, u, SStr((nm(intz(i)),)))
    l = glist(p, tag, mk)
    return l


def model_with_ports(p, tag, u):
    I = p.I
    m = model(p, tag)
    ev = PDict()
    for t in ('input', 'output'):
        m.exposed[t] = vlist(p, tag + '_' + t, u)
        ev.rset(t, m.exposed[t])
    I.setattr(m.obj, 'exposed_vars', ev)
    return m


def at(p, l, i):
    """element of an arbitrary list at position i (in range)"""
    I = p.I
    s = l.items.segs[0]
    I.assume(s.dom.inside(I, i))
    seqs.note_elem(I, s.dom, i)
    return s.run(I, i)[0]


KIND = ('right', 'direction', 'model', 'nowhere')


def ports(p, tag, own, other, t, u):
    """an arbitrary list of variables, some of them exposed as t by `own`; others are exposed elsewhere or nowhere"""
    I = p.I
    kf = z3.Function(V.fresh('kind_' + tag), z3.IntSort(), z3.IntSort())
    pf = z3.Function(V.fresh('pos_' + tag), z3.IntSort(), z3.IntSort())
    nm = z3.Function(V.fresh('nm_' + tag), z3.IntSort(), z3.StringSort())
    o = 'input' if t == 'output' else 'output'

    def mk(I, i):
        k, j = kf(intz(i)), SV('int', pf(intz(i)))
        if I.branch(k == 0):
            return at(p, own.exposed[t], j)
        if I.branch(k == 1):
            return at(p, own.exposed[o], j)
        if other is not own and I.branch(k == 2):
            return at(p, other.exposed[t], j)
        return variable(p, u, SStr((nm(intz(i)),)))
    l = glist(p, tag, mk)
    l.kf = kf
    return l


def one_port(p, tag, own, other, t, u, right):
    o = 'input' if t == 'output' else 'output'
    if right:
        return at(p, own.exposed[t], SV('int', z3.Int(V.fresh('i' + tag))))
    k = p.pick(['direction', 'model', 'nowhere'] if own is not other else ['direction', 'nowhere'], tag + '_where')
    if k == 'direction':
        return at(p, own.exposed[o], SV('int', z3.Int(V.fresh('i' + tag))))
    if k == 'model':
        return at(p, other.exposed[t], SV('int', z3.Int(V.fresh('i' + tag))))
    return variable(p, u, p.string('loose'))


def side(p, tag, own, other, t, u, single, right):
    """(argument, list of the variables)"""
    I = p.I
    if single:
        v = one_port(p, tag, own, other, t, u, right)
        return v, PList([v])
    l = ports(p, tag, own, other, t, u)
    d = l.items.segs[0].dom
    if right:
        seqs.forall(I, d, lambda I, i: l.kf(intz(i)) == 0)
    else:
        w = seqs.elem(I, d)
        I.assume(l.kf(intz(w)) != 0)
        if own is other:
            I.assume(l.kf(intz(w)) != 2)
    return l, l


def problem(p):
    I = p.I
    pr = I.call(p.get(S + 'problem', 'Problem'), [p.string('prob')], {})
    cs = gmap(p, 'conns', lambda I, k: obj_stub(p, S + 'connection', 'Connection', k))
    I.setattr(pr, 'connections', cs)
    I.setattr(pr, 'models', gmap(p, 'mods', lambda I, k: obj_stub(p, S + 'model', 'Model', k)))
    return pr, copy_of(cs), copy_of(p.attr(pr, 'models'))


def new_pairs(p, got, old):
    """pairs added to a dictionary with arbitrary older content"""
    if got.layers is None:
        return list(got.items())
    n = len(old.layers) if old.layers is not None else 0
    return [(l[1], l[2]) for l in got.layers if l[0] == 'kv']


def names(p, l):
    """the names of the variables of a list, joined"""
    I = p.I
    from pyvc import builtins_model as B
    if isinstance(l.items, list):
        return B.StrM.join(I, ',', PList([p.attr(v, 'name') for v in l.items]))
    s = l.items.segs[0]
    return B.StrM.join(I, ',', PList(seqs.GSeq([seqs.Seg(s.dom, lambda I, i: p.attr(s.run(I, i)[0], 'name'))])))


def sums(p, u):
    """assumed contract of sum() over a list of expressions of one unit; the terms are remembered"""
    got = []

    def f(I, a, k):
        g, start = a
        if start != 0 or len(g.segs) != 1:
            raise Unsupported('sum')
        s = g.segs[0]
        n = enode(p, 'sum', u=u, type_=0)
        seqs._jappend(got, (n, s))
        return n.obj
    p.hook(f, 'builtins.sum')
    return got


def term_of(p, s, l):
    """the terms of the sum are the quantities of the list l, one each"""
    I = p.I
    r = l.items.segs[0]
    if s.dom.key != r.dom.key or not s.exact:
        return False
    e = seqs.elem(I, r.dom)
    n, v = s.run(I, e)[0], r.run(I, e)[0]
    return is_enode(p, n) and symx.same(p.attr(n, 'repr_symbolic'), symx.symbol(p.attr(v, 'name'))) and symx.same(p.attr(n, 'symbolic_object'), symx.symbol(p.attr(v, 'name')))


def total(p, got, l):
    """(denotation, symbolic denotation) of the sum of the quantities of the list, as the code computed it"""
    I = p.I
    if isinstance(l.items, list):
        t = [z3.Select(symx.SIGMA, str2z(p.attr(v, 'name'))) for v in l.items]
        return sum(t[1:], t[0])
    for n, s in got:
        if term_of(p, s, l):
            return symx.den(n.sym)
    p.ensure('the quantities are summed', False, 'no sum over them')
    raise EnsureStop()


def effects(p, pr, cs, ms, src, dst, befores, outs, ins, r, resid):
    """the connection was made"""
    I = p.I
    eqs = p.attr(dst.obj, 'equations')
    new = new_pairs(p, eqs, befores[1].regs['equations'])
    if not p.ensure('one equation is added to the receiving model', len(new) == 1, repr(new)):
        return
    k, e = new[0]
    cp = new_pairs(p, p.attr(pr, 'connections'), cs)

    def attrs():
        p.ensure('it is an equation', I.isinstance_(e, p.get(C + 'equation', 'Equation')))
        p.eq('it is registered under its name', k, p.attr(e, 'name'))
        p.eq('the outputs are recorded', p.attr(e, 'output_var_name'), names(p, outs))
        p.eq('the inputs are recorded', p.attr(e, 'input_var_name'), names(p, ins))
        p.ensure('it is recorded in the problem', len(cp) == 1 and cp[0][1] is e, repr(cp))

    def den():
        x = p.attr(e, 'equation_expression')
        p.ensure('it has a residual', is_enode(p, x))
        p.ensure('it states what was asked for', symx.den(p.attr(x, 'symbolic_object')) == resid())
    out = [attrs, den, lambda: dict_after(p, 'connections of the problem', p.attr(pr, 'connections'), cs, cp),
           lambda: dict_after(p, 'models of the problem', p.attr(pr, 'models'), ms)]
    out += befores[1].after(p, 'the receiving model', {'equations': [(k, e)]})
    if src is not dst:
        out += befores[0].after(p, 'the other model')
    p.one_of(*out)


def nothing(p, pr, cs, ms, src, dst, befores):
    out = [lambda: dict_after(p, 'a refused connection is not recorded', p.attr(pr, 'connections'), cs),
           lambda: dict_after(p, 'models of the problem', p.attr(pr, 'models'), ms)]
    out += befores[1].after(p, 'a refused connection leaves the receiving model')
    if src is not dst:
        out += befores[0].after(p, 'a refused connection leaves the other model')
    p.one_of(*out)


def setting(p):
    u = unit0(p)
    src = model_with_ports(p, 'src', u)
    dst = model_with_ports(p, 'dst', u)
    p.distinct(src.name, dst.name)
    pr, cs, ms = problem(p)
    return u, src, dst, pr, cs, ms, (Before(p, src.obj), Before(p, dst.obj))


def connect(sout, sin, given):
    def ob(p):
        I = p.I
        u, src, dst, pr, cs, ms, bf = setting(p)
        a, outs = side(p, 'out', src, dst, 'output', u, sout, True)
        b, ins = side(p, 'in', dst, src, 'input', u, sin, True)
        got = sums(p, u)
        kw = {}
        if given:
            x = enode(p, 'x', u=u)
            kw['expr'] = x.obj
        p.case(lambda c: dict(kind='vars', scalar_out=sout, scalar_in=sin, expr=int(given), steps=1, seed=1))
        r = p.method(pr, 'createConnection', src.obj, dst.obj, a, b, **kw)
        p.returns('exposed variables are connected', r)
        effects(p, pr, cs, ms, src, dst, bf, outs, ins, r, (lambda: symx.den(x.sym)) if given else lambda: total(p, got, ins) - total(p, got, outs))
    return ob


def refuse(sout, sin, bad):
    def ob(p):
        I = p.I
        u, src, dst, pr, cs, ms, bf = setting(p)
        a, outs = side(p, 'out', src, dst, 'output', u, sout, bad == 'in')
        b, ins = side(p, 'in', dst, src, 'input', u, sin, bad == 'out')
        sums(p, u)
        kw = {}
        if p.flag('expr'):
            kw['expr'] = enode(p, 'x', u=u, type_=0).obj
        p.case(lambda c: dict(kind='vars', scalar_out=sout, scalar_in=sin, expr=int('expr' in kw), bad=True, steps=1, seed=1))
        r = p.method(pr, 'createConnection', src.obj, dst.obj, a, b, **kw)
        p.raises('variables that are not exposed are refused', r)
        if r[0] == 'raise':
            p.ensure('by the exposed-variable error', I.isinstance_(r[1], p.get(C + 'error_definitions', 'ExposedVariableError')), repr(r[1]))
        nothing(p, pr, cs, ms, src, dst, bf)
    return ob


for _so in (True, False):
    for _si in (True, False):
        w = '%s output%s, %s input%s' % ('one' if _so else 'any', '' if _so else 's', 'one' if _si else 'any', '' if _si else 's')
        for _g in (False, True):
            spec.obligation('connecting %s%s' % (w, ', with an expression' if _g else ''))(connect(_so, _si, _g))
        for _b in ('out', 'in', 'both'):
            spec.obligation('refusing %s, not exposed: %s' % (w, _b))(refuse(_so, _si, _b))


@spec.obligation('adding one more term to a sum of quantities')
def _(p):
    I = p.I
    u = unit0(p)
    es = dims(p, u)
    v = variable(p, u, p.string('v'))
    leaf = I.call(v, [], {})
    sy = z3.Select(symx.SIGMA, str2z(p.attr(v, 'name')))
    if p.flag('first'):
        p.case(lambda c: dict(kind='vars', steps=1, seed=1))
        r = p.attempt(lambda: I.binop('Add', 0, leaf))
        d0, sm, vm = 0, [], []
    else:
        a = enode(p, 'acc', u=u, type_=0)
        p.case(lambda c: dict(kind='vars', steps=1, seed=1))
        r = p.attempt(lambda: I.binop('Add', a.obj, leaf))
        d0, sm, vm = symx.den(a.sym), [a.sm], [a.vm]
    p.returns('the term is added', r)
    one = PDict()
    one.rset(p.attr(v, 'name'), v)
    p.one_of(lambda: p.ensure('the sum denotes the sum', symx.den(p.attr(r[1], 'symbolic_object')) == d0 + sy),
             lambda: dims_are(p, 'the sum has the unit', p.attr(r[1], 'unit_object'), es),
             lambda: map_is_union(p, 'the quantities', p.attr(r[1], 'symbolic_map'), sm + [one]),
             lambda: map_is_union(p, 'the unknowns', p.attr(r[1], 'variable_map'), vm + [one]),
             lambda: p.ensure('the sum is linear', etype(p, r[1])['linear'] is True))


def expressions(origin):
    def ob(p):
        I = p.I
        u, src, dst, pr, cs, ms, bf = setting(p)
        x, y = enode(p, 'x', u=u), enode(p, 'y', u=u)
        p.case(lambda c: dict(kind={'model': 'model', 'name': 'str', 'empty': 'empty'}[origin], steps=2, seed=1))
        first = {'model': lambda: src.obj, 'name': lambda: p.string('feed'), 'empty': lambda: ''}[origin]()
        # an equation called like the connection may exist; a name that is generated is not in use
        fresh(p, dst)
        r = p.method(pr, 'createConnection', first, dst.obj, x.obj, y.obj)
        p.returns('expressions are connected', r)
        eqs = p.attr(dst.obj, 'equations')
        new = new_pairs(p, eqs, bf[1].regs['equations'])
        if not p.ensure('one equation is written to the receiving model', len(new) == 1, repr(new)):
            return
        k, e = new[0]
        seqs.note_elem(I, seqs.KeyDom(bf[1].regs['equations']), k)
        p.ensure('no equation of the receiving model is replaced', z3.Not(seqs.layered_dom(I, bf[1].regs['equations'], k)))
        out = [lambda: p.eq('it is registered under its name', k, p.attr(e, 'name')),
               lambda: p.ensure('it states that both are equal', symx.den(p.attr(p.attr(e, 'equation_expression'), 'symbolic_object')) == symx.den(y.sym) - symx.den(x.sym)),
               lambda: dict_after(p, 'connections of the problem', p.attr(pr, 'connections'), cs)]
        p.one_of(*out, *bf[1].after(p, 'the receiving model', {'equations': [(k, e)]}), *bf[0].after(p, 'the other model'))
    return ob


def fresh(p, m):
    """generated names: gen_rnd_str returns a text that makes names no object of the model has"""
    I = p.I

    def gen(I, a, k):
        s = p.string('generated')
        d = m.regs['equations']

        def phi(I, key):
            return z3.Not(z3.Contains(str2z(key), str2z(s)))
        seqs.forall(I, seqs.KeyDom(d), phi)
        return s
    for mod in ('problem', 'core.equation'):
        I.setattr(p.mod('src.sloth.' + mod), 'gen_rnd_str', Native('gen_rnd_str', gen))


for _o in ('model', 'name', 'empty'):
    spec.obligation('connecting expressions, origin: %s' % _o)(expressions(_o))


@spec.obligation('connecting neither variables nor expressions is refused')
def _(p):
    I = p.I
    u, src, dst, pr, cs, ms, bf = setting(p)
    x, y = enode(p, 'x', u=u, type_=0), enode(p, 'y', u=u, type_=0)
    how = p.pick(['no model', 'expression and port', 'port and expression'], 'how')
    port = at(p, dst.exposed['input'], SV('int', z3.Int(V.fresh('i')))) if how == 'expression and port' else at(p, src.exposed['output'], SV('int', z3.Int(V.fresh('i'))))
    a, b, m1 = {'no model': (x.obj, y.obj, p.pick([None, 1, PList([])], 'first')), 'expression and port': (x.obj, port, src.obj), 'port and expression': (port, y.obj, src.obj)}[how]
    p.case(lambda c: dict(kind='vars', steps=1, seed=1))
    r = p.method(pr, 'createConnection', m1, dst.obj, a, b)
    p.raises('it is refused', r)
    nothing(p, pr, cs, ms, src, dst, bf)
