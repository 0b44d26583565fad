"""Shared vocabulary of the specifications: generic units, quantities and expressions; frames."""
import z3
from pyvc import values as V
from pyvc.values import *
from pyvc.values import _MISSING
from pyvc import symx, seqs
from pyvc.vc import Spec, P, EnsureStop
from pyvc.interp import T, PyRaise, EXC

C = 'src.sloth.core.'
S = 'src.sloth.'
DIMS = ('m', 'kg', 's', 'A', 'K', 'mol', 'cd')
PRELOAD = [C + m for m in ('unit', 'template_units', 'error_definitions', 'quantity', 'constant', 'parameter', 'variable', 'expression_evaluation',
                            'equation_operators', 'equation', 'domain', 'property_package')] + [
    S + m for m in ('model', 'problem', 'simulation', 'solvers', 'optimization', 'analysis', 'unit_op', 'unit_op_library', 'connection')]
OPS = {'+': 'Add', '-': 'Sub', '*': 'Mult', '/': 'Div', '**': 'Pow'}


def cls(p, mod, name):
    return p.get(mod, name)


def Unit(p):
    return p.get(C + 'unit', 'Unit')


def dimdict(p, vals):
    d = PDict()
    for k, v in zip(DIMS, vals):
        d.rset(k, v)
    return d


def unit(p, tag='u'):
    """an arbitrary unit: seven arbitrary real exponents, arbitrary name and description"""
    es = [p.real('%s_%s' % (tag, d)) for d in DIMS]
    u = p.I.call(Unit(p), [p.string(tag + '_nm', False), dimdict(p, es), p.string(tag + '_ds', False)], {})
    p.units = getattr(p, 'units', {})
    p.units[tag] = es
    return u


def dims(p, u):
    """current exponents of a unit object"""
    d = p.attr(u, 'dimension')
    out = []
    for k in DIMS:
        v = p.I.dict_get(d, k)
        if v is _MISSING:
            p.ensure('unit has exponent for ' + k, False)
            raise EnsureStop()
        out.append(v)
    return out


def eqdims(p, a, b):
    return z3.And(*[real(x) == real(y) for x, y in zip(a, b)])


def dimless_f(es):
    return z3.And(*[real(x) == 0 for x in es])


def dims_are(p, name, u, want):
    if not p.I.isinstance_(u, Unit(p)):
        return p.ensure(name, False, 'not a unit: %r' % (u,))
    d = p.attr(u, 'dimension')
    if len(d.keys()) != 7:
        return p.ensure(name, False, 'exponents of %r' % (d.keys(),))
    return p.ensure(name, eqdims(p, dims(p, u), want))


# ------------------------------------------------------------------ frames
def reach(p, roots):
    """mutable objects reachable from roots (host ids)"""
    seen = {}
    work = list(roots)
    while work:
        v = work.pop()
        if isinstance(v, tuple):
            work.extend(v)
            continue
        if id(v) in seen:
            continue
        if isinstance(v, Obj):
            seen[id(v)] = v
            if v.d.layers is None:
                work.extend(v.d.values())
        elif isinstance(v, PList) or isinstance(v, PSet):
            seen[id(v)] = v
            if isinstance(v.items, list):
                work.extend(v.items)
        elif isinstance(v, PDict):
            seen[id(v)] = v
            if v.layers is None:
                work.extend(v.values())
                work.extend(v.keys())
            else:
                for l in v.layers:
                    if l[0] == 'kv':
                        work.append(l[2])
    return seen


def shallow(v):
    if isinstance(v, Obj):
        return ('obj', v.cls, [(k, x) for k, x in v.d.d.values()])
    if isinstance(v, (PList, PSet)):
        return ('list', list(v.items) if isinstance(v.items, list) else list(v.items.segs))
    if isinstance(v, PDict):
        return ('dict', [(k, x) for k, x in v.d.values()], list(v.layers) if v.layers is not None else None)


def snapshot(p, *roots):
    return [(o, shallow(o)) for o in reach(p, roots).values()]


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, int, float, str)) and isinstance(b, (bool, int, float, str)):
        return type(a) is type(b) and a == b
    if isinstance(a, (SV, SStr)):
        return a == b
    if isinstance(a, BM) and isinstance(b, BM):
        return a.fn is b.fn and a.self_ is b.self_
    if isinstance(a, symx.Ex):
        return isinstance(b, symx.Ex) and symx.same(a, b)
    return False


def same_shallow(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'obj':
        return a[1] is b[1] and len(a[2]) == len(b[2]) and all(
            same_val(k, k2) and same_val(x, y) for (k, x), (k2, y) in zip(sorted(a[2], key=lambda t: str(t[0])), sorted(b[2], key=lambda t: str(t[0]))))
    if a[0] == 'list':
        return len(a[1]) == len(b[1]) and all(same_val(x, y) for x, y in zip(a[1], b[1]))
    if (a[2] is None) != (b[2] is None):
        return False
    if a[2] is not None:
        return len(a[2]) == len(b[2]) and all(
            x[0] == y[0] and all(same_val(q, r) for q, r in zip(x[1:], y[1:])) for x, y in zip(a[2], b[2]))
    return len(a[1]) == len(b[1]) and all(same_val(k, k2) and same_val(x, y) for (k, x), (k2, y) in zip(a[1], b[1]))


def unchanged(p, name, snap, ignore=()):
    bad = []
    for o, s in snap:
        if any(o is x for x in ignore):
            continue
        if not same_shallow(s, shallow(o)):
            bad.append(o)
    p.ensure(name, not bad, 'modified: %r' % (bad[:3],))


def disjoint(p, name, results, operands, allow=()):
    """no mutable object reachable from results is reachable from operands (except `allow`)"""
    a = reach(p, results)
    b = reach(p, operands)
    ok = reach(p, allow)
    sh = [v for k, v in a.items() if k in b and k not in ok]
    p.ensure(name, not sh, 'shared: %r' % (sh[:3],))


# ------------------------------------------------------------------ expressions
def quantity_stub(p, key):
    o = Obj(p.get(C + 'variable', 'Variable'))
    o.d.rset('name', key)
    return o


class Node:
    pass


def enode(p, tag='a', sym=None, rep=None, u=None, type_=None, link=True, stub=None):
    """An arbitrary expression satisfying the class invariant of EquationNode."""
    I = p.I
    n = Node()
    n.u = unit(p, tag) if u is None else u
    n.es = dims(p, n.u)
    smap = SMap(V.fresh('sm_' + tag), stub or (lambda I, k: quantity_stub(p, k)))
    vmap = SMap(V.fresh('vm_' + tag), lambda I, k: seqs.smap_get(I, smap, k))
    n.smap, n.vmap = smap, vmap
    sm, vm = PDict(), PDict()
    sm.layers = [('map', smap)]
    vm.layers = [('map', vmap)]
    n.sm, n.vm = sm, vm
    seqs.forall(I, seqs.KeyDom(vm), lambda I, k: seqs.smap_dom(I, smap, k))
    I.assume(z3.And(vmap.size >= 0, vmap.empty == (vmap.size == 0)))
    I.assume(z3.And(smap.size >= 0, smap.empty == (smap.size == 0)))
    n.sym = symx.gen(I, 's' + tag) if sym is None else sym
    n.rep = symx.gen(I, 'r' + tag) if rep is None else rep
    c, a, d = symx.flags(n.sym)
    # class invariant: no unknown means constant; a plain number involves no unknown
    t = p.choice(3, tag + '_type') if type_ is None else type_
    if t != 2:
        I.assume(z3.Implies(vmap.empty, c))
    if not isinstance(n.sym, symx.Ex):
        I.assume(vmap.empty)
    n.type = ('linear', 'nonlinear', 'differential')[t]
    if t == 0:
        I.assume(z3.And(a, z3.Not(d)))
    I.assume(z3.Implies(d, z3.BoolVal(t == 2)))
    if not isinstance(n.sym, symx.Ex) and t == 2:
        raise PathInfeasible()
    n.const, n.affine, n.hasder = c, a, d
    n.name = p.string(tag + '_name', False)
    n.obj = I.call(p.get(C + 'expression_evaluation', 'EquationNode'), [], dict(
        name=n.name, symbolic_object=n.sym, symbolic_map=sm, variable_map=vm, is_linear=(t == 0),
        is_nonlinear=(t == 1), is_differential=(t == 2), unit_object=n.u, args=PList([]),
        latex_text=p.string(tag + '_latex', False), repr_symbolic=n.rep))
    n.args = [n.obj]
    return n


def symkind(p, tag):
    """symbolic object: an expression or a plain number"""
    return None if p.flag(tag + '_isexpr') else p.real(tag + '_val')


def etype(p, e):
    d = p.attr(e, 'equation_type')
    return {k: p.I.getitem(d, 'is_' + k) for k in ('linear', 'nonlinear', 'differential')}


def is_enode(p, v):
    return p.I.isinstance_(v, p.get(C + 'expression_evaluation', 'EquationNode'))


def binop(p, op, a, b):
    return p.op(OPS[op], a, b)


def map_is_union(p, name, m, parts):
    """for an arbitrary key: recorded exactly when recorded in one of the parts, with that part's object"""
    if not isinstance(m, PDict):
        p.ensure(name + ' is a dictionary', False, repr(m))
        return
    k = p.string('key')
    I = p.I
    got = I.truth_f(I.contains(m, k))
    ins = []
    for q in parts:
        ins.append(I.truth_f(I.contains(q, k)))
    p.ensure(name, got == any(ins), 'recorded %s, in operands %s' % (got, ins))
    if got and any(ins):
        v = I.dict_get(m, k)
        cand = [I.dict_get(q, k) for q, i in zip(parts, ins) if i]
        p.ensure(name + ': objects', any(v is c for c in cand), '%r not in %r' % (v, cand))


def u_case(p, m, tag):
    return [m.num(x) for x in p.units[tag]]


# ------------------------------------------------------------------ arbitrary collections
def gmap(p, tag, mk):
    """an arbitrary dictionary from names to mk(I, name)"""
    m = SMap(V.fresh(tag), mk)
    d = PDict()
    d.layers = [('map', m)]
    p.I.assume(z3.And(m.size >= 0, m.empty == (m.size == 0)))
    return d


def copy_of(d):
    """the present content of a dictionary or list"""
    if isinstance(d, PDict):
        c = PDict()
        if d.layers is not None:
            c.layers = list(d.layers)
        else:
            for k, v in d.items():
                c.rset(k, v)
        return c
    return PList(list(d.items) if isinstance(d.items, list) else seqs.GSeq(list(d.items.segs)))


def glist(p, tag, mk):
    """an arbitrary list of mk(I, position)"""
    n = z3.Int(V.fresh('n_' + tag))
    p.I.assume(n >= 0)
    memo = []

    def at(I, i):
        for j, o in memo:
            if j is i or (isinstance(i, SV) and isinstance(j, SV) and i.t.eq(j.t)) or (type(i) is type(j) is int and i == j):
                return o
        for j, o in memo:
            if I.branch(intz(i) == intz(j)):
                return o
        o = mk(I, i)
        seqs._jmemo(memo, (i, o))
        return o
    return PList(seqs.GSeq([seqs.Seg(seqs.IndexDom(n, tag), at)]))


def list_is(p, name, got, want):
    """got is the same list as want (a PList: known elements and arbitrary parts, in order)"""
    if not p.ensure(name + ' (a list)', isinstance(got, PList), repr(got)):
        return
    a, b = seqs.segs_of(seqs.norm(seqs.segs_of(got.items))), seqs.segs_of(seqs.norm(seqs.segs_of(want.items)))
    a, b = [x for x in a if x != []], [x for x in b if x != []]
    ga, gb = ([y for y in x if not isinstance(y, list)] for x in (a, b))
    if [y.dom.key for y in ga] != [y.dom.key for y in gb] or not all(y.exact for y in ga + gb):
        definite = False        # parts that range over different collections may still have the same elements
    else:
        definite = True
    if not (p.ensure if definite else p.maybe)(name + ' (shape)', len(a) == len(b) and all(isinstance(x, list) == isinstance(y, list) and (not isinstance(x, list) or len(x) == len(y))
                                                                for x, y in zip(a, b)), '%r instead of %r' % (a, b)):
        return
    for x, y in zip(a, b):
        if isinstance(x, list):
            p.ensure(name, all(same_val(u, v) or p.I.identical(u, v) is True for u, v in zip(x, y)), '%r instead of %r' % (x, y))
            continue
        if not p.maybe(name + ' (part)', x.dom.key == y.dom.key and x.exact == y.exact and x.ordered, 'another part'):
            continue
        e = seqs.elem(p.I, x.dom)
        u, v = x.run(p.I, e), y.run(p.I, e)
        if len(u) == len(v) == 1 and not same_val(u[0], v[0]) and (is_num(u[0]) and is_num(v[0]) or is_str(u[0]) and is_str(v[0])):
            p.eq(name, u[0], v[0])
            continue
        p.ensure(name, len(u) == len(v) and all(s is t or same_val(s, t) for s, t in zip(u, v)), '%r instead of %r' % (u, v))


def dict_after(p, name, got, old, added=()):
    """for an arbitrary key: got is old with the pairs added"""
    I = p.I
    if not p.ensure(name + ' (a dictionary)', isinstance(got, PDict), repr(got)):
        return
    k = p.string('key')
    for n, v in reversed(list(added)):
        if I.truth_f(I.str_eq(k, n)):
            if p.ensure(name + ': present', I.truth_f(I.contains(got, k))):
                p.ensure(name + ': object', I.dict_get(got, k) is v, '%r instead of %r' % (I.dict_get(got, k), v))
            return
    w, g = I.truth_f(I.contains(old, k)), I.truth_f(I.contains(got, k))
    p.ensure(name + ': other keys', w == g)
    if w and g:
        a, b = I.dict_get(got, k), I.dict_get(old, k)
        p.ensure(name + ': other objects', a is b or same_val(a, b), '%r instead of %r' % (a, b))


# ------------------------------------------------------------------ models
REGS = ('variables', 'parameters', 'constants', 'equations')


def obj_stub(p, mod, cls, key):
    o = Obj(p.get(mod, cls))
    o.d.rset('name', key)
    return o


def model(p, tag='m', cls=None):
    """a model with an arbitrary history: arbitrary registries and exposed variables"""
    I = p.I
    n = Node()
    n.name = p.string(tag + '_name')
    n.obj = I.call(p.get(S + 'model', 'Model') if cls is None else cls, [n.name], {})
    n.regs = {}
    for r, (mod, c) in zip(REGS, ((C + 'variable', 'Variable'), (C + 'parameter', 'Parameter'), (C + 'constant', 'Constant'), (C + 'equation', 'Equation'))):
        d = gmap(p, tag + '_' + r, lambda I, k, mod=mod, c=c: obj_stub(p, mod, c, k))
        I.setattr(n.obj, r, d)
        n.regs[r] = d
    n.exposed = {}
    ev = PDict()
    for t in ('input', 'output'):
        l = glist(p, tag + '_' + t, lambda I, i: obj_stub(p, C + 'variable', 'Variable', p.string('exname')))
        n.exposed[t] = l
        ev.rset(t, l)
    I.setattr(n.obj, 'exposed_vars', ev)
    return n


class Before:
    """the registries of a model, remembered"""

    def __init__(self, p, m):
        self.m = m
        self.regs = {r: copy_of(p.attr(m, r)) for r in REGS}
        ev = p.attr(m, 'exposed_vars')
        self.exposed = {t: copy_of(p.I.getitem(ev, t)) for t in ('input', 'output')}

    def after(self, p, name, added=None, exposed=None, only=None):
        """conjuncts: registries are the remembered ones plus added {registry: [(key, object)]}, exposed {direction: [objects]}"""
        added, exposed = added or {}, exposed or {}
        out = []
        for r in REGS:
            out.append(lambda r=r: dict_after(p, '%s: %s' % (name, r), p.attr(self.m, r), self.regs[r], added.get(r, ())))

        def ex(t):
            ev = p.attr(self.m, 'exposed_vars')
            l = p.I.dict_get(ev, t)
            want = PList(seqs.GSeq(seqs.segs_of(self.exposed[t].items) + [list(exposed.get(t, ()))]))
            list_is(p, '%s: exposed %s variables' % (name, t), l, want)
        out += [lambda: ex('input'), lambda: ex('output')]
        return out
