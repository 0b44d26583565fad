"""Sequences and dictionaries of unknown (unbounded) content: comprehension normal forms, quantifiers by
skolem witnesses and explicit instantiation, loop summaries by one generic iteration."""
import z3
from . import values as V
from .values import *
from .values import _MISSING


# ------------------------------------------------------------------ domains
class IndexDom:
    sort = 'int'

    def __init__(self, n, name='i'):
        self.n = n
        self.name = name
        self.key = ('ix', n.sexpr() if z3.is_expr(n) else n)

    def fresh(self, I):
        return SV('int', z3.Int(V.fresh(self.name)))

    def inside(self, I, e):
        return z3.And(intz(e) >= 0, intz(e) < self.n)

    def size(self, I):
        return self.n


class KeyDom:
    """keys of a dict made of map layers"""
    sort = 'str'

    def __init__(self, d):
        self.layers = list(d.layers)
        no_acc(d)
        self.d = PDict()
        self.d.layers = self.layers
        self.key = ('key',) + tuple(id(l[1]) if l[0] in ('map', 'gen') else (l[0], hkey(l[1])) for l in self.layers)

    def fresh(self, I):
        return SStr((z3.String(V.fresh('k')),))

    def inside(self, I, e):
        r = layered_dom(I, self.d, e)
        return z3.BoolVal(r) if isinstance(r, bool) else r

    def size(self, I):
        r = layered_len(I, self.d)
        return intz(r)

    def pos(self, I, e):
        if len(self.layers) == 1 and self.layers[0][0] == 'map':
            m = self.layers[0][1]
            p = m.pos(str2z(e))
            I.assume(z3.And(p >= 0, p < m.size))
            for k2 in m.doms:
                if not k2.eq(str2z(e)):
                    I.assume(z3.Implies(z3.And(m.dom(k2), m.pos(k2) == p), k2 == str2z(e)))
            return SV('int', p)
        raise Unsupported('position in a merged dictionary')


class Seg:
    """Generic segment: for each element e of dom, in dom order, the values run(I, e)."""

    def __init__(self, dom, run, exact=True, ordered=True):
        self.dom = dom
        self._run = run
        self.when = Moment()
        self.exact = exact       # exactly one value per element
        self.ordered = ordered

    def run(self, I, e):
        r = self.when.at(lambda: self._run(I, e))
        return [r] if self.exact else r


class GSeq:
    """Concatenation of concrete lists and generic segments."""

    def __init__(self, segs):
        self.segs = segs

    def has_conc_len(self):
        return all(isinstance(s, list) for s in self.segs)

    def concrete(self, I):
        if self.has_conc_len():
            return [x for s in self.segs for x in s]
        # a generic segment of known length
        out = []
        for s in self.segs:
            if isinstance(s, list):
                out.extend(s)
                continue
            if isinstance(s.dom, IndexDom):
                n = z3.simplify(s.dom.n)
                if z3.is_int_value(n):
                    for i in range(n.as_long()):
                        out.extend(s.run(I, i))
                    continue
            return None
        return out

    def length(self, I):
        tot = z3.IntVal(0)
        for s in self.segs:
            if isinstance(s, list):
                tot = tot + len(s)
            elif s.exact:
                n = s.dom.size(I)
                I.assume(n >= 0)
                tot = tot + n
            else:
                tot = tot + count(I, s)
        tot = z3.simplify(tot)
        return SV('int', tot) if not z3.is_int_value(tot) else tot.as_long()

    def member(self, I, x):
        """x in seq: bool or formula (branches for generic segments)"""
        fs = []
        for s in self.segs:
            if isinstance(s, list):
                r = I.contains(PList(s), x)
                if r is True:
                    return True
                if r is not False:
                    fs.append(r)
            else:
                kd = identity_seg(I, s)
                if kd and is_str(x):
                    r = s.dom.inside(I, x)
                    if not s.exact:
                        r = z3.And(r, nonempty_formula(I, s, x))
                    fs.append(r)
                    continue
                if fs and I.branch(z3.Or(*fs)):
                    return True
                fs = []
                if exists(I, s, lambda v: I.truth_f(ident_or_eq(I, v, x))):
                    return True
        return z3.Or(*fs) if fs else False

    def index(self, I, k):
        if len(self.segs) == 1 and not isinstance(self.segs[0], list):
            s = self.segs[0]
            if s.exact and s.ordered and isinstance(s.dom, IndexDom):
                i = intz(k)
                if isinstance(k, int) and k < 0:
                    i = s.dom.n + k
                if not I.branch(z3.And(i >= 0, i < s.dom.n)):
                    I.throw('IndexError', 'index out of range')
                e = SV('int', z3.simplify(i))
                note_elem(I, s.dom, e)
                return s.run(I, e)[0]
            if s.exact and s.ordered and isinstance(s.dom, KeyDom) and len(s.dom.layers) == 1 and s.dom.layers[0][0] == 'map':
                n = intz(s.dom.size(I))
                i = n + k if isinstance(k, int) and k < 0 else intz(k)
                if not I.branch(z3.And(i >= 0, i < n)):
                    I.throw('IndexError', 'index out of range')
                e = elem(I, s.dom)
                I.assume(s.dom.pos(I, e).t == i)
                return s.run(I, e)[0]
        if isinstance(k, int) and k >= 0:
            n = 0
            for s in self.segs:
                if isinstance(s, list):
                    if k < n + len(s):
                        return s[k - n]
                    n += len(s)
                else:
                    break
        if isinstance(k, int) and k < 0:
            last = self.segs[-1]
            if isinstance(last, list) and len(last) >= -k:
                return last[k]
        if isinstance(k, int) and k == -1 and len(self.segs) == 1 and not isinstance(self.segs[0], list):
            # last element: some element
            s = self.segs[0]
            if not I.branch(boolz_(I.compare('Gt', self.length(I), 0))):
                I.throw('IndexError', 'index out of range')
            e = elem(I, s.dom)
            vals = s.run(I, e)
            if not vals:
                raise PathInfeasible()
            return vals[-1]
        raise Unsupported('index of an unknown sequence')


class Acc:
    """A collection a loop over an unknown sequence adds to, seen from one iteration: what it held before the loop, the
    unknown additions of earlier iterations, and what this iteration added.  The only reading possible is whether the
    loop's own element is in it, provided that elements are pairwise distinct and every iteration adds its own element
    only."""

    def __init__(self, base, elem):
        self.base, self.elem = base, elem
        self.used = False
        self.never = None       # test whether no iteration can write a key

    def own(self, x):
        if self.never is not None and isinstance(x, str) and self.never(x):
            return True
        if not (self.elem is not None and is_str(x) and (x is self.elem or x == self.elem)):
            raise Unsupported('a collection is read inside a loop over an unknown sequence that adds to it')
        self.used = True
        return True


class AccSeq(GSeq):
    def __init__(self, acc, added=()):
        self.acc = acc
        self.added = list(added)

    @property
    def segs(self):
        raise Unsupported('a collection is read inside (or after an exception in) a loop over an unknown sequence that adds to it')

    def has_conc_len(self):
        return False

    def member(self, I, x):
        if any(x is y for y in self.added):
            return True
        self.acc.own(x)
        fs = I.contains(PList(self.added), x) if self.added else False
        return or_(fs, I.contains(PList(self.acc.base), x))


def no_acc(d):
    if d.layers and d.layers[0][0] == 'acc':
        raise Unsupported('a dictionary is read inside (or after an exception in) a loop over an unknown sequence that adds to it')


def boolz_(r):
    return z3.BoolVal(r) if isinstance(r, bool) else r.t


def same_content(I, a, b):
    """two sequences of strings provably have the same content (by structure, element by element)"""
    x, y = ([s for s in segs_of(norm(segs_of(g))) if s != []] for g in (a, b))
    if len(x) != len(y):
        return False
    for s, t in zip(x, y):
        if isinstance(s, list) != isinstance(t, list):
            return False
        if isinstance(s, list):
            if not (len(s) == len(t) and all(u is v or (is_str(u) and is_str(v) and u == v) for u, v in zip(s, t))):
                return False
            continue
        if s.dom.key != t.dom.key or s.exact != t.exact or s.ordered != t.ordered:
            return False
        e = s.dom.fresh(I)

        def th():
            I.assume(s.dom.inside(I, e))
            note_elem(I, s.dom, e)
            u, v = s.run(I, e), t.run(I, e)
            return len(u) == len(v) and all(p is q or (is_str(p) and is_str(q) and p == q) for p, q in zip(u, v))
        if not all(r[0] == 'ok' and r[1] for _, r, _ in I.subexplore(th)):
            return False
    return True


def ident_or_eq(I, v, x):
    r = I.identical(v, x)
    if r is True:
        return True
    r2 = I.eqf(v, x)
    if r2 is True:
        return True
    fs = [y for y in (r, r2) if y is not False]
    return z3.Or(*fs) if fs else False


# ------------------------------------------------------------------ universal facts and elements
def _plist(I, name):
    l = getattr(I, name, None)
    if l is None:
        l = []
        setattr(I, name, l)
    return l


class _Log:
    """what a recording of calls counts as: an object that existed before"""
    ser = 0

    def h_capture(self):
        return lambda: None

    def __repr__(self):
        return 'a record of calls'


LOG = _Log()


def _jappend(l, x):
    """record an effect (undone with the path; inside a loop over an unknown sequence it is out of reach)"""
    def u():
        l.pop()
    J.log.append(u)
    u.o = LOG
    l.append(x)


def _jmemo(l, x):
    """remember what is known about this path"""
    def u():
        if l and l[-1] is x:
            l.pop()
        else:
            l[:] = [y for y in l if y is not x]
    J.log.append(u)
    u.o = None
    u.memo = True
    l.append(x)


def note_elem(I, dom, e):
    """Register e (assumed inside dom) and instantiate the recorded universal facts at it."""
    els = _plist(I, 'elems')
    for d2, e2 in els:
        if d2.key == dom.key and same_term(e2, e):
            return
    _jmemo(els, (dom, e))
    for (d2, phi) in list(_plist(I, 'universals')):
        if d2.sort == dom.sort and (d2.sort == 'str' or d2.key == dom.key):
            inst(I, d2, phi, e)


def same_term(a, b):
    if isinstance(a, SV) and isinstance(b, SV):
        return a.t.eq(b.t)
    return type(a) == type(b) and a == b


def elem(I, dom):
    e = dom.fresh(I)
    I.assume(dom.inside(I, e))
    note_elem(I, dom, e)
    return e


def forall(I, dom, phi):
    """Assume phi(e) (host function returning z3 formula, evaluated under subexplore) for all e in dom."""
    _jmemo(_plist(I, 'universals'), (dom, phi))
    for (d2, e) in list(_plist(I, 'elems')):
        if d2.sort == dom.sort and (d2.sort == 'str' or d2.key == dom.key):
            inst(I, dom, phi, e)


def inst(I, dom, phi, e):
    n = getattr(I, 'inst_depth', 0)
    if n >= 2 and not getattr(phi, 'flat', False):
        return      # an instance of an instance ...: leaving out a fact is sound
    I.inst_depth = n + 1
    try:
        f = phi(I, e)
    finally:
        I.inst_depth = n
    if f is None:
        return
    I.assume(z3.Implies(dom.inside(I, e), f))


def truth_formula(I, thunk):
    """Formula equivalent to: thunk() is truthy on the path taken (evaluated over all its paths)."""
    outs = I.subexplore(lambda: I.truth(thunk()))
    fs = []
    for delta, r, _ in outs:
        if r[0] == 'ok' and r[1]:
            fs.append(z3.And(*delta) if delta else z3.BoolVal(True))
    return z3.simplify(z3.Or(*fs)) if fs else z3.BoolVal(False)


def assume_inside(I, dom, e):
    I.assume(dom.inside(I, e))
    if I.check() == z3.unsat:
        raise PathInfeasible()


def seg_true(s, test):
    """host formula function: all values of the segment at e satisfy test"""
    def phi(I, e):
        def th():
            assume_inside(I, s.dom, e)
            return all(I.truth_f(test(v)) if not isinstance(test(v), bool) else test(v) for v in s.run(I, e))
        outs = I.subexplore(th)
        fs = [z3.And(*delta) if delta else z3.BoolVal(True) for delta, r, _ in outs if r[0] == 'ok' and r[1]]
        return z3.simplify(z3.Or(*fs)) if fs else z3.BoolVal(False)
    return phi


def exists(I, s, test):
    """Python bool (branches): some value of segment s satisfies test(v)->bool (may branch)."""
    q = z3.Bool(V.fresh('ex'))
    if I.branch(q):
        e = elem(I, s.dom)
        for v in s.run(I, e):
            if test(v):
                I.last_witness = (s, e, v)
                return True
        raise PathInfeasible()

    def phi(I, e):
        def th():
            assume_inside(I, s.dom, e)
            return not any(test(v) for v in s.run(I, e))
        outs = I.subexplore(th)
        fs = [z3.And(*delta) if delta else z3.BoolVal(True) for delta, r, _ in outs if r[0] == 'ok' and r[1]]
        # paths that do not satisfy: their condition must not hold
        return z3.simplify(z3.Or(*fs)) if fs else z3.BoolVal(False)
    forall(I, s.dom, phi)
    return False


def quant(I, g, isall):
    segs = g.segs
    for s in segs:
        if isinstance(s, list):
            for v in s:
                t = I.truth(v)
                if isall and not t:
                    return False
                if not isall and t:
                    return True
        else:
            if isall:
                if exists(I, s, lambda v: not I.truth(v)):
                    return False
            else:
                if exists(I, s, lambda v: I.truth(v)):
                    return True
    return isall


_COUNTS = {}


def count(I, s):
    """Number of values contributed by a non-exact segment (at most one per element)."""
    e = s.dom.fresh(I)

    def th():
        I.assume(s.dom.inside(I, e))
        return len(s.run(I, e))
    outs = I.subexplore(th)
    if any(r[0] != 'ok' for _, r, _ in outs):
        raise Unsupported('count of a raising segment')
    if all(r[1] == 0 for _, r, _ in outs):
        return z3.IntVal(0)
    if any(r[1] > 1 for _, r, _ in outs):
        raise Unsupported('count of a multi-valued segment')
    cs = [z3.And(*d) if d else z3.BoolVal(True) for d, r, _ in outs if r[1] == 1]
    c = z3.simplify(z3.Or(*cs))
    canon = z3.substitute(c, (ez(e), z3.Int('canon_i') if s.dom.sort == 'int' else z3.String('canon_k')))
    table = _plist(I, 'counts')
    for (dk, c2, t) in table:
        if dk == s.dom.key:
            so = z3.Solver()
            so.set('timeout', 3000)
            for p in I.pc:
                so.add(p)
            so.add(z3.Not(c2 == canon))
            if so.check() == z3.unsat:
                return t
    t = z3.Int(V.fresh('count'))
    n = s.dom.size(I)
    I.assume(z3.And(t >= 0, t <= n, n >= 0))
    _jmemo(table, (s.dom.key, canon, t))
    # a positive count has a witness
    w = s.dom.fresh(I)
    I.assume(z3.Implies(t > 0, z3.And(s.dom.inside(I, w), z3.substitute(c, (ez(e), ez(w))))))
    forall(I, s.dom, lambda I, x: z3.Implies(z3.substitute(c, (ez(e), ez(x))), t > 0))
    note_elem(I, s.dom, w)
    return t


def ez(e):
    return intz(e) if not is_str(e) else str2z(e)


def identity_seg(I, s):
    """the segment yields its own key (KeyDom, value == element)"""
    if s.dom.sort != 'str':
        return False
    if getattr(s, 'ident', None) is None:
        e = s.dom.fresh(I)

        def th():
            I.assume(s.dom.inside(I, e))
            vs = s.run(I, e)
            return all(is_str(v) and v == e for v in vs) and len(vs) <= 1
        try:
            outs = I.subexplore(th)
            s.ident = all(r[0] == 'ok' and r[1] for _, r, _ in outs)
        except Unsupported:
            s.ident = False
    return s.ident


def nonempty_formula(I, s, x):
    def th():
        I.assume(s.dom.inside(I, x))
        note_elem(I, s.dom, x)
        return len(s.run(I, x)) > 0
    outs = I.subexplore(th)
    fs = [z3.And(*d) if d else z3.BoolVal(True) for d, r, _ in outs if r[0] == 'ok' and r[1]]
    return z3.Or(*fs) if fs else z3.BoolVal(False)


# ------------------------------------------------------------------ sequence operations
def items_of(I, v):
    if isinstance(v, (PList, PSet)):
        return v.items
    if isinstance(v, tuple):
        return list(v)
    g = as_generic(I, v)
    if g is not None:
        return g
    return list(I.iterate(v))


def segs_of(x):
    return [list(x)] if isinstance(x, (list, tuple)) else list(x.segs)


def norm(segs):
    out = []
    for s in segs:
        if isinstance(s, list):
            if not s:
                continue
            if out and isinstance(out[-1], list):
                out[-1] = out[-1] + s
                continue
        out.append(s)
    if not out:
        return []
    if len(out) == 1 and isinstance(out[0], list):
        return out[0]
    return GSeq(out)


def concat(I, a, b):
    if isinstance(a, AccSeq):
        if not isinstance(b, (list, tuple)):
            b = b.concrete(I)
            if b is None:
                raise Unsupported('nested unknown append')
        return AccSeq(a.acc, a.added + list(b))
    return norm(segs_of(a) + segs_of(b))


def map_items(I, g, f):
    out = []
    for s in g.segs:
        if isinstance(s, list):
            out.append([f(x) for x in s])
        else:
            out.append(Seg(s.dom, (lambda s: lambda I, e: [f(v) for v in s.run(I, e)])(s), False, s.ordered)
                       if not s.exact else Seg(s.dom, (lambda s: lambda I, e: f(s.run(I, e)[0]))(s), True, s.ordered))
    return GSeq(out)


def map_(I, g, f):
    r = map_items(I, g, f)
    guard_raise(I, r)
    return PList(r)


def filter_(I, g, f):
    out = []
    for s in g.segs:
        if isinstance(s, list):
            out.append([x for x in s if f(x)])
        else:
            out.append(Seg(s.dom, (lambda s: lambda I, e: [v for v in s.run(I, e) if f(v)])(s), False, s.ordered))
    r = GSeq(out)
    guard_raise(I, r)
    return PList(r)


def permuted(I, g):
    return GSeq([s if isinstance(s, list) else Seg(s.dom, (lambda s: lambda I, e: s.run(I, e)[0] if s.exact else s.run(I, e))(s), s.exact, False) for s in g.segs])


def first_(I, g, default):
    for s in g.segs:
        if isinstance(s, list):
            if s:
                return s[0]
        else:
            if exists(I, s, lambda v: True):
                return I.last_witness[2]
    if default is not _MISSING:
        return default
    I.throw('StopIteration')


def zip_(I, args):
    gs = [as_generic(I, a) for a in args]
    if all(g is None for g in gs):
        return None
    segs = []
    for a, g in zip(args, gs):
        if g is None:
            segs.append(list(I.iterate(a)))
            continue
        ss = g.segs
        if len(ss) != 1:
            raise Unsupported('zip of a composed sequence')
        segs.append(ss[0])
    gen = [s for s in segs if not isinstance(s, list)]
    if any(not (s.exact and s.ordered) for s in gen):
        raise Unsupported('zip of filtered or reordered sequences')
    if any(isinstance(s, list) for s in segs):
        raise Unsupported('zip of known and unknown sequences')
    if all(isinstance(s.dom, KeyDom) for s in gen):
        if len({s.dom.key for s in gen}) == 1:
            return PList(GSeq([Seg(gen[0].dom, lambda I, e: tuple(s.run(I, e)[0] for s in gen))]))
    if all(isinstance(s.dom, IndexDom) for s in gen):
        n = gen[0].dom.n
        for s in gen[1:]:
            n = z3.If(s.dom.n < n, s.dom.n, n) if not s.dom.n.eq(n) else n
        dom = gen[0].dom if n.eq(gen[0].dom.n) else IndexDom(n)
        return PList(GSeq([Seg(dom, lambda I, e: tuple(s.run(I, e)[0] for s in gen))]))
    # key domain zipped with index domain through the position function
    kd = [s for s in gen if isinstance(s.dom, KeyDom)]
    ids = [s for s in gen if isinstance(s.dom, IndexDom)]
    if len({s.dom.key for s in kd}) == 1:
        dom = kd[0].dom
        n = dom.size(I)
        for s in ids:
            so = I.check(z3.Not(n == s.dom.n))
            if so != z3.unsat:
                raise Unsupported('zip of sequences of different length')

        def run(I, e):
            p = dom.pos(I, e)
            out = []
            for s in gen:
                if isinstance(s.dom, KeyDom):
                    out.append(s.run(I, e)[0])
                else:
                    out.append(s.run(I, p)[0])
            return tuple(out)
        return PList(GSeq([Seg(dom, run)]))
    raise Unsupported('zip of unrelated unknown sequences')


def enumerate_(I, g, start):
    if len(g.segs) != 1 or isinstance(g.segs[0], list):
        raise Unsupported('enumerate of a composed sequence')
    s = g.segs[0]
    if not (s.exact and s.ordered):
        raise Unsupported('enumerate of a filtered sequence')

    def run(I, e):
        p = e if isinstance(s.dom, IndexDom) else s.dom.pos(I, e)
        return (I.binop('Add', start, p) if start != 0 else p, s.run(I, e)[0])
    return PList(GSeq([Seg(s.dom, run)]))


# ------------------------------------------------------------------ dictionaries of unknown content
def smap_dom(I, m, x):
    z = str2z(x)
    f = m.dom(z)
    if not any(z.eq(y) for y in m.doms):
        _jmemo(m.doms, z)
        I.assume(z3.And(z3.Implies(f, z3.And(z3.Not(m.empty), m.size >= 1)), m.size >= 0, m.empty == (m.size == 0)))
    return f


def smap_get(I, m, x):
    for k, v in m.cache:
        if k is x or k == x:
            return v
    for k, v in m.cache:
        r = I.str_eq(k, x)
        if I.truth_f(r):
            return v
    v = m.valf(I, x)
    _jmemo(m.cache, (x, v))
    return v


def gen_pairs_identity(I, s):
    """(k,v)-segment whose key is the element itself"""
    if not isinstance(s.dom, KeyDom):
        return False
    if getattr(s, 'kident', None) is None:
        e = s.dom.fresh(I)

        def th():
            I.assume(s.dom.inside(I, e))
            vs = s.run(I, e)
            return len(vs) <= 1 and all(is_str(k) and k == e for k, _ in vs)
        outs = I.subexplore(th)
        s.kident = all(r[0] == 'ok' and r[1] for _, r, _ in outs)
    return s.kident


def gen_total(I, s):
    """every element contributes"""
    if s.exact:
        return True
    if getattr(s, 'total', None) is None:
        e = s.dom.fresh(I)

        def th():
            I.assume(s.dom.inside(I, e))
            note_elem(I, s.dom, e)
            return len(s.run(I, e)) == 1
        s.total = all(r[0] == 'ok' and r[1] for _, r, _ in I.subexplore(th))
    return s.total


def gen_injective(I, s):
    """(k,v)-segment: every element contributes one pair, different elements different keys"""
    if not s.ordered:
        return False
    if getattr(s, 'inj', None) is None:
        e, q = s.dom.fresh(I), s.dom.fresh(I)

        def th():
            I.assume(s.dom.inside(I, e))
            I.assume(s.dom.inside(I, q))
            r = I.eqf(e, q)
            I.assume(z3.Not(r) if not isinstance(r, bool) else not r)
            note_elem(I, s.dom, e)
            note_elem(I, s.dom, q)
            a, b = s.run(I, e), s.run(I, q)
            if len(a) != 1 or len(b) != 1:
                return False
            r = I.eqf(a[0][0], b[0][0])
            return r is False or not isinstance(r, bool) and I.check(r) == z3.unsat
        _jcache(s.__dict__, 'inj', all(r[0] == 'ok' and r[1] for _, r, _ in I.subexplore(th)))
    return s.inj


def _jcache(d, k, v):
    """d[k] = v until the path is left"""
    d[k] = v

    def u():
        d.pop(k, None)
    J.log.append(u)
    u.o = None
    u.memo = True


def known_pair(I, s, x):
    """the pair with key x that an element already considered contributes (elements the key speaks about)"""
    if isinstance(x, str):
        return None
    ids = None
    seen = []
    for same in (True, False):
        for d2, e2 in list(_plist(I, 'elems')):
            if (d2.key == s.dom.key) != same or d2.sort != s.dom.sort or isinstance(e2, (str, int)) or any(e2 is y or e2 == y for y in seen):
                continue
            if ids is None:
                ids = subterms(str2z(x))
            if (e2.t if isinstance(e2, SV) else str2z(e2)).get_id() not in ids:
                continue
            seen.append(e2)
            if same or I.check(z3.Not(s.dom.inside(I, e2))) == z3.unsat:
                for kv in s.run(I, e2):
                    if I.eqf(kv[0], x) is True:
                        return kv
    return None


def subterms(t):
    ids, todo = set(), [t]
    while todo:
        t = todo.pop()
        if t.get_id() not in ids:
            ids.add(t.get_id())
            todo.extend(t.children())
    return ids


def gen_never(I, s, x):
    """(k,v)-segment: no element contributes the literal key x"""
    c = s.__dict__.setdefault('nevers', {})
    if x not in c:
        e = s.dom.fresh(I)

        def th():
            I.assume(s.dom.inside(I, e))
            note_elem(I, s.dom, e)
            for k, _ in s.run(I, e):
                r = I.eqf(k, x)
                if r is True or not isinstance(r, bool) and I.check(r) != z3.unsat:
                    return False
            return True
        _jcache(c, x, all(r[0] == 'ok' and r[1] for _, r, _ in I.subexplore(th)))
    return c[x]


def layered_dom(I, d, x):
    if not is_str(x):
        raise Unsupported('non-string key in a dictionary of unknown content')
    f = False
    if d.layers and d.layers[0][0] == 'acc' and any(l[0] == 'kv' and (l[1] is x or l[1] == x) for l in d.layers) and not any(l[0] == 'del' for l in d.layers):
        return True
    for l in d.layers:
        if l[0] == 'kv':
            r = I.eqf(l[1], x)
            f = or_(f, r)
        elif l[0] == 'acc':
            l[1].own(x)
            f = I.contains(l[1].base, x)
        elif l[0] == 'del':
            r = I.eqf(l[1], x)
            f = and_(f, not_(r))
        elif l[0] == 'map':
            f = or_(f, smap_dom(I, l[1], x))
        elif l[0] == 'gen':
            s = l[1]
            if gen_pairs_identity(I, s):
                r = s.dom.inside(I, x)
                if not s.exact:
                    r = z3.And(r, nonempty_formula(I, s, x))
                f = or_(f, r)
            else:
                if not (isinstance(x, str) and gen_never(I, s, x)):
                    if known_pair(I, s, x) is not None:
                        f = True
                    else:
                        f = or_(f, exists(I, s, lambda kv: I.truth_f(I.eqf(kv[0], x))))
    return f


def or_(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def and_(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def not_(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)


def layered_get(I, d, x):
    if not is_str(x):
        raise Unsupported('non-string key in a dictionary of unknown content')
    for l in reversed(d.layers):
        if l[0] == 'kv':
            if l[1] is x or I.truth_f(I.eqf(l[1], x)):
                return l[2]
        elif l[0] == 'acc':
            l[1].own(x)
            return I.dict_get(l[1].base, x)
        elif l[0] == 'del':
            if I.truth_f(I.eqf(l[1], x)):
                return _MISSING
        elif l[0] == 'map':
            if I.truth_f(smap_dom(I, l[1], x)):
                return smap_get(I, l[1], x)
        elif l[0] == 'gen':
            s = l[1]
            if gen_pairs_identity(I, s):
                if I.truth_f(s.dom.inside(I, x)):
                    note_elem(I, s.dom, x)
                    vs = s.run(I, x)
                    if vs:
                        return vs[0][1]
            elif not (isinstance(x, str) and gen_never(I, s, x)):
                kv = known_pair(I, s, x)
                if kv is not None and gen_injective(I, s):
                    return kv[1]
                if exists(I, s, lambda kv: I.truth_f(I.eqf(kv[0], x))):
                    return I.last_witness[2][1]
    return _MISSING


def sure_get(I, d, x):
    """the value of a key of the dictionary"""
    v = layered_get(I, d, x)
    if v is _MISSING:
        if I.check() == z3.unsat:
            raise PathInfeasible()
        raise Unsupported('an element that may be none of the dictionary')
    return v


def layered_len(I, d):
    no_acc(d)
    ls = d.layers
    if len(ls) == 1 and ls[0][0] == 'map':
        m = ls[0][1]
        I.assume(z3.And(m.size >= 0, m.empty == (m.size == 0)))
        return SV('int', m.size)
    if len(ls) == 1 and ls[0][0] == 'gen' and gen_pairs_identity(I, ls[0][1]):
        s = ls[0][1]
        return SV('int', s.dom.size(I)) if s.exact else SV('int', count(I, s))
    if len(ls) == 1 and ls[0][0] == 'gen' and gen_injective(I, ls[0][1]):
        return SV('int', ls[0][1].dom.size(I))
    key = ('dlen',) + tuple(id(l[1]) if l[0] in ('map', 'gen') else (l[0], I._keyof(l[1])) for l in ls)
    if key not in I.memo:
        I.memo[key] = z3.Int('dlen$%d' % len(I.memo))
    t = I.memo[key]
    I.assume(t >= 0)
    I.keepalive = getattr(I, 'keepalive', [])
    I.keepalive.append(list(ls))
    if any(l[0] == 'kv' for l in ls):
        I.assume(t >= 1)
    return SV('int', t)


def layered_empty(I, d):
    no_acc(d)
    kv = False
    fs = []
    for l in d.layers:
        if l[0] == 'kv':
            kv = True
        elif l[0] == 'del':
            raise Unsupported('emptiness after deletion')
    if kv:
        return False
    for l in d.layers:
        if l[0] == 'map':
            m = l[1]
            I.assume(z3.And(m.size >= 0, m.empty == (m.size == 0), z3.Implies(z3.Not(m.empty), m.dom(m.wit))))
            fs.append(m.empty)
        else:
            s = l[1]
            if s.exact:
                fs.append(s.dom.size(I) == 0)
            else:
                fs.append(count(I, s) == 0)
    return I.branch(z3.And(*fs) if fs else z3.BoolVal(True))


def views_equal(I, a, b):
    """== of two dictionary views, or of a view and a set"""
    for v in (a, b):
        if not isinstance(v, PSet) and not (isinstance(v, DView) and v.what != 'values'):
            return False        # (views of values and other objects are compared by identity)
    if any(isinstance(v, PSet) or v.d.layers is not None for v in (a, b)) and any(isinstance(v, DView) and v.what == 'items' for v in (a, b)):
        raise Unsupported('equality of views of items')
    if all(isinstance(v, DView) and v.d.layers is None or isinstance(v, PSet) and isinstance(v.items, list) for v in (a, b)):
        x, y = (v.items if isinstance(v, PSet) else v.conc(I) for v in (a, b))
        return len(x) == len(y) and all(I.truth_f(I.contains(PList(list(y)), q)) for q in x)
    if not all(isinstance(v, DView) for v in (a, b)):
        raise Unsupported('equality of sets of unknown content')
    now = []
    for v in (a, b):
        c = PDict()
        if v.d.layers is None:
            c.layers = [('kv', k, None) for k in v.d.keys()]
        else:
            no_acc(v.d)
            c.layers = list(v.d.layers)
        now.append(c)
    has = [lambda I, k, d=d: z3.BoolVal(r) if isinstance(r := I.contains(d, k), bool) else r for d in now]
    if I.branch(z3.Bool(V.fresh('eqkeys'))):
        for c, h in ((now[0], has[1]), (now[1], has[0])):
            if any(l[0] != 'kv' for l in c.layers):
                forall(I, KeyDom(c), h)
            for l in c.layers:
                if l[0] == 'kv':
                    I.assume(h(I, l[1]))
        return True
    k = SStr((z3.String(V.fresh('k')),))
    I.assume(has[0](I, k) != has[1](I, k))
    return False


class DView:
    def __init__(self, d, what):
        self.d = d
        self.what = what

    def conc(self, I):
        if self.what == 'keys':
            return self.d.keys()
        if self.what == 'values':
            return self.d.values()
        return [tuple(x) for x in self.d.items()]

    def contains(self, I, x):
        if self.what == 'keys':
            return I.contains(self.d, x)
        g = self.generic(I)
        if g is not None:
            return g.member(I, x)
        return I.contains(PList(self.conc(I)), x)

    def generic(self, I):
        if self.d.layers is None:
            return None
        no_acc(self.d)
        ls = self.d.layers
        kv = [l for l in ls if l[0] == 'kv']
        if len(kv) == len(ls):
            # distinctness of literal keys decides order; resolve into a plain dict
            p = PDict()
            for l in kv:
                I.dict_set(p, l[1], l[2])
            return GSeq([DView(p, self.what).conc(I)])
        ls = list(ls)
        tail = []
        while I is not None and len(ls) > 1 and ls[-1][0] == 'kv' and is_str(ls[-1][1]):
            # a key that is certainly new comes last
            pre = PDict()
            pre.layers = ls[:-1]
            r = layered_dom(I, pre, ls[-1][1])
            r = z3.BoolVal(r) if isinstance(r, bool) else r
            if not z3.is_false(z3.simplify(r)) and I.check(r) != z3.unsat:
                break
            tail.insert(0, ls.pop())
        snap = PDict()
        snap.layers = ls
        dom = KeyDom(snap)
        if I is not None and len(ls) == 1 and ls[0][0] == 'gen' and gen_pairs_identity(I, ls[0][1]) and gen_total(I, ls[0][1]):
            dom = ls[0][1].dom      # the keys are the elements the dictionary was made from, in the same order
        elif I is not None and not tail and len(ls) == 1 and ls[0][0] == 'gen' and gen_injective(I, ls[0][1]):
            g = ls[0][1]
            i = {'keys': 0, 'values': 1}.get(self.what)
            return GSeq([Seg(g.dom, lambda I, e: g.run(I, e)[0] if i is None else g.run(I, e)[0][i])])
        if tail:
            lit = [l[1] if self.what == 'keys' else l[2] if self.what == 'values' else (l[1], l[2]) for l in tail]
            return GSeq(DView(snap, self.what).generic(None).segs + [lit])
        if self.what == 'keys':
            s = Seg(dom, lambda I, e: e)
            s.ident = True
        elif self.what == 'values':
            s = Seg(dom, lambda I, e: sure_get(I, snap, e))
        else:
            s = Seg(dom, lambda I, e: (e, sure_get(I, snap, e)))
        return GSeq([s])


def update_from_pairs(I, d, g):
    I.to_layers(d)
    d.save()
    for s in segs_of(g):
        if isinstance(s, list):
            for kv in s:
                k, v = list(I.iterate(kv))
                d.layers.append(('kv', k, v))
        else:
            d.layers.append(('gen', s))


def as_generic(I, it):
    if isinstance(it, (PList, PSet)):
        if isinstance(it.items, list):
            return None
        if it.items.has_conc_len():
            return None
        return it.items
    if isinstance(it, PDict):
        return DView(it, 'keys').generic(I) if it.layers is not None else None
    if isinstance(it, DView):
        g = it.generic(I)
        return g
    if isinstance(it, LazyGen):
        return it.generic()
    if isinstance(it, Host) and hasattr(it, 'h_gseq'):
        return it.h_gseq(I)
    if isinstance(it, GSeq):
        return it
    return None


# ------------------------------------------------------------------ comprehensions
def snap_env(env):
    """copy of the local environments (late binding of names must not leak into a generic body)"""
    if env is env.glb:
        return env
    n = Env(parent=snap_env(env.parent) if env.parent is not None else None, glb=env.glb, fnlocals=env.fnlocals)
    n.v = dict(env.v)
    n.globals_decl, n.nonlocals, n.defcls, n.fn = env.globals_decl, env.nonlocals, env.defcls, env.fn
    n.execl, n.isclass, n.selfarg = env.execl, env.isclass, env.selfarg
    return n


def comp(I, e, elt, env, mod, first=_MISSING):
    """List of values (host list) or GSeq; elt is an expression or a (key, value) pair of expressions."""
    gens = e.generators

    def value(en):
        if isinstance(elt, tuple):
            return tuple(I.ev(x, en, mod) for x in elt)
        return I.ev(elt, en, mod)

    def build(i, en, it=_MISSING):
        if i == len(gens):
            return [[value(en)]]
        g = gens[i]
        if it is _MISSING:
            it = I.ev(g.iter, en, mod)
        gs = as_generic(I, it)
        segs = gs.segs if gs is not None else [None]
        out = []
        for s in segs:
            if s is None or isinstance(s, list):
                for v in (I.iterate(it) if s is None else s):
                    I.assign(g.target, v, en, mod)
                    if all(I.truth(I.ev(c, en, mod)) for c in g.ifs):
                        out.extend(build(i + 1, en))
            else:
                base = snap_env(en)

                def run(I, x, s=s, base=base):
                    vals = []
                    for v in s.run(I, x):
                        en2 = snap_env(base)
                        I.assign(g.target, v, en2, mod)
                        if all(I.truth(I.ev(c, en2, mod)) for c in g.ifs):
                            for seg in build(i + 1, en2):
                                if not isinstance(seg, list):
                                    raise Unsupported('nested iteration over unknown sequences')
                                vals.extend(seg)
                    return vals
                exact = s.exact and not g.ifs and i == len(gens) - 1
                if exact:
                    out.append(Seg(s.dom, lambda I, x, run=run: run(I, x)[0], True, s.ordered))
                else:
                    out.append(Seg(s.dom, run, False, s.ordered))
        return out
    if first is _MISSING:
        first = I.ev(gens[0].iter, env, mod)
    gs = as_generic(I, first)
    if gs is not None and any(isinstance(x, list) and x for x in gs.segs) and any(not isinstance(x, list) for x in gs.segs):
        m = J.mark()
        ser = V._serial[0]
        r = norm(build(0, env, first))
        if [o for o in J.touched(m, ser).values() if o is not None]:
            mixed = True
        else:
            mixed = False
    else:
        r, mixed = norm(build(0, env, first)), False
    if not isinstance(r, list):
        try:
            guard_raise(I, r)
        except SideEffect:
            if mixed or gs is None:
                raise
            r = effectful(I, e, elt, env, mod, first)
            if r is not None and isinstance(r, list):
                return r
    return r


def guard_raise(I, g):
    """Generic bodies that may raise: fork on 'some element raises'.  Bodies with side effects on older objects are
    out of reach."""
    from .interp import PyRaise
    for s in g.segs:
        if isinstance(s, list):
            continue
        e = s.dom.fresh(I)
        ser = V._serial[0]
        bad = []

        def th():
            I.assume(s.dom.inside(I, e))
            note_elem(I, s.dom, e)
            m = J.mark()
            try:
                s.run(I, e)
            finally:
                t = [o for o in J.touched(m, ser).values() if o is not None]
                if t:
                    bad.append(t)
        outs = I.subexplore(th)
        if bad:
            raise SideEffect('side effect inside a comprehension over an unknown sequence: %r' % (bad[0][0],))
        rs = [o for o in outs if o[1][0] == 'raise']
        if rs:
            q = z3.Bool(V.fresh('raises'))
            if I.branch(q):
                e2 = elem(I, s.dom)
                s.run(I, e2)
                raise PathInfeasible()

            def phi(I, x, s=s):
                def th2():
                    I.assume(s.dom.inside(I, x))
                    s.run(I, x)
                    return True
                o2 = I.subexplore(th2)
                fs = [z3.And(*d) if d else z3.BoolVal(True) for d, r, _ in o2 if r[0] == 'ok']
                return z3.simplify(z3.Or(*fs)) if fs else z3.BoolVal(False)
            forall(I, s.dom, phi)


class SideEffect(Unsupported):
    pass


def effectful(I, e, elt, env, mod, first):
    """[elt for x in unknown sequence if c] with side effects, as the loop that appends elt to a new list"""
    import ast
    if len(e.generators) != 1:
        raise Unsupported('side effects in a nested comprehension over unknown sequences')
    g = e.generators[0]
    acc = PList([])
    value = ast.Tuple(elts=list(elt), ctx=ast.Load()) if isinstance(elt, tuple) else elt
    st = ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id='$result', ctx=ast.Load()), attr='append', ctx=ast.Load()), args=[value], keywords=[]))
    for c in reversed(g.ifs):
        st = ast.If(test=c, body=[st], orelse=[])
    loop = ast.For(target=g.target, iter=g.iter, body=[st], orelse=[])
    ast.fix_missing_locations(ast.copy_location(loop, e))
    en = Env(parent=env, glb=env.glb, fnlocals={'$result'} | {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)})
    en.v['$result'] = acc
    generic_for(I, loop, as_generic(I, first), en, mod)
    return acc.items


class LazyGen:
    def __init__(self, I, e, env, mod):
        self.I, self.e, self.env, self.mod = I, e, env, mod
        self.first = I.ev(e.generators[0].iter, env, mod)
        self._it = None
        self._g = None
        self._checked = False

    def generic(self):
        """GSeq when some iterable is of unknown length, else None"""
        if self._g is not None:
            return self._g
        if self._it is not None:
            return None
        if as_generic(self.I, self.first) is not None:
            r = comp(self.I, self.e, self.e.elt, self.env, self.mod, self.first)
            if not isinstance(r, list):
                self._g = r
                return r
            self._it = iter(r)
        return None

    def force(self, I):
        g = self.generic()
        return g if g is not None else list(self.run())

    def run(self):
        if self._it is None:
            self._it = self._gen()
        return self._it

    def _gen(self):
        I, e, mod = self.I, self.e, self.mod
        gens = e.generators

        def rec(i, en, it=_MISSING):
            if i == len(gens):
                yield I.ev(e.elt, en, mod)
                return
            g = gens[i]
            if it is _MISSING:
                it = I.ev(g.iter, en, mod)
            if as_generic(I, it) is not None:
                raise Unsupported('lazy iteration over an unknown sequence')
            for v in I.iterate(it):
                I.assign(g.target, v, en, mod)
                if all(I.truth(I.ev(c, en, mod)) for c in g.ifs):
                    yield from rec(i + 1, en)
        yield from rec(0, self.env, self.first)


# ------------------------------------------------------------------ loops over unknown sequences
def generic_for(I, st, g, env, mod):
    from .interp import PyRaise, _Brk, _Cont, _Ret
    if g.concrete(I) is not None and False:
        pass
    for s in g.segs:
        if isinstance(s, list):
            for v in s:
                I.assign(st.target, v, env, mod)
                try:
                    I.exec_block(st.body, env, mod)
                except _Brk:
                    return
                except _Cont:
                    continue
            continue
        try:
            _generic_seg(I, st, s, env, mod)
        except _Brk_outer:
            return
    I.exec_block(st.orelse, env, mod)


class _EarlyExit(Exception):
    pass


def _generic_seg(I, st, s, env, mod):
    from .interp import PyRaise, _Brk, _Cont, _Ret
    base = snap_env(env)
    if env is env.glb:
        raise Unsupported('module-level loop over an unknown sequence')
    ser0 = V._serial[0]
    e0 = s.dom.fresh(I)

    def body(I, e, en):
        """one iteration; returns ('next'|'break'|'return', value)"""
        for v in s.run(I, e):
            I.assign(st.target, v, en, mod)
            try:
                I.exec_block(st.body, en, mod)
            except _Brk:
                return ('break', None)
            except _Cont:
                continue
            except _Ret as r:
                return ('return', r.v)
        return ('next', None)

    # 1. collect the effects of a generic iteration over all its paths
    effects = {}
    exits = set()
    assigned = set()

    def th():
        I.assume(s.dom.inside(I, e0))
        note_elem(I, s.dom, e0)
        en = snap_env(base)
        before = {k: id(v) for k, v in en.v.items()}
        lens = {}
        m = J.mark()
        r = body(I, e0, en)
        for o in J.touched(m, ser0).values():
            if o is None:
                continue
            if isinstance(o, (PList, PSet)):
                effects[id(o)] = ('list', o)
            elif isinstance(o, PDict):
                effects[id(o)] = ('dict', o)
            else:
                raise Unsupported('loop over an unknown sequence writes %r' % (o,))
        for k, v in en.v.items():
            if before.get(k) != id(v):
                assigned.add(k)
        exits.add(r[0])
        return r
    outs = I.subexplore(th)
    raising = any(o[1][0] == 'raise' for o in outs)

    # 2. exception / early exit: fork
    ident = isinstance(s.dom, KeyDom) and identity_seg(I, s)

    start = {i: ((dict(o.d), list(o.layers) if o.layers is not None else None, o.nsym) if isinstance(o, PDict) else (list(o.items) if isinstance(o.items, list) else o.items))
             for i, (k, o) in effects.items()}

    def guarded(e):
        """every collection the loop adds to, as one iteration may see it"""
        accs = {}
        for i, (k, o) in effects.items():
            o.save()
            if k == 'list':
                acc = accs[i] = Acc(list(o.items) if isinstance(o.items, list) else o.items, e if ident else None)
                o.items = AccSeq(acc)
            else:
                base = PDict(o.ordered)
                base.d, base.nsym, base.default_factory = dict(o.d), o.nsym, o.default_factory
                base.layers = list(o.layers) if o.layers is not None else None
                if o.default_factory is not None:
                    raise Unsupported('loop over an unknown sequence adds to a defaultdict')
                acc = accs[i] = Acc(base, e if ident else None)
                acc.never = lambda x, i=i: never(i, x)
                o.layers, o.d, o.nsym = [('acc', acc)], {}, 0
        return accs
    own = {}

    when = Moment()

    done = []

    def rerun(I, e):
        for x, r in done:
            if same_term(x, e):
                return r
        r = when.at(lambda: rerun_(I, e))
        _jmemo(done, (e, r))
        return r

    nevers, busy, requested = {}, set(), []

    def never(i, x):
        """no iteration writes key x of the dictionary (iterations before which nobody has written x behave like the first one)"""
        if (i, x) in nevers:
            return nevers[i, x]
        requested.append((i, x))
        if (i, x) in busy:
            return False
        busy.add((i, x))
        try:
            r = never_(i, x)
        finally:
            busy.discard((i, x))
        _jcache(nevers, (i, x), r)
        return r

    def never_(i, x):
        o = effects[i][1]

        def th4():
            m = J.mark()
            try:
                for k, (_, q) in effects.items():
                    q.save()
                    back = start[k]
                    if isinstance(q, PDict):
                        q.d, q.layers, q.nsym = dict(back[0]), list(back[1]) if back[1] is not None else None, back[2]
                    else:
                        q.items = list(back) if isinstance(back, list) else back
                e = s.dom.fresh(I)
                I.assume(s.dom.inside(I, e))
                note_elem(I, s.dom, e)
                body(I, e, snap_env(base))
                old = start[i]
                if o.layers is None:
                    ks = [k for h, (k, v) in o.d.items() if h not in old[0] or old[0][h][1] is not v]
                else:
                    n = len(old[1]) if old[1] is not None else None
                    if n is None or any(a is not b and a != b for a, b in zip(o.layers[:n], old[1])):
                        return False
                    if any(l[0] != 'kv' for l in o.layers[n:]):
                        return False
                    ks = [l[1] for l in o.layers[n:]]
                for k in ks:
                    r = I.eqf(k, x)
                    if r is True or not isinstance(r, bool) and I.check(r) != z3.unsat:
                        return False
                return True
            finally:
                J.undo_old(m, ser0)
        outs = I.subexplore(th4)
        return all(r[0] == 'raise' or r[0] == 'ok' and r[1] for _, r, _ in outs)

    def rerun_(I, e):
        """isolated re-execution of the body at e: returns (exit, {id: appended/sets}) with old objects restored"""
        m = J.mark()
        accs = guarded(e)
        en = snap_env(base)
        try:
            r = body(I, e, en)
            got = {}
            for i, (k, o) in effects.items():
                if k == 'list':
                    if not isinstance(o.items, AccSeq) or o.items.acc is not accs[i]:
                        raise Unsupported('a loop over an unknown sequence replaces a collection')
                    got[i] = list(o.items.added)
                    mine = all(x is e or is_str(x) and x == e for x in got[i])
                else:
                    if o.layers is None or o.layers[:1] != [('acc', accs[i])] or any(x[0] != 'kv' for x in o.layers[1:]):
                        raise Unsupported('dictionary change in a loop')
                    got[i] = [(x[1], x[2]) for x in o.layers[1:]]
                    mine = all(x is e or is_str(x) and x == e for x, _ in got[i])
                u, w = own.get(i, (False, True))
                own[i] = (u or accs[i].used, w and mine)
        finally:
            J.undo_old(m, ser0)
        return r, got

    if effects:
        # one guarded iteration over all its paths: no reading of what other iterations add
        def th3():
            e = s.dom.fresh(I)
            I.assume(s.dom.inside(I, e))
            note_elem(I, s.dom, e)
            rerun(I, e)
        I.subexplore(th3)
        if any(u and not w for u, w in own.values()):
            raise Unsupported('a collection is read inside a loop over an unknown sequence that adds to it')

        for i, x in sorted(set(requested), key=str):      # settled here, they hold wherever the summary is used
            nevers[i, x] = never_(i, x)

    # reading an accumulator inside the body makes the iteration depend on history: detect by poisoning
    _check_no_read(I, st, effects, env, mod)
    targets = set()
    import ast as _ast
    for n in _ast.walk(st.target):
        if isinstance(n, _ast.Name):
            targets.add(n.id)
    carried = _carried(st, assigned)
    if carried:
        raise Unsupported('loop over an unknown sequence carries %s between iterations' % sorted(carried))
    if raising:
        q = z3.Bool(V.fresh('raises'))
        if I.branch(q):
            e = elem(I, s.dom)
            guarded(e)     # what earlier iterations added stays unknown
            body(I, e, env)
            raise PathInfeasible()
    if 'break' in exits or 'return' in exits:
        if effects:
            raise Unsupported('early exit from an accumulating loop over an unknown sequence')
        q = z3.Bool(V.fresh('exits'))
        if I.branch(q):
            e = elem(I, s.dom)
            r = body(I, e, env)
            if r[0] == 'next':
                raise PathInfeasible()
            if r[0] == 'return':
                raise _Ret(r[1])
            # break: skip the else clause as well
            raise _Brk_outer()

    if raising or 'break' in exits or 'return' in exits:
        def phi(I, x):
            def th2():
                I.assume(s.dom.inside(I, x))
                return rerun(I, x)[0][0] == 'next'
            o2 = I.subexplore(th2)
            fs = [z3.And(*d) if d else z3.BoolVal(True) for d, r, _ in o2 if r[0] == 'ok' and r[1]]
            return z3.simplify(z3.Or(*fs)) if fs else z3.BoolVal(False)
        forall(I, s.dom, phi)

    # 3. apply the summary
    once = set()            # the collections every iteration adds exactly one value to
    if effects:
        def th5():
            e = s.dom.fresh(I)
            I.assume(s.dom.inside(I, e))
            note_elem(I, s.dom, e)
            r, got = rerun(I, e)
            return {i for i in got if len(got[i]) == 1} if r[0] == 'next' else None
        counts = [r[1] for _, r, _ in I.subexplore(th5) if r[0] == 'ok' and r[1] is not None]
        if counts:
            once = set.intersection(*counts)
    for i, (k, o) in effects.items():
        single = i in once

        def run(I, e, i=i, single=single):
            r = rerun(I, e)[1][i]
            return r[0] if single else r
        seg = Seg(s.dom, run, single, s.ordered)
        if k == 'list':
            o.save()
            o.items = concat(I, o.items, GSeq([seg]))
        else:
            I.to_layers(o)
            o.save()
            o.layers.append(('gen', seg))
    # locals assigned in the body: unknown afterwards (any use is out of reach)
    for n in assigned:
        if n in env.v:
            old = env.v[n]
            env.set(n, Poison('loop variable %s' % n))


class _Brk_outer(Exception):
    pass


class Poison(Host):
    def __init__(self, why):
        self.why = why

    def __getattribute__(self, n):
        if n.startswith('h_'):
            raise Unsupported('use of ' + object.__getattribute__(self, 'why'))
        return object.__getattribute__(self, n)


def _carried(st, assigned):
    """names read before being written in the body (they carry state between iterations)"""
    import ast
    tg = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
    out = set()
    written = set(tg)

    def walk(n):
        if isinstance(n, ast.Assign):
            walk(n.value)
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        written.add(x.id)
                    elif isinstance(x, ast.Name) and x.id in assigned and x.id not in written:
                        out.add(x.id)
            return
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            walk(n.value)
            if n.target.id not in written:
                out.add(n.target.id)
            return
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in assigned and n.id not in written:
            out.add(n.id)
            return
        for c in ast.iter_child_nodes(n):
            walk(c)
    for b in st.body:
        walk(b)
    return out & assigned


def _check_no_read(I, st, effects, env, mod):
    """An accumulator may only be written through append/extend/update/item assignment inside the body."""
    import ast
    accs = {i for i in effects}

    def names_of(o):
        out = set()
        e = env
        while e is not None and e is not e.glb:
            for k, v in e.v.items():
                if v is o:
                    out.add(k)
            e = e.parent
        return out
    for i, (k, o) in effects.items():
        names = names_of(o)
        for n in ast.walk(ast.Module(body=st.body, type_ignores=[])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
                p = _parent(st, n)
                ok = isinstance(p, ast.Attribute) and p.attr in ('append', 'extend', 'update', 'add') or \
                    isinstance(p, ast.Subscript) and isinstance(p.ctx, ast.Store) and p.value is n
                if not ok:
                    raise Unsupported('accumulator %s is read inside a loop over an unknown sequence' % n.id)


def _parent(root, node):
    import ast
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            if c is node:
                return n
    return None
