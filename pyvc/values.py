"""Value domain of the verifier: what a Python object is during symbolic execution.

Concrete Python immutables (int, float, str, bool, None, tuple of values) stand for themselves.
Everything else is one of the classes below.  Mutable ones journal their writes so that the
explorer can undo a path.
"""
from fractions import Fraction
import z3


class Unsupported(Exception):
    """The construct is outside the verifier's reach: the obligation is undecided, never violated."""


class PathInfeasible(Exception):
    pass


class Journal:
    def __init__(self):
        self.log = []
        self.writes = []        # (position, entry) of the writes to heap objects in the log

    def mark(self):
        return len(self.log)

    def undo(self, mark):
        log = self.log
        while len(log) > mark:
            log.pop()()
        self.drop(mark)

    def drop(self, mark):
        w = self.writes
        while w and w[-1][0] >= mark:
            w.pop()

    def rec(self, o, u):
        """Record the undo closure of a write to heap object o."""
        u.o = o
        self.writes.append((len(self.log), u))
        self.log.append(u)

    def undo_old(self, mark, ser):
        """Undo the writes since mark to objects that existed at serial `ser`; keep writes to newer ones."""
        keep = []
        log = self.log
        while len(log) > mark:
            u = log.pop()
            o = getattr(u, 'o', None)
            if getattr(u, 'memo', False) or o is not None and getattr(o, 'ser', 0) > ser:
                keep.append(u)
            else:
                u()
        keep.reverse()
        self.drop(mark)
        for u in keep:
            o = getattr(u, 'o', None)
            if o is not None and o.__class__ is not Moment:
                self.writes.append((len(log), u))
            log.append(u)

    def touched(self, mark, ser):
        """Objects older than `ser` written since mark (None for untracked writes)."""
        out = {}
        for u in self.log[mark:]:
            o = getattr(u, 'o', None)
            if o is None:
                out[None] = None
            elif getattr(o, 'ser', 0) <= ser:
                out[id(o)] = o
        return out


def capture(o):
    """-> closure restoring the present state of a heap object (in place)"""
    if isinstance(o, (PList, PSet)):
        it = list(o.items) if isinstance(o.items, list) else o.items

        def r():
            o.items = it
    elif isinstance(o, PDict):
        d, c, lay, ns = o.d, dict(o.d), o.layers if o.layers is None else list(o.layers), o.nsym

        def r():
            d.clear()
            d.update(c)
            o.d, o.layers, o.nsym = d, lay, ns
    elif isinstance(o, Env):
        v, cv = o.v, dict(o.v)

        def r():
            v.clear()
            v.update(cv)
    elif isinstance(o, Cls):
        n, cn = o.ns, dict(o.ns)

        def r():
            n.clear()
            n.update(cn)
    elif isinstance(o, Obj):
        c2, d2 = o.cls, o.d

        def r():
            o.cls, o.d = c2, d2
    elif hasattr(o, 'h_capture'):
        return o.h_capture()
    else:
        raise Unsupported('state of %r at an earlier time' % (o,))
    return r


class Moment:
    """A point of the execution.  `at` evaluates something in the heap as it was then: bodies of loops and comprehensions
    over unknown sequences are evaluated when an element is needed, long after the program ran them."""
    stack = []          # [(position of the moment, position of the log when the evaluation started)]

    def __init__(self):
        def u():
            pass
        u.o = self
        self.ser = float('inf')
        self.t = _serial[0]
        self.u = u
        self.pos = len(J.log)
        J.log.append(u)

    def entries(self):
        log = J.log
        hi = len(log)
        out = []
        st = list(self.stack)
        at = self.pos
        if at >= hi or log[at] is not self.u:
            at = next((i for i in range(hi - 1, -1, -1) if log[i] is self.u), -1)
        w = J.writes
        j = len(w)
        while True:
            lo, start = st.pop() if st else (-1, 0)
            while j and w[j - 1][0] >= hi:
                j -= 1
            while j and w[j - 1][0] >= max(start, at + 1):
                j -= 1
                u = w[j][1]
                if u.o.__class__.__name__ != '_Log' and getattr(u.o, 'ser', 0) <= self.t:
                    out.append(u)
            if start <= at < hi:
                return at, out
            if lo < 0:
                return None, out
            hi = lo + 1

    def at(self, f):
        if not J.log or J.log[-1] is self.u:
            return f()
        i, es = self.entries()
        if i is None or not es:
            return f()
        back = {}
        for u in es:
            if id(u.o) not in back:
                back[id(u.o)] = capture(u.o)
        for u in es:
            u()
        self.stack.append((i, len(J.log)))
        try:
            return f()
        finally:
            self.stack.pop()
            for r in back.values():
                r()


J = Journal()

_counter = [0]
_serial = [0]


def serial():
    _serial[0] += 1
    return _serial[0]


def fresh(prefix):
    _counter[0] += 1
    return '%s!%d' % (prefix, _counter[0])


# ------------------------------------------------------------------ symbolic scalars
class SV:
    """Symbolic int / float / bool.  float and int are mathematical (Real / Int sorts)."""
    __slots__ = ('k', 't')

    def __init__(self, k, t):
        self.k = k
        self.t = t

    def __repr__(self):
        return 'SV(%s,%s)' % (self.k, self.t)

    def __bool__(self):
        raise Unsupported('host-level truth of a symbolic value')

    def __eq__(self, o):
        return isinstance(o, SV) and o.k == self.k and o.t.eq(self.t)

    def __hash__(self):
        return hash((self.k, self.t.hash()))


NOT_AMONG = {}       # name of a function to strings -> literals it never yields (a hypothesis of the specification)


class SStr:
    """Symbolic string: a concatenation of literal pieces and atoms (z3 String constants)."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return 'SStr%r' % (self.parts,)

    def __bool__(self):
        raise Unsupported('host-level truth of a symbolic string')

    def __eq__(self, o):
        return isinstance(o, SStr) and len(o.parts) == len(self.parts) and all(
            (p == q) if isinstance(p, str) or isinstance(q, str) else p.eq(q)
            for p, q in zip(self.parts, o.parts) if True) and all(
            isinstance(p, str) == isinstance(q, str) for p, q in zip(self.parts, o.parts))

    def __hash__(self):
        return hash(tuple(p if isinstance(p, str) else p.hash() for p in self.parts))


def sstr(*parts):
    """Normalising constructor; returns a plain str when everything is literal."""
    out = []
    for p in parts:
        if isinstance(p, SStr):
            q = p.parts
        else:
            q = (p,)
        for x in q:
            if isinstance(x, str):
                if x == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            out.append(x)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(tuple(out))


def str2z(s):
    if isinstance(s, str):
        return z3.StringVal(s)
    ps = [z3.StringVal(p) if isinstance(p, str) else p for p in s.parts]
    return ps[0] if len(ps) == 1 else z3.Concat(*ps)


def is_str(v):
    return isinstance(v, (str, SStr))


def is_num(v):
    return (isinstance(v, (int, float)) or (isinstance(v, SV)))


def kind(v):
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'float'
    return v.k


def frac(f):
    if f != f or f in (float('inf'), float('-inf')):
        raise Unsupported('non-finite float in arithmetic')
    return Fraction(repr(f))


def real(v):
    """z3 Real term of a number."""
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float):
        f = frac(v)
        return z3.RealVal(str(f))
    if v.k == 'int':
        return z3.ToReal(v.t)
    if v.k == 'bool':
        return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
    return v.t


def intz(v):
    if isinstance(v, (bool, int)):
        return z3.IntVal(int(v))
    if isinstance(v, z3.ExprRef):
        return v
    if v.k == 'bool':
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    return v.t


def boolz(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SV) and v.k == 'bool':
        return v.t
    raise Unsupported('not a boolean: %r' % (v,))


# ------------------------------------------------------------------ heap values
class Cls:
    def __init__(self, name, bases, ns, module=''):
        self.name = name
        self.bases = bases
        self.ns = ns            # python dict name -> value
        self.module = module
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('mro conflict')
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return _MISSING

    def setns(self, name, v):
        old = self.ns.get(name, _MISSING)
        ns = self.ns

        def u():
            if old is _MISSING:
                ns.pop(name, None)
            else:
                ns[name] = old
        J.rec(self, u)
        self.ns[name] = v

    def __repr__(self):
        return '<class %s>' % self.name

    @property
    def qual(self):
        return self.name


class _Missing:
    def __repr__(self):
        return '<missing>'


_MISSING = _Missing()
MISSING = _MISSING


class Obj:
    """Instance of an interpreted class."""

    def __init__(self, cls, d=None):
        self.cls = cls
        self.ser = serial()
        self.d = d if d is not None else PDict()

    def __repr__(self):
        return '<%s obj %x>' % (self.cls.name, id(self) & 0xffff)


class Fn:
    def __init__(self, node, name, qual, glb, env, defaults, kwdefaults, mod, defcls=None):
        self.node = node
        self.name = name
        self.qual = qual
        self.glb = glb
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.mod = mod
        self.defcls = defcls
        self.attrs = {}
        self.info = None

    def __repr__(self):
        return '<fn %s>' % self.qual


class BM:
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def __repr__(self):
        return '<bound %r>' % (self.fn,)


class Native:
    """Host-implemented callable: f(I, args, kwargs)."""

    def __init__(self, name, f):
        self.name = name
        self.f = f

    def __repr__(self):
        return '<native %s>' % self.name


class PList:
    def __init__(self, items=None):
        self.ser = serial()
        self.items = items if items is not None else []   # python list, or a GSeq

    def save(self):
        old = list(self.items) if isinstance(self.items, list) else self.items
        me = self

        def u():
            me.items = list(old) if isinstance(old, list) else old
        J.rec(me, u)

    def __repr__(self):
        return 'PList(%r)' % (self.items,)


class PSet:
    def __init__(self, items=None):
        self.ser = serial()
        self.items = items if items is not None else []

    def save(self):
        old = list(self.items) if isinstance(self.items, list) else self.items
        me = self

        def u():
            me.items = list(old) if isinstance(old, list) else old
        J.rec(me, u)


def hkey(k):
    """Hashable identity-or-structural key for a *distinctness-resolved* dict key."""
    if isinstance(k, bool):
        return ('n', int(k))
    if isinstance(k, (int, float)):
        return ('n', k)
    if k is None:
        return ('none',)
    if isinstance(k, str):
        return k
    if isinstance(k, SStr):
        return k
    if isinstance(k, SV):
        return ('sv', k)
    if isinstance(k, tuple):
        return ('t',) + tuple(hkey(x) for x in k)
    if hasattr(k, 'h_key'):
        return ('h', k.h_key())
    return ('o', id(k))


class PDict:
    """Insertion ordered dict.

    d: hkey -> (key, value); keys are pairwise known-distinct (the interpreter resolves aliasing of
    symbolic keys before inserting).  `base` is None or a layered symbolic part (list of SMap /
    ('kv',k,v) / ('del',k)) when the dict has unknown content; then d is unused.
    """

    def __init__(self, ordered=False):
        self.ser = serial()
        self.d = {}
        self.layers = None
        self.nsym = 0
        self.ordered = ordered
        self.default_factory = None

    def save(self):
        d, old, lay, ns = self.d, dict(self.d), (list(self.layers) if self.layers is not None else None), self.nsym
        me = self

        def u():
            d.clear()
            d.update(old)
            me.d, me.layers, me.nsym = d, list(lay) if lay is not None else None, ns
        J.rec(me, u)

    # raw primitives on known-distinct keys --------------------------------
    def rset(self, k, v):
        hk = hkey(k)
        old = self.d.get(hk, _MISSING)
        d = self.d
        me = self
        sym = isinstance(k, (SStr, SV))
        if old is _MISSING:
            if sym:
                self.nsym += 1

            def u():
                d.pop(hk, None)
                if sym:
                    me.nsym -= 1
        else:
            def u():
                d[hk] = old
        J.rec(me, u)
        d[hk] = (old[0] if old is not _MISSING else k, v)

    def rget(self, k):
        r = self.d.get(hkey(k), _MISSING)
        return r if r is _MISSING else r[1]

    def rdel(self, k):
        self.save()
        if isinstance(k, (SStr, SV)):
            self.nsym -= 1
        del self.d[hkey(k)]

    def keys(self):
        if self.layers is not None:
            raise Unsupported('enumerating a dict of unknown content')
        return [k for k, _ in self.d.values()]

    def values(self):
        if self.layers is not None:
            raise Unsupported('enumerating a dict of unknown content')
        return [v for _, v in self.d.values()]

    def items(self):
        if self.layers is not None:
            raise Unsupported('enumerating a dict of unknown content')
        return list(self.d.values())

    def __repr__(self):
        return 'PDict(%r)' % (self.d if self.layers is None else self.layers,)


def strdict(**kw):
    p = PDict()
    for k, v in kw.items():
        p.d[k] = (k, v)
    return p


class SMap:
    """Finite map String -> value of unknown content: dom predicate, value function, emptiness flag."""

    def __init__(self, name, valf):
        self.name = name
        self.dom = z3.Function('dom_' + name, z3.StringSort(), z3.BoolSort())
        self.pos = z3.Function('pos_' + name, z3.StringSort(), z3.IntSort())
        self.empty = z3.Bool('empty_' + name)
        self.wit = z3.String('wit_' + name)      # a key when non-empty
        self.size = z3.Int('size_' + name)
        self.valf = valf                          # (I, key value) -> value
        self.cache = []                           # (key, value)
        self.doms = []                            # keys on which dom was mentioned

    def __repr__(self):
        return 'SMap(%s)' % self.name


class SlotIter:
    """Iterator object over a concrete host list of values."""

    def __init__(self, items):
        self.items = list(items)
        self.pos = 0


class PyMod:
    def __init__(self, name, glb):
        self.name = name
        self.glb = glb     # Env of the module

    def __repr__(self):
        return '<module %s>' % self.name


class Env:
    __slots__ = ('v', 'parent', 'fnlocals', 'glb', 'globals_decl', 'nonlocals', 'defcls', 'fn', 'execl', 'isclass', 'selfarg', 'ser')

    def __init__(self, parent=None, glb=None, fnlocals=None):
        self.v = {}
        self.parent = parent
        self.glb = glb if glb is not None else self
        self.fnlocals = fnlocals
        self.globals_decl = ()
        self.nonlocals = ()
        self.defcls = None
        self.fn = None
        self.execl = None
        self.isclass = False
        self.selfarg = _MISSING
        self.ser = serial()

    def set(self, name, v):
        d = self.v
        old = d.get(name, _MISSING)

        def u():
            if old is _MISSING:
                d.pop(name, None)
            else:
                d[name] = old
        J.rec(self, u)
        d[name] = v

    def delete(self, name):
        d = self.v
        old = d[name]

        def u():
            d[name] = old
        J.rec(self, u)
        del d[name]


class Host:
    """Base of modelled external objects (assumed contracts).  Anything not modelled is Unsupported."""
    hname = 'host'

    def h_getattr(self, I, name):
        raise Unsupported('attribute %s of modelled %s' % (name, self.hname))

    def h_setattr(self, I, name, v):
        raise Unsupported('set attribute %s of modelled %s' % (name, self.hname))

    def h_call(self, I, args, kw):
        raise Unsupported('call of modelled %s' % self.hname)

    def h_binop(self, I, op, other, refl):
        return _MISSING

    def h_unop(self, I, op):
        raise Unsupported('unary %s on %s' % (op, self.hname))

    def h_eq(self, I, other):
        return self is other

    def h_getitem(self, I, k):
        raise Unsupported('index of modelled %s' % self.hname)

    def h_setitem(self, I, k, v):
        raise Unsupported('index store of modelled %s' % self.hname)

    def h_iter(self, I):
        raise Unsupported('iteration over modelled %s' % self.hname)

    def h_truth(self, I):
        return True

    def h_len(self, I):
        raise Unsupported('len of modelled %s' % self.hname)

    def h_str(self, I):
        raise Unsupported('str of modelled %s' % self.hname)

    def h_isinstance(self, I, t):
        return False

    def h_contains(self, I, x):
        raise Unsupported('membership in modelled %s' % self.hname)

    def h_deepcopy(self, I, memo):
        return self
