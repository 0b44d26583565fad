"""Trusted contract of the sympy expression layer: an expression is the tree that was written; operations build trees;
its denotation under a valuation String -> Real is compositional.  Generic (unknown) expressions carry an uninterpreted
denotation and logical flags.  sympy may print or reorder an expression differently; nothing here exposes that."""
import z3
from . import values as V
from .values import *
from .values import _MISSING
from .interp import BType, T, OBJECT

VAL = z3.ArraySort(z3.StringSort(), z3.RealSort())
SIGMA = z3.Const('sigma', VAL)

FUN = {}


def fun(name, n):
    k = (name, n)
    if k not in FUN:
        FUN[k] = z3.Function('fn_%s_%d' % (name, n), *([z3.RealSort()] * (n + 1)))
    return FUN[k]


def zmin(a, b):
    return z3.If(a <= b, a, b)


def zmax(a, b):
    return z3.If(a >= b, a, b)


class SpType(Host):
    hname = 'sympy class'

    def __init__(self, name):
        self.name = name

    def h_call(self, I, args, kw):
        if self.name == 'Symbol':
            return symbol(args[0])
        if self.name in ('Float', 'Integer', 'Rational', 'Number') and len(args) == 1:
            return args[0] if not isinstance(args[0], Ex) else args[0]
        if self.name == 'Derivative' and len(args) == 2:
            return deriv(I, args[0], args[1])
        if self.name == 'Add':
            r = args[0]
            for a in args[1:]:
                r = I.binop('Add', r, a)
            return r
        raise Unsupported('sympy.%s(...)' % self.name)

    def h_instancecheck(self, I, v):
        return isinstance(v, Host) and v.h_isinstance(I, self)

    def h_getattr(self, I, name):
        if name == '__name__':
            return self.name
        raise Unsupported('sympy.%s.%s' % (self.name, name))


TYPES = {n: SpType(n) for n in ('Symbol', 'Expr', 'Basic', 'Derivative', 'Float', 'Integer', 'Rational', 'Number', 'Add', 'Mul',
                                'Pow', 'Function', 'Matrix', 'Eq', 'NumberSymbol')}


class DummyName(str):
    """name of a symbol that occurs nowhere else"""


_dummies = [0]


def dummy():
    _dummies[0] += 1
    return Ex('sym', (), DummyName('_Dummy%d' % _dummies[0]))


def name_eq(I, a, b):
    """same symbol name: bool or formula"""
    if isinstance(a, DummyName) or isinstance(b, DummyName):
        I.assumptions.add('sympy: names of dummy symbols are no names of quantities')
        return isinstance(a, DummyName) and isinstance(b, DummyName) and str(a) == str(b)
    return I.str_eq(a, b)


def symbol(name):
    return Ex('sym', (), name)


def deriv(I, a, b):
    if not (isinstance(b, Ex) and b.op == 'sym'):
        if isinstance(b, Ex) and b.op in ('app', 'gen'):
            I.throw('ValueError', "Can't calculate derivative wrt %s" % b.op)
        I.throw('ValueError', "Can't calculate derivative")
    return Ex('app', (a, b), 'Derivative')


class Gen:
    """Unknown expression: denotation function of the valuation and flags."""

    def __init__(self, I, name='g'):
        self.uid = V.fresh(name)
        self.den = z3.Function('den_' + self.uid, VAL, z3.RealSort())
        self.const = z3.Bool('const_' + self.uid)
        self.affine = z3.Bool('affine_' + self.uid)
        self.hasder = z3.Bool('hasder_' + self.uid)
        self.mentions = z3.Function('free_' + self.uid, z3.StringSort(), z3.BoolSort())
        self.outside = z3.Function('outside_' + self.uid, z3.StringSort(), z3.BoolSort())    # occurs outside derivatives


def gen(I, name='g'):
    g = Gen(I, name)
    I.define(z3.Implies(g.const, z3.And(g.affine, z3.Not(g.hasder))))
    e = Ex('gen', (), g)
    return e


def isnumlike(v):
    return is_num(v) or isinstance(v, Ex) and v.op == 'num'


def same(a, b):
    """host-level structural identity"""
    if isinstance(a, Ex) != isinstance(b, Ex):
        return False
    if not isinstance(a, Ex):
        return (a == b and type(a) == type(b))
    if a is b:
        return True
    if a.op != b.op:
        return False
    if a.op == 'gen':
        return a.info is b.info
    if a.op in ('sym',):
        return a.info == b.info
    return a.info == b.info and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args))


class Ex(Host):
    hname = 'sympy expression'

    def __init__(self, op, args, info):
        self.op = op          # sym | gen | app | subs
        self.args = args
        self.info = info      # name | Gen | operator name | mapping

    def __repr__(self):
        if self.op == 'num':
            return repr(self.info)
        if self.op == 'sym':
            return 'sym(%s)' % (self.info,)
        if self.op == 'gen':
            return self.info.uid
        return '%s%r' % (self.info, self.args)

    # ---- semantics
    def den(self, sg=None):
        sg = SIGMA if sg is None else sg
        if self.op == 'sym':
            if isinstance(self.info, DummyName):
                return z3.Real('value of ' + self.info)
            return z3.Select(sg, str2z(self.info))
        if self.op == 'gen':
            return self.info.den(sg)
        if self.op == 'num':
            return real(self.info)
        if self.op == 'subs':
            return den(self.args[0], upd_map(sg, self.info[1]) if self.info[0] == 'map' else upd(sg, self.info))
        a = [den(x, sg) for x in self.args]
        n = self.info
        if n == 'Add':
            return a[0] + a[1]
        if n == 'Sub':
            return a[0] - a[1]
        if n == 'Mult':
            return a[0] * a[1]
        if n == 'Div':
            return a[0] / a[1]
        if n == 'USub':
            return -a[0]
        if n == 'Pow':
            return powterm(a[0], a[1])
        if n == 'Abs':
            return z3.If(a[0] >= 0, a[0], -a[0])
        if n in ('Min', 'Max'):
            r = a[0]
            for x in a[1:]:
                r = zmin(r, x) if n == 'Min' else zmax(r, x)
            return r
        return fun(n, len(a))(*a)

    def flags(self):
        """(const, affine, hasder) as z3 formulas"""
        t, f = z3.BoolVal(True), z3.BoolVal(False)
        if self.op == 'sym':
            return f, t, f
        if self.op == 'num':
            return t, t, f
        if self.op == 'gen':
            g = self.info
            return g.const, g.affine, g.hasder
        if self.op == 'subs':
            raise Unsupported('classification of a substituted expression')
        fs = [flags(x) for x in self.args]
        c = z3.And(*[x[0] for x in fs])
        d = z3.Or(*[x[2] for x in fs])
        n = self.info
        if n == 'Derivative':
            return f, f, t
        if n in ('Add', 'Sub', 'USub'):
            a = z3.And(*[x[1] for x in fs])
        elif n == 'Mult':
            a = z3.Or(z3.And(fs[0][0], fs[1][1]), z3.And(fs[0][1], fs[1][0]))
        elif n == 'Div':
            a = z3.And(fs[0][1], fs[1][0])
        elif n == 'Pow':
            e = self.args[1]
            one = (e == 1) if isinstance(e, (int, float)) else False
            a = fs[0][1] if one else z3.And(fs[0][0], fs[1][0])
        else:
            a = c
        return tuple(z3.simplify(x) for x in (c, z3.And(a, z3.Not(d)), d))

    def mentions(self, I, name):
        """formula: the symbol `name` occurs free"""
        if self.op == 'num':
            return z3.BoolVal(False)
        if self.op == 'sym':
            r = name_eq(I, self.info, name)
            return z3.BoolVal(r) if isinstance(r, bool) else r
        if self.op == 'gen':
            return z3.BoolVal(False) if isinstance(name, DummyName) else self.info.mentions(str2z(name))
        if self.op == 'subs':
            raise Unsupported('free symbols of a substituted unknown expression')
        if self.info == 'Derivative':
            return mentions(I, self.args[0], name)
        return z3.Or(*[mentions(I, a, name) for a in self.args])

    def outside(self, I, name):
        """formula: the symbol `name` occurs outside the derivatives"""
        if self.op == 'gen':
            g, z = self.info, str2z(name)
            I.define(z3.Implies(g.outside(z), g.mentions(z)))
            I.define(z3.Implies(z3.And(g.mentions(z), z3.Not(g.hasder)), g.outside(z)))
            return g.outside(z)
        if self.op == 'app' and self.info == 'Derivative':
            return z3.BoolVal(False)
        if self.op == 'app':
            return z3.Or(*[a.outside(I, name) if isinstance(a, Ex) else z3.BoolVal(False) for a in self.args])
        return mentions(I, self, name)

    def syms(self, I):
        """distinct symbols of a concrete tree"""
        out = []

        def walk(e):
            if not isinstance(e, Ex):
                return
            if e.op == 'sym':
                if not any(I.truth_f(name_eq(I, e.info, s.info)) for s in out):
                    out.append(e)
            elif e.op in ('gen', 'subs'):
                raise Unsupported('symbols of an unknown expression')
            elif e.info == 'Derivative':
                walk(e.args[0])
            else:
                for a in e.args:
                    walk(a)
        walk(self)
        return out

    def derivs(self, I):
        out = []

        def walk(e):
            if not isinstance(e, Ex):
                return
            if e.op == 'gen' and not I.truth_f(e.info.hasder):
                return
            if e.op in ('gen', 'subs'):
                raise UnknownDerivatives()
            if e.op == 'app':
                if e.info == 'Derivative':
                    if not any(I.truth_f(struct_eq(I, e, s)) for s in out):
                        out.append(e)
                    return
                for a in e.args:
                    walk(a)
        walk(self)
        return out

    # ---- Python protocol
    def h_key(self):
        if self.op == 'sym' and isinstance(self.info, str):
            return ('sym', self.info)
        return id(self)

    def h_eq(self, I, other):
        return struct_eq(I, self, other)

    def h_binop(self, I, op, other, refl):
        if op not in ('Add', 'Sub', 'Mult', 'Div', 'Pow'):
            raise Unsupported('sympy operator %s' % op)
        if isinstance(other, Ex) or is_num(other):
            a, b = (other, self) if refl else (self, other)
            return Ex('app', (a, b), op)
        if isinstance(other, (PList, PDict, PSet, tuple)) or other is None or is_str(other):
            I.throw('TypeError', 'unsupported operand for sympy expression')
        return _MISSING

    def h_unop(self, I, op):
        if op == 'USub':
            return Ex('app', (self,), 'USub')
        if op == 'UAdd':
            return self
        raise Unsupported('unary %s on expression' % op)

    def h_isinstance(self, I, t):
        if isinstance(t, SpType):
            if t.name in ('Expr', 'Basic'):
                return True
            if t.name == 'Symbol':
                if self.op == 'gen':
                    raise Unsupported('class of an unknown expression')
                return self.op == 'sym'
            if self.op == 'num' and t.name in ('Derivative', 'Number'):
                return t.name == 'Number'
            if t.name == 'Derivative' and self.op in ('sym', 'app'):
                return self.op == 'app' and self.info == 'Derivative'
            if t.name in ('Float', 'Integer', 'Rational', 'Number') and self.op == 'sym':
                return False
            raise Unsupported('class of a sympy expression')
        return False

    def h_truth(self, I):
        return True

    def h_str(self, I):
        if self.op == 'sym':
            return self.info
        return SStr((I.atom_for(('sympystr', self)),))

    def h_iter(self, I):
        I.throw('TypeError', 'expression is not iterable')

    def h_len(self, I):
        I.throw('TypeError', 'expression has no len')

    def h_getitem(self, I, k):
        I.throw('TypeError', 'not subscriptable')

    def h_getattr(self, I, name):
        if name == 'free_symbols':
            return SymSet(self)
        if name in ('subs', 'xreplace'):
            return Native(name, lambda I, a, k: do_subs(I, self, a, name == 'xreplace' or k.get('simultaneous') is True))
        if name in ('evalf', 'n'):
            return Native('evalf', lambda I, a, k: do_evalf(I, self, a, k))
        if name == 'atoms':
            return Native('atoms', lambda I, a, k: do_atoms(I, self, a))
        if name == 'replace':
            return Native('replace', lambda I, a, k: do_replace(I, self, a))
        if name == 'has':
            return Native('has', lambda I, a, k: do_has(I, self, a))
        if name == 'name' and self.op == 'sym':
            return self.info
        if name == 'diff':
            return Native('diff', lambda I, a, k: deriv(I, self, a[0]) if a and k.get('evaluate') is False else _uns('diff'))
        if name == 'args':
            if self.op == 'sym':
                return ()
            if self.op == 'app' and self.info == 'Derivative':
                return (self.args[0], (self.args[1], 1))
            raise Unsupported('args of a sympy expression (its canonical structure is not part of the contract)')
        if name == 'is_Symbol':
            return self.h_isinstance(I, TYPES['Symbol'])
        if name in ('is_number', 'is_Number'):
            if self.op == 'sym':
                return False
            raise Unsupported('is_number of an unknown expression')
        if name in ('__len__', '__iter__', 'obj_latex_name', 'symbolic_object', '__call__', 'units', 'value', 'Diff',
                    'unit_object', 'index'):
            I.throw('AttributeError', name)
        raise Unsupported('sympy expression attribute %s' % name)


def _uns(w):
    raise Unsupported(w)


POWF = None


def powterm(a, b):
    from .interp import Interp
    return Interp.powterm(None if POWF is None else POWF, a, b) if False else _pow(a, b)


def _pow(x, y):
    from .interp import Interp
    y = z3.simplify(y)
    if z3.is_rational_value(y) and y.denominator_as_long() == 1:
        n = y.numerator_as_long()
        if -4 <= n <= 4:
            r = z3.RealVal(1)
            for _ in range(abs(n)):
                r = r * x
            return r if n >= 0 else 1 / r
    return Interp.POW(z3.simplify(x), y)


def den(v, sg=None):
    if isinstance(v, Ex):
        return v.den(sg)
    return real(v)


def flags(v):
    if isinstance(v, Ex):
        return v.flags()
    return z3.BoolVal(True), z3.BoolVal(True), z3.BoolVal(False)


def mentions(I, v, name):
    if isinstance(v, Ex):
        return v.mentions(I, name)
    return z3.BoolVal(False)


def upd(sg, pairs):
    r = sg
    for n, v in pairs:
        r = z3.Store(r, str2z(n), den(v, sg))
    return r


UPD = {}


def upd_map(sg, d):
    """the valuation sg overridden by a dictionary of unknown content (identified by its layers)"""
    k = (sg.get_id(),) + tuple((l[0],) + tuple(id(x) for x in l[1:]) for l in d.layers)
    if k not in UPD:
        UPD[k] = (z3.Const(V.fresh('sigma_upd'), VAL), sg, d, list(d.layers))
    return UPD[k][0]


def maps_of(e):
    """dictionaries of unknown content substituted in e"""
    out = []
    if isinstance(e, Ex):
        if e.op == 'subs' and e.info[:1] == ('map',):
            out.append(e.info[1])
        for a in e.args:
            out += maps_of(a)
    return out


def struct_eq(I, a, b):
    """sympy == : structural; bool or formula"""
    if not isinstance(a, Ex) or not isinstance(b, Ex):
        if isinstance(a, Ex) and not isinstance(b, Ex):
            a, b = b, a
        # a not Ex
        if not isinstance(a, Ex) and not isinstance(b, Ex):
            r = I.eqf(a, b)
            return r
        if is_num(a) and b.op in ('sym',):
            return False
        if is_num(a):
            raise Unsupported('equality of a sympy expression with a number')
        return False
    if same(a, b):
        return True
    if a.op == 'sym' and b.op == 'sym':
        return name_eq(I, a.info, b.info)
    if a.op == 'app' and b.op == 'app' and a.info == 'Derivative' and b.info == 'Derivative':
        fs = []
        for x, y in zip(a.args, b.args):
            r = struct_eq(I, x, y)
            if r is False:
                return False
            if r is not True:
                fs.append(r)
        return z3.And(*fs) if fs else True
    if {a.op, b.op} == {'sym', 'app'} and 'Derivative' in (a.info, b.info):
        return False
    raise Unsupported('equality of sympy expressions')


def pairs_of(I, a):
    """[(name, value)] substitution of symbols; derivative keys are returned separately"""
    if len(a) == 2:
        prs = [(a[0], a[1])]
    elif isinstance(a[0], PDict):
        if a[0].layers is not None:
            return mapping(I, a[0]), []
        prs = list(a[0].items())
    else:
        prs = [tuple(I.iterate(p)) for p in I.iterate(a[0])]
    syms, ders = [], []
    for k, v in prs:
        if is_str(v):
            v = symbol(v)
        if not (is_num(v) or isinstance(v, Ex)):
            exc = I.throw('TypeError', 'SympifyError')
        if is_str(k):
            syms.append((k, v))
        elif isinstance(k, Ex) and k.op == 'sym':
            syms.append((k.info, v))
        elif isinstance(k, Ex) and k.op == 'app' and k.info == 'Derivative':
            ders.append((k, v))
        else:
            raise Unsupported('substitution of %r' % (k,))
    return syms, ders


def by_name(I, l):
    """a layer of a dictionary keyed by symbols, keyed by their names"""
    from . import seqs

    def name(k):
        if isinstance(k, Ex):
            if k.op != 'sym':
                raise Unsupported('substitution of %r' % (k,))
            return k.info
        return k
    if l[0] in ('kv', 'del'):
        return (l[0], name(l[1])) + tuple(l[2:])
    if l[0] == 'gen':
        s = l[1]
        if seqs.gen_pairs_identity(I, s):
            return l
        if getattr(s, 'by_name', None) is None:
            def symbolic():
                e = s.dom.fresh(I)
                I.assume(s.dom.inside(I, e))
                return any(isinstance(k, Ex) for k, _ in s.run(I, e))
            if not any(r[0] == 'ok' and r[1] for _, r, _ in I.subexplore(symbolic)):
                s.by_name = s
        if getattr(s, 'by_name', None) is None:
            s.by_name = seqs.Seg(s.dom, (lambda I, e: (lambda kv: (name(kv[0]), kv[1]))(s.run(I, e)[0])) if s.exact else
                                 (lambda I, e: [(name(k), v) for k, v in s.run(I, e)]), s.exact, s.ordered)
        return ('gen', s.by_name)
    return l


def mapping(I, d):
    """substitution by a dictionary of unknown content: every value must be a number or an expression"""
    from . import seqs
    m = PDict()
    m.layers = [by_name(I, l) for l in d.layers]
    dom = seqs.KeyDom(m)

    def numeric():
        k = dom.fresh(I)
        I.assume(dom.inside(I, k))
        v = I.dict_get(m, k)
        return v is _MISSING or is_num(v) or isinstance(v, Ex) or is_str(v)
    if all(r[0] == 'ok' and r[1] for _, r, _ in I.subexplore(numeric)):
        return ('map', m)
    k = dom.fresh(I)
    if I.branch(dom.inside(I, k)):
        v = I.dict_get(m, k)
        if not (is_num(v) or isinstance(v, Ex) or is_str(v)):
            I.throw('TypeError', 'SympifyError')
    return ('map', m)


def subst(I, e, syms, ders):
    if not isinstance(e, Ex) or e.op == 'num':
        return e
    if isinstance(syms, tuple) and e.op == 'sym':
        if I.truth_f(I.contains(syms[1], e.info)):
            v = I.dict_get(syms[1], e.info)
            return symbol(v) if is_str(v) else v
        return e
    if e.op == 'sym':
        for k, v in syms:
            if I.truth_f(name_eq(I, k, e.info)):
                return v
        return e
    if e.op in ('gen', 'subs'):
        if ders and (e.op == 'subs' or I.truth_f(flags(e)[2])):
            raise Unsupported('substitution of derivatives in an unknown expression')
        if isinstance(syms, list):
            syms = [x for x in syms if not isinstance(x[0], DummyName)]
            if not syms:
                return e
        return Ex('subs', (e,), tuple(syms))
    if e.info == 'Derivative':
        for k, v in ders:
            if I.truth_f(struct_eq(I, k, e)):
                return v
        x, t = subst(I, e.args[0], syms, ders), subst(I, e.args[1], syms, ders)
        if not (isinstance(t, Ex) and t.op == 'sym'):
            raise Unsupported('substitution of the differentiation variable by a value')
        return Ex('app', (x, t), 'Derivative')
    return Ex('app', tuple(subst(I, a, syms, ders) for a in e.args), e.info)


def in_any_order(I, syms, ders):
    """replacing one after the other is replacing all at once: one replacement, or numbers only"""
    if isinstance(syms, list):
        return len(syms) + len(ders) < 2 or all(is_num(v) for _, v in syms + ders)
    if ders:
        return False
    from . import seqs
    m = syms[1]
    dom = seqs.KeyDom(m)

    def number():
        k = dom.fresh(I)
        I.assume(dom.inside(I, k))
        v = I.dict_get(m, k)
        return v is _MISSING or is_num(v)
    return all(r[0] == 'ok' and r[1] for _, r, _ in I.subexplore(number))


def do_subs(I, e, a, simultaneous=False):
    syms, ders = pairs_of(I, a)
    if not simultaneous and not in_any_order(I, syms, ders):
        raise Unsupported('subs replaces one symbol after the other')
    return subst(I, e, syms, ders)


def do_evalf(I, e, a, k):
    s = k.get('subs')
    if s is None:
        return e
    syms, ders = pairs_of(I, [s])
    return subst(I, e, syms, ders)


def do_atoms(I, e, a):
    if len(a) == 1 and isinstance(a[0], SpType):
        if a[0].name == 'Derivative':
            try:
                return PSet(e.derivs(I))
            except UnknownDerivatives:
                return DerSet(e)
        if a[0].name == 'Symbol':
            out = []

            def walk(x):
                if isinstance(x, Ex):
                    if x.op == 'sym':
                        if not any(I.truth_f(name_eq(I, x.info, s.info)) for s in out):
                            out.append(x)
                    elif x.op != 'app':
                        raise Unsupported('symbols of an unknown expression')
                    for y in x.args:
                        walk(y)
            walk(e)
            return PSet(out)
    raise Unsupported('atoms')


def do_has(I, e, a):
    if len(a) == 1 and isinstance(a[0], SpType) and a[0].name == 'Derivative':
        f = flags(e)[2]
        return SV('bool', f) if not z3.is_true(f) and not z3.is_false(f) else z3.is_true(f)
    if len(a) == 1 and isinstance(a[0], Ex) and a[0].op == 'sym':
        def any_(x):
            if not isinstance(x, Ex):
                return z3.BoolVal(False)
            if x.op == 'app':
                return z3.Or(*[any_(y) for y in x.args])
            return x.mentions(I, a[0].info)
        return SV('bool', z3.simplify(any_(e)))
    raise Unsupported('has')


def has_gen(e):
    return isinstance(e, Ex) and (e.op in ('gen', 'subs') or any(has_gen(a) for a in e.args))


def do_replace(I, e, a):
    if len(a) == 2 and a[0] is TYPES['Derivative']:
        from . import extlib
        r = I.call(a[1], [extlib.Opaque('differentiated expression'), extlib.Opaque('differentiation variable')], {})
        if isinstance(r, Ex) and r.op == 'sym' and isinstance(r.info, DummyName) or is_num(r):
            I.assumptions.add('sympy: names of dummy symbols are no names of quantities')
            return NoDer(e)
    raise Unsupported('replace')


class UnknownDerivatives(Exception):
    pass


class NoDer(Host):
    """an expression whose derivatives have been replaced by dummies"""
    hname = 'expression without derivatives'

    def __init__(self, e):
        self.e = e

    def h_getattr(self, I, name):
        if name == 'free_symbols':
            return OutSet(self.e)
        raise Unsupported('expression without derivatives: %s' % name)


class OutDom:
    """names of the symbols outside derivatives"""
    sort = 'str'

    def __init__(self, e):
        self.e = e
        self.key = ('outside', id(e))
        self.n = z3.Int(V.fresh('nsym'))

    def fresh(self, I):
        return SStr((z3.String(V.fresh('k')),))

    def inside(self, I, x):
        r = self.e.outside(I, x)
        return z3.BoolVal(r) if isinstance(r, bool) else r

    def size(self, I):
        I.assume(self.n >= 0)
        return self.n


class OutSet(Host):
    hname = 'free symbols'

    def __init__(self, e):
        self.e = e

    def h_gseq(self, I):
        from . import seqs
        return seqs.GSeq([seqs.Seg(OutDom(self.e), lambda I, k: symbol(k))])

    def h_contains(self, I, x):
        if isinstance(x, Ex) and x.op == 'sym':
            return self.e.outside(I, x.info)
        return False

    def h_getattr(self, I, name):
        raise Unsupported('free_symbols.%s' % name)


class SymSet(Host):
    """free_symbols of an expression"""
    hname = 'free symbols'

    def __init__(self, e):
        self.e = e

    def h_iter(self, I):
        return self.e.syms(I)

    def h_len(self, I):
        return len(self.e.syms(I))

    def h_truth(self, I):
        if has_gen(self.e):
            raise Unsupported('emptiness of free symbols')
        return len(self.e.syms(I)) > 0

    def h_contains(self, I, x):
        if isinstance(x, Ex) and x.op == 'sym':
            return self.e.mentions(I, x.info)
        if is_str(x):
            return False
        raise Unsupported('membership in free symbols')

    def h_getattr(self, I, name):
        if name == 'intersection' or name == 'union' or name == 'difference':
            return I.bm.method(I, PSet(self.e.syms(I)), name)
        raise Unsupported('free_symbols.%s' % name)

    def h_binop(self, I, op, o, refl):
        p = PSet(self.e.syms(I))
        return I.binop(op, o, p) if refl else I.binop(op, p, o)


class DerSet(Host):
    hname = 'derivatives of an unknown expression'

    def __init__(self, e):
        self.e = e

    def h_truth(self, I):
        return flags(self.e)[2]


def _fn(name):
    def f(I, a, k):
        if len(a) != 1:
            raise Unsupported('sympy.%s with %d arguments' % (name, len(a)))
        if not (is_num(a[0]) or isinstance(a[0], Ex)):
            I.throw('TypeError', 'SympifyError')
        return Ex('app', (a[0],), name)
    return Native('sympy.' + name, f)


def _log(I, a, k):
    for x in a:
        if not (is_num(x) or isinstance(x, Ex)):
            I.throw('TypeError', 'SympifyError')
    if len(a) == 2:
        if k.get('evaluate') is False:
            # sympy keeps the base as a second argument that later operations ignore (exp(log(x, 10)) becomes x)
            return Ex('app', (a[0], a[1]), 'log_with_unstable_base')
        return Ex('app', (Ex('app', (a[0],), 'log'), Ex('app', (a[1],), 'log')), 'Div')
    return Ex('app', (a[0],), 'log')


def _mm(name):
    def f(I, a, k):
        for x in a:
            if not (is_num(x) or isinstance(x, Ex)):
                I.throw('TypeError', 'SympifyError')
        return Ex('app', tuple(a), name)
    return Native('sympy.' + name, f)


def dx(I, e, x):
    """evaluated derivative of an expression with respect to a symbol"""
    if not isinstance(e, Ex) or not I.truth_f(z3.simplify(depends(I, e, x.info))):
        return 0
    if e.op == 'sym':
        return 1
    if e.op == 'app':
        a = e.args
        add = lambda u, v, op='Add': u if is_num(v) and not isinstance(v, SV) and v == 0 else I.binop(op, u, v)
        mul = lambda u, v: 0 if any(is_num(x) and not isinstance(x, SV) and x == 0 for x in (u, v)) else I.binop('Mult', u, v)
        if e.info in ('Add', 'Sub'):
            return add(dx(I, a[0], x), dx(I, a[1], x), e.info)
        if e.info == 'USub':
            return I.binop('Sub', 0, dx(I, a[0], x))
        if e.info == 'Mult':
            return add(mul(dx(I, a[0], x), a[1]), mul(a[0], dx(I, a[1], x)))
        if e.info == 'Div' and not I.truth_f(z3.simplify(depends(I, a[1], x.info))):
            return I.binop('Div', dx(I, a[0], x), a[1])
        if e.info not in ('Derivative', 'Div', 'Pow', 'Abs', 'Min', 'Max') and len(a) == 1:
            # chain rule with an unknown derivative of the function, which still contains the variable
            return I.binop('Mult', Ex('app', (a[0],), e.info + "'"), dx(I, a[0], x))
    raise Unsupported('evaluated differentiation')


def depends(I, e, name):
    if not isinstance(e, Ex):
        return z3.BoolVal(False)
    if e.op == 'app':
        return z3.Or(*[depends(I, y, name) for y in e.args])
    return e.mentions(I, name)


def _diff(I, a, k):
    e = a[0]
    if k.get('evaluate', True) is not False:
        if len(a) == 2 and isinstance(a[1], Ex) and a[1].op == 'sym':
            r = dx(I, e, a[1])
            return r if isinstance(r, Ex) else Ex('num', (), r)
        raise Unsupported('evaluated differentiation')
    if not (isinstance(e, Ex) or is_num(e)):
        I.throw('AttributeError', 'SympifyError')
    if len(a) == 1:
        if isinstance(e, Ex):
            ss = e.syms(I)
            if len(ss) != 1:
                I.throw('ValueError', 'differentiation variable')
            return deriv(I, e, ss[0])
        return 0
    if len(a) != 2:
        raise Unsupported('sympy.diff')
    v = a[1]
    if is_num(v):
        I.throw('ValueError', "Can't calculate derivative")
    return deriv(I, e, v)


def _symbols(I, a, k):
    n = a[0]
    if not is_str(n):
        I.throw('TypeError', 'symbols')
    if isinstance(n, str):
        if n == '':
            I.throw('ValueError', 'no symbols given')
        if any(c in n for c in ', :'):
            raise Unsupported('sympy.symbols with separators')
    else:
        I.assumptions.add('sympy: quantity names contain no separators (comma, blank, colon), so symbols(name) is one symbol')
        if not any(isinstance(p, str) for p in n.parts):
            if I.branch(str2z(n) == z3.StringVal('')):
                I.throw('ValueError', 'no symbols given')
    return symbol(n)


def _sympify(I, a, k):
    v = a[0]
    if is_num(v) or isinstance(v, Ex):
        return v
    if is_str(v):
        return symbol(v)
    raise Unsupported('sympify')


class SympyMod(Host):
    hname = 'sympy'

    def h_getattr(self, I, name):
        if name in TYPES:
            return TYPES[name]
        if name == 'Dummy':
            return Native('sympy.Dummy', lambda I, a, k: dummy())
        if name in ('exp', 'sin', 'cos', 'tan', 'sqrt', 'Abs', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh'):
            return _fn(name)
        if name == 'log' or name == 'ln':
            return Native('sympy.log', _log)
        if name in ('Min', 'Max'):
            return _mm(name)
        if name == 'diff':
            return Native('sympy.diff', _diff)
        if name == 'symbols':
            return Native('sympy.symbols', _symbols)
        if name in ('sympify', 'S'):
            return Native('sympy.sympify', _sympify)
        from . import extlib
        return extlib.Opaque('sympy.' + name)
