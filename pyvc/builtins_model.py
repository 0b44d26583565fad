"""Models of Python builtins and of the methods of builtin types (assumed contracts of CPython)."""
import z3
from . import values as V
from .values import *
from .values import _MISSING


def N(name):
    def deco(f):
        _REG[name] = Native(name, f)
        return f
    return deco


_REG = {}


def make(I):
    from .interp import EXC, OBJECT, T
    b = dict(_REG)
    for n, c in EXC.items():
        b[n] = c
    b['object'] = OBJECT
    for n in ('int', 'float', 'str', 'list', 'dict', 'tuple', 'set', 'bool', 'bytes', 'complex', 'frozenset', 'range',
              'type', 'slice', 'property'):
        b[n] = T[n]
    from .interp import NOTIMPL
    b['NotImplemented'] = NOTIMPL
    b['Ellipsis'] = Ellipsis
    b['True'], b['False'], b['None'] = True, False, None
    b['__debug__'] = True
    for n in ('super', 'locals', 'exec', 'eval', 'globals', 'vars', 'dir'):
        b[n] = Native('$' + n, lambda I, a, k: _unsup('indirect special builtin'))
    return b


def _unsup(m):
    raise Unsupported(m)


@N('isinstance')
def _isinstance(I, a, k):
    return I.isinstance_(a[0], a[1])


@N('issubclass')
def _issubclass(I, a, k):
    ts = a[1] if isinstance(a[1], tuple) else (a[1],)
    return any(t in a[0].mro for t in ts)


@N('hasattr')
def _hasattr(I, a, k):
    return I.hasattr_(a[0], I.conc_str(a[1]))


@N('getattr')
def _getattr(I, a, k):
    from .interp import PyRaise, EXC
    n = a[1]
    if isinstance(n, SStr):
        if isinstance(a[0], Obj):
            r = I.dict_get(a[0].d, n)
            if r is not _MISSING:
                return r
        raise Unsupported('getattr with symbolic name')
    try:
        return I.getattr(a[0], n)
    except PyRaise as e:
        if len(a) > 2 and EXC['AttributeError'] in e.exc.cls.mro:
            return a[2]
        raise


@N('setattr')
def _setattr(I, a, k):
    if isinstance(a[1], SStr):
        if isinstance(a[0], Obj):
            I.dict_set(a[0].d, a[1], a[2])
            return None
        raise Unsupported('setattr with symbolic name')
    I.setattr(a[0], a[1], a[2])


@N('delattr')
def _delattr(I, a, k):
    I.delattr(a[0], I.conc_str(a[1]))


@N('len')
def _len(I, a, k):
    return length(I, a[0])


def length(I, v):
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, SStr):
        # structural length: literal characters + lengths of atoms
        t = z3.IntVal(sum(len(p) for p in v.parts if isinstance(p, str)))
        for p in v.parts:
            if not isinstance(p, str):
                t = t + z3.Length(p)
        return SLen('int', z3.simplify(t), v)
    if isinstance(v, (PList, PSet)):
        if isinstance(v.items, list):
            return len(v.items)
        return v.items.length(I)
    if isinstance(v, PDict):
        if v.layers is not None:
            from . import seqs
            return seqs.layered_len(I, v)
        return len(v.d)
    if isinstance(v, Obj):
        m = v.cls.lookup('__len__')
        if m is not _MISSING:
            return I.call(BM(m, v), [], {})
        I.throw('TypeError', 'object has no len()')
    if isinstance(v, Host):
        return v.h_len(I)
    if type(v).__name__ == 'DView':
        return length(I, v.d)
    if v is None or is_num(v) or isinstance(v, (bool, Fn, BM, Cls)):
        I.throw('TypeError', 'object has no len()')
    raise Unsupported('len of %r' % (v,))


class SLen(SV):
    """Length of a symbolic string, remembering the parts (used by structural slicing)."""
    __slots__ = ('of', 'plus')

    def __init__(self, k, t, of):
        SV.__init__(self, k, t)
        self.of = of


@N('print')
def _print(I, a, k):
    return None


@N('id')
def _id(I, a, k):
    return id(a[0])


@N('callable')
def _callable(I, a, k):
    v = a[0]
    from .interp import BType
    if isinstance(v, (Fn, BM, Native, Cls, BType)):
        return True
    if isinstance(v, Obj):
        return v.cls.lookup('__call__') is not _MISSING
    if isinstance(v, Host):
        return getattr(v, 'h_callable', False)
    return False


@N('repr')
def _repr(I, a, k):
    return I.repr_(a[0])


@N('abs')
def _abs(I, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, SV):
        if v.k == 'int':
            return SV('int', z3.If(v.t >= 0, v.t, -v.t))
        x = real(v)
        return SV('float', z3.If(x >= 0, x, -x))
    if isinstance(v, Obj):
        m = v.cls.lookup('__abs__')
        if m is not _MISSING:
            return I.call(BM(m, v), [], {})
    if isinstance(v, Host):
        return v.h_getattr(I, '__abs__') if not hasattr(v, 'h_abs') else v.h_abs(I)
    I.throw('TypeError', 'bad operand for abs()')


@N('round')
def _round(I, a, k):
    if all(isinstance(x, (int, float)) or x is None for x in a):
        return round(*a)
    raise Unsupported('round of a symbolic number')


@N('pow')
def _pow(I, a, k):
    return I.binop('Pow', a[0], a[1])


@N('divmod')
def _divmod(I, a, k):
    return (I.binop('FloorDiv', a[0], a[1]), I.binop('Mod', a[0], a[1]))


@N('hash')
def _hash(I, a, k):
    I.check_hashable(a[0])
    raise Unsupported('hash()')


@N('zip')
def _zip(I, a, k):
    from . import seqs
    r = seqs.zip_(I, a)
    if r is not None:
        return r
    return SlotIter([tuple(x) for x in zip(*[I.iterate(x) for x in a])])


@N('enumerate')
def _enumerate(I, a, k):
    from . import seqs
    st = a[1] if len(a) > 1 else k.get('start', 0)
    g = seqs.as_generic(I, a[0])
    if g is not None:
        return seqs.enumerate_(I, g, st)
    return SlotIter([(st + i, x) for i, x in enumerate(I.iterate(a[0]))])


@N('reversed')
def _reversed(I, a, k):
    from . import seqs
    if seqs.as_generic(I, a[0]) is not None:
        raise Unsupported('reversed of unknown sequence')
    return SlotIter(list(reversed(list(I.iterate(a[0])))))


@N('map')
def _map(I, a, k):
    from . import seqs
    if len(a) == 2:
        g = seqs.as_generic(I, a[1])
        if g is not None:
            return seqs.map_(I, g, lambda x: I.call(a[0], [x], {}))
    return SlotIter([I.call(a[0], list(x), {}) for x in zip(*[list(I.iterate(y)) for y in a[1:]])])


@N('filter')
def _filter(I, a, k):
    from . import seqs
    g = seqs.as_generic(I, a[1])
    f = (lambda x: I.truth(x)) if a[0] is None else (lambda x: I.truth(I.call(a[0], [x], {})))
    if g is not None:
        return seqs.filter_(I, g, f)
    return SlotIter([x for x in list(I.iterate(a[1])) if f(x)])


@N('iter')
def _iter(I, a, k):
    v = a[0]
    if isinstance(v, SlotIter):
        return v
    from . import seqs
    if isinstance(v, seqs.LazyGen):
        return v
    if seqs.as_generic(I, v) is not None:
        raise Unsupported('iter() over an unknown sequence')
    return SlotIter(list(I.iterate(v)))


@N('next')
def _next(I, a, k):
    it = a[0]
    from . import seqs
    if isinstance(it, Host) and hasattr(it, 'h_next'):
        return it.h_next(I)
    if isinstance(it, seqs.LazyGen):
        g = it.generic()
        if g is not None:
            return seqs.first_(I, g, a[1] if len(a) > 1 else _MISSING)
        for x in it.run():
            return x
        if len(a) > 1:
            return a[1]
        I.throw('StopIteration')
    if isinstance(it, SlotIter):
        for x in I._slot(it):
            return x
        if len(a) > 1:
            return a[1]
        I.throw('StopIteration')
    if isinstance(it, PList) and not isinstance(it.items, list):
        return seqs.first_(I, it.items, a[1] if len(a) > 1 else _MISSING)
    raise Unsupported('next()')


def _quant(I, a, isall):
    from . import seqs
    g = seqs.as_generic(I, a[0])
    if g is None and isinstance(a[0], seqs.LazyGen):
        g = a[0].generic()
    if g is not None:
        return seqs.quant(I, g, isall)
    # concrete: build a formula without forking when every element is a boolean formula
    fs = []
    for x in I.iterate(a[0]):
        if isinstance(x, SV) and x.k == 'bool':
            fs.append(x.t)
            continue
        t = I.truth(x)
        if isall and not t:
            return False if not fs else SV('bool', z3.BoolVal(False))
        if not isall and t:
            return True if not fs else SV('bool', z3.BoolVal(True))
    if not fs:
        return isall
    return SV('bool', z3.simplify(z3.And(*fs) if isall else z3.Or(*fs)))


@N('all')
def _all(I, a, k):
    return _quant(I, a, True)


@N('any')
def _any(I, a, k):
    return _quant(I, a, False)


@N('sum')
def _sum(I, a, k):
    from . import seqs
    g = seqs.as_generic(I, a[0])
    start = a[1] if len(a) > 1 else k.get('start', 0)
    if g is None and isinstance(a[0], seqs.LazyGen):
        g = a[0].generic()
    if g is not None:
        if 'builtins.sum' in I.hooks:
            return I.hooks['builtins.sum'](I, [g, start], {})
        raise Unsupported('sum over an unknown sequence')
    r = start
    for x in I.iterate(a[0]):
        r = I.binop('Add', r, x)
    return r


def _minmax(I, a, k, op):
    items = list(I.iterate(a[0])) if len(a) == 1 else list(a)
    if not items:
        if 'default' in k:
            return k['default']
        I.throw('ValueError', 'empty sequence')
    key = k.get('key')
    best = items[0]
    bk = I.call(key, [best], {}) if key else best
    for x in items[1:]:
        xk = I.call(key, [x], {}) if key else x
        if I.truth(I.compare(op, xk, bk)):
            best, bk = x, xk
    return best


@N('min')
def _min(I, a, k):
    return _minmax(I, a, k, 'Lt')


@N('max')
def _max(I, a, k):
    return _minmax(I, a, k, 'Gt')


@N('sorted')
def _sorted(I, a, k):
    from . import seqs
    g = seqs.as_generic(I, a[0])
    if g is not None:
        return PList(seqs.permuted(I, g))
    items = list(I.iterate(a[0]))
    return PList(sort_items(I, items, k.get('key'), k.get('reverse', False)))


def sort_items(I, items, key, reverse):
    ks = [I.call(key, [x], {}) if key else x for x in items]

    def conc(x):
        return isinstance(x, (int, float, str)) or isinstance(x, tuple) and all(conc(y) for y in x)
    if all(conc(x) for x in ks):
        try:
            order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(reverse))
        except TypeError:
            I.throw('TypeError', "'<' not supported")
        return [items[i] for i in order]
    if len(items) <= 1:
        return list(items)
    if reverse:
        raise Unsupported('reverse sort of symbolic keys')
    # insertion sort by symbolic comparison
    out = []
    for x, kx in zip(items, ks):
        i = len(out)
        while i > 0 and I.truth(I.compare('Lt', kx, out[i - 1][1])):
            i -= 1
        out.insert(i, (x, kx))
    return [x for x, _ in out]


@N('open')
def _open(I, a, k):
    from . import extlib
    h = I.hooks.get("builtins.open")
    return h(I, a, k) if h else extlib.open_(I, a, k)


@N('staticmethod')
def _static(I, a, k):
    from .interp import Prop
    return Prop(a[0], None, 'static')


@N('classmethod')
def _clsm(I, a, k):
    from .interp import Prop
    return Prop(a[0], None, 'class')


@N('format')
def _format(I, a, k):
    if len(a) == 1:
        return I.str_(a[0])
    if isinstance(a[0], (int, float, str)):
        return format(a[0], a[1])
    return SStr((I.atom_for(('fmt', a[0], a[1])),))


@N('input')
def _input(I, a, k):
    raise Unsupported('input()')


@N('__import__')
def _imp(I, a, k):
    raise Unsupported('__import__')


# ------------------------------------------------------------------ object protocol
def object_method(I, o, name):
    if name == '__init__':
        return Native('object.__init__', lambda I, a, k: None)
    if name in ('__str__', '__repr__'):
        return Native(name, lambda I, a, k: SStr((I.atom_for(('str', o)),)))
    if name == '__eq__':
        return Native(name, lambda I, a, k: a[0] is o)
    if name == '__setattr__':
        def f(I, a, k):
            o.d.rset(I.conc_str(a[0]), a[1])
        return Native(name, f)
    return None


def type_attr(I, T_, name):
    from .interp import T
    if T_ is T['dict'] and name == 'fromkeys':
        def f(I, a, k):
            d = PDict()
            for x in I.iterate(a[0]):
                I.dict_set(d, x, a[1] if len(a) > 1 else None)
            return d
        return Native('fromkeys', f)
    if T_ in (T['str'], T['list'], T['dict'], T['tuple'], T['set']):
        return Native(name, lambda I, a, k: I.call(method(I, a[0], name), a[1:], k))
    raise Unsupported('attribute %s of type %s' % (name, T_.name))


def call_type(I, T_, a, k):
    from .interp import T, Prop, EXC
    n = T_.name
    if n == 'str':
        if not a:
            return ''
        return I.str_(a[0])
    if n == 'bool':
        if not a:
            return False
        v = a[0]
        if isinstance(v, SV):
            return v if v.k == 'bool' else SV('bool', v.t != 0)
        return I.truth(v)
    if n == 'int':
        v = a[0] if a else 0
        if isinstance(v, (int, float)):
            return int(v)
        if isinstance(v, SV):
            if v.k in ('int', 'bool'):
                return SV('int', intz(v))
            raise Unsupported('int() of a symbolic float')
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                I.throw('ValueError', 'int()')
        if isinstance(v, SStr):
            raise Unsupported('int() of a symbolic string')
        if isinstance(v, Host):
            return v.h_getattr(I, '__int__')
        I.throw('TypeError', 'int()')
    if n == 'float':
        v = a[0] if a else 0.0
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, SV):
            return SV('float', real(v))
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                I.throw('ValueError', 'float()')
        if isinstance(v, SStr):
            raise Unsupported('float() of a symbolic string')
        if isinstance(v, Obj):
            m = v.cls.lookup('__float__')
            if m is not _MISSING:
                return I.call(BM(m, v), [], {})
        if isinstance(v, Host) and hasattr(v, 'h_float'):
            return v.h_float(I)
        if isinstance(v, Host):
            from . import symx
            if isinstance(v, symx.Ex) and not symx.has_gen(v):
                if v.syms(I) or v.derivs(I):
                    I.throw('TypeError', 'Cannot convert expression to float')
                I.assumptions.add('sympy: an expression without symbols converts to the number it denotes')
                return SV('float', symx.den(v))
            if isinstance(v, symx.Ex) and v.op == 'subs' and v.args[0].op == 'gen' and getattr(v.args[0].info, 'closed', False):
                # the specification assumes that the substitution leaves no symbol
                return SV('float', symx.den(v))
            raise Unsupported('float() of %s' % v.hname)
        I.throw('TypeError', 'float() argument')
    if n in ('list', 'tuple', 'set', 'frozenset'):
        from . import seqs
        if not a:
            return PList() if n == 'list' else () if n == 'tuple' else PSet()
        g = seqs.as_generic(I, a[0])
        if g is None and isinstance(a[0], seqs.LazyGen):
            g = a[0].generic()
        if g is not None:
            if n == 'list':
                return PList(g)
            if n == 'tuple':
                return PList(g)
            return PSet(g)
        items = list(I.iterate(a[0]))
        if n == 'list':
            return PList(items)
        if n == 'tuple':
            return tuple(items)
        s = PSet()
        for x in items:
            I.set_add(s, x)
        return s
    if n in ('dict', 'OrderedDict'):
        d = PDict(ordered=(n == 'OrderedDict'))
        if a:
            I.dict_update(d, a[0])
        for kk, vv in k.items():
            if kk == '$star':
                I.dict_update(d, vv)
            else:
                I.dict_set(d, kk, vv)
        return d
    if n == 'defaultdict':
        d = PDict()
        d.default_factory = a[0] if a else None
        if len(a) > 1:
            I.dict_update(d, a[1])
        return d
    if n == 'type':
        if len(a) == 1:
            return I.type_of(a[0])
        raise Unsupported('type() with 3 arguments')
    if n == 'range':
        from . import seqs
        if any(isinstance(x, SV) for x in a):
            if len(a) == 1:
                return PList(seqs.GSeq([seqs.Seg(seqs.IndexDom(intz(a[0])), lambda I, i: i)]))
            raise Unsupported('range of symbolic bounds')
        return PList(list(range(*[I.conc_int(x) for x in a])))
    if n == 'property':
        return Prop(a[0], a[1] if len(a) > 1 else None)
    if n == 'slice':
        return ('$slice', a[0] if len(a) > 1 else None, a[1] if len(a) > 1 else a[0], a[2] if len(a) > 2 else None)
    raise Unsupported('construct %s' % n)


# ------------------------------------------------------------------ methods
def method(I, o, name):
    from .interp import T
    if is_str(o):
        f = getattr(StrM, name, None)
        tn = 'str'
    elif isinstance(o, PList):
        f = getattr(ListM, name, None)
        tn = 'list'
    elif isinstance(o, PDict):
        f = getattr(DictM, name, None)
        tn = 'dict'
        if name == 'move_to_end' and not o.ordered:
            f = None
    elif isinstance(o, PSet):
        f = getattr(SetM, name, None)
        tn = 'set'
    elif isinstance(o, tuple):
        f = getattr(TupM, name, None)
        tn = 'tuple'
    elif isinstance(o, (int, float, SV)):
        f = getattr(NumM, name, None)
        tn = 'number'
        if f is not None and getattr(f, 'prop', False):
            return f(I, o)
    elif isinstance(o, SlotIter):
        f = getattr(IterM, name, None)
        tn = 'iterator'
    elif o is None:
        f = None
        tn = 'NoneType'
    elif hasattr(o, 'run'):
        f = getattr(GenM, name, None)
        tn = 'generator'
    else:
        raise Unsupported('attribute %s of %r' % (name, o))
    if name == '__class__':
        return I.type_of(o)
    if name == '__doc__':
        return None
    if f is None:
        real_t = {'str': str, 'list': list, 'dict': dict, 'set': set, 'tuple': tuple, 'NoneType': type(None),
                  'number': type(o) if isinstance(o, (int, float)) else (int if getattr(o, 'k', '') != 'float' else float)
                  }.get(tn)
        if real_t is not None and hasattr(real_t, name):
            raise Unsupported('method %s.%s' % (tn, name))
        if tn == 'dict' and name in ('move_to_end',):
            raise Unsupported('method')
        I.throw('AttributeError', "'%s' object has no attribute '%s'" % (tn, name))
    return Native(tn + '.' + name, lambda I, a, k: f(I, o, *a, **k))


class GenM:
    @staticmethod
    def __iter__(I, o):
        return o


class IterM:
    @staticmethod
    def __iter__(I, o):
        return o

    @staticmethod
    def __next__(I, o):
        for x in I._slot(o):
            return x
        I.throw('StopIteration')


class NumM:
    @staticmethod
    def is_integer(I, o):
        if isinstance(o, float):
            return o.is_integer()
        if isinstance(o, int) or o.k == 'int':
            return True
        return SV('bool', z3.IsInt(o.t))

    @staticmethod
    def __add__(I, o, x):
        return I.binop('Add', o, x)

    @staticmethod
    def __mul__(I, o, x):
        return I.binop('Mult', o, x)

    @staticmethod
    def __sub__(I, o, x):
        return I.binop('Sub', o, x)

    @staticmethod
    def __float__(I, o):
        return SV('float', real(o)) if isinstance(o, SV) else float(o)

    @staticmethod
    def __eq__(I, o, x):
        return I.rich_eq(o, x)


class TupM:
    @staticmethod
    def index(I, o, x):
        for i, y in enumerate(o):
            if I.truth_f(I.eqf(y, x)):
                return i
        I.throw('ValueError', 'not in tuple')

    @staticmethod
    def count(I, o, x):
        return sum(1 for y in o if I.truth_f(I.eqf(y, x)))


class ListM:
    @staticmethod
    def append(I, o, x):
        o.save()
        if isinstance(o.items, list):
            o.items.append(x)
        else:
            from . import seqs
            o.items = seqs.concat(I, o.items, [x])

    @staticmethod
    def extend(I, o, it):
        I.binop('Add', o, it if isinstance(it, (PList, PSet, tuple)) else call_type(I, _T('list'), [it], {}), inplace=True)

    @staticmethod
    def insert(I, o, i, x):
        o.save()
        _conc(o).insert(I.conc_int(i), x)

    @staticmethod
    def pop(I, o, i=-1):
        o.save()
        l = _conc(o)
        if not l:
            I.throw('IndexError', 'pop from empty list')
        i = I.conc_int(i)
        if i < -len(l) or i >= len(l):
            I.throw('IndexError', 'pop index out of range')
        return l.pop(i)

    @staticmethod
    def remove(I, o, x):
        o.save()
        l = _conc(o)
        for j, y in enumerate(l):
            if I.truth_f(I.eqf(y, x)):
                del l[j]
                return None
        I.throw('ValueError', 'list.remove(x): x not in list')

    @staticmethod
    def index(I, o, x, *r):
        for j, y in enumerate(_conc(o)):
            if I.truth_f(I.eqf(y, x)):
                return j
        I.throw('ValueError', 'x not in list')

    @staticmethod
    def count(I, o, x):
        return sum(1 for y in _conc(o) if I.truth_f(I.eqf(y, x)))

    @staticmethod
    def copy(I, o):
        return PList(list(o.items) if isinstance(o.items, list) else o.items)

    @staticmethod
    def clear(I, o):
        o.save()
        o.items = []

    @staticmethod
    def reverse(I, o):
        o.save()
        _conc(o).reverse()

    @staticmethod
    def sort(I, o, key=None, reverse=False):
        o.save()
        if not isinstance(o.items, list):
            from . import seqs
            o.items = seqs.permuted(I, o.items)
            return
        o.items = sort_items(I, list(o.items), key, reverse)

    @staticmethod
    def __len__(I, o):
        return length(I, o)

    @staticmethod
    def __contains__(I, o, x):
        r = I.contains(o, x)
        return r if isinstance(r, bool) else SV('bool', r)

    @staticmethod
    def __iter__(I, o):
        return SlotIter(list(I.iterate(o)))


def _conc(o):
    if not isinstance(o.items, list):
        raise Unsupported('list operation on an unknown sequence')
    return o.items


def _T(n):
    from .interp import T
    return T[n]


class SetM:
    @staticmethod
    def add(I, o, x):
        I.set_add(o, x)

    @staticmethod
    def update(I, o, *its):
        for it in its:
            for x in list(I.iterate(it)):
                I.set_add(o, x)

    @staticmethod
    def discard(I, o, x):
        o.save()
        for j, y in enumerate(_conc(o)):
            if I.truth_f(I.eqf(y, x)):
                del o.items[j]
                return

    @staticmethod
    def remove(I, o, x):
        o.save()
        for j, y in enumerate(_conc(o)):
            if I.truth_f(I.eqf(y, x)):
                del o.items[j]
                return
        I.throw('KeyError', x)

    @staticmethod
    def union(I, o, *its):
        s = PSet(list(_conc(o)))
        for it in its:
            for x in list(I.iterate(it)):
                I.set_add(s, x)
        return s

    @staticmethod
    def copy(I, o):
        return PSet(list(_conc(o)))

    @staticmethod
    def issubset(I, o, other):
        from . import seqs
        g = seqs.as_generic(I, o)
        if g is not None:
            return seqs.quant(I, seqs.map_items(I, g, lambda x: _sv(I.contains(other, x))), True)
        fs = []
        for x in o.items:
            r = I.contains(other, x)
            if r is False:
                return False
            if r is not True:
                fs.append(r)
        return SV('bool', z3.And(*fs)) if fs else True

    @staticmethod
    def issuperset(I, o, other):
        return SetM.issubset(I, call_type(I, _T('set'), [other], {}), o)

    @staticmethod
    def difference(I, o, *its):
        out = PSet()
        for x in list(I.iterate(o)):
            if not any(I.truth_f(I.contains(it, x)) for it in its):
                out.items.append(x)
        return out

    @staticmethod
    def intersection(I, o, other):
        return PSet([x for x in _conc(o) if I.truth_f(I.contains(other, x))])

    @staticmethod
    def isdisjoint(I, o, other):
        fs = []
        for x in list(I.iterate(o)):
            r = I.contains(other, x)
            if r is True:
                return False
            if r is not False:
                fs.append(z3.Not(r))
        return SV('bool', z3.And(*fs)) if fs else True


def _sv(r):
    return r if isinstance(r, bool) else SV('bool', r)


class DictM:
    @staticmethod
    def keys(I, o):
        from . import seqs
        return seqs.DView(o, 'keys')

    @staticmethod
    def values(I, o):
        from . import seqs
        return seqs.DView(o, 'values')

    @staticmethod
    def items(I, o):
        from . import seqs
        return seqs.DView(o, 'items')

    @staticmethod
    def get(I, o, k, default=None):
        r = I.dict_get(o, k)
        return default if r is _MISSING else r

    @staticmethod
    def update(I, o, *a, **kw):
        if a:
            I.dict_update(o, a[0])
        for k, v in kw.items():
            if k == '$star':
                I.dict_update(o, v)
            else:
                I.dict_set(o, k, v)

    @staticmethod
    def copy(I, o):
        d = PDict(o.ordered)
        d.default_factory = o.default_factory
        I.dict_update(d, o)
        return d

    @staticmethod
    def pop(I, o, k, *default):
        r = I.dict_get(o, k)
        if r is _MISSING:
            if default:
                return default[0]
            I.throw('KeyError', k)
        I.dict_del(o, k)
        return r

    @staticmethod
    def popitem(I, o, last=True):
        ks = o.keys()
        if not ks:
            I.throw('KeyError')
        k = ks[-1 if last else 0]
        v = o.rget(k)
        o.rdel(k)
        return (k, v)

    @staticmethod
    def setdefault(I, o, k, default=None):
        r = I.dict_get(o, k)
        if r is _MISSING:
            I.dict_set(o, k, default)
            return default
        return r

    @staticmethod
    def clear(I, o):
        o.save()
        o.d = {}
        o.nsym = 0
        o.layers = None

    @staticmethod
    def move_to_end(I, o, k, last=True):
        v = I.dict_get(o, k)
        if v is _MISSING:
            I.throw('KeyError', k)
        if o.layers is not None or not last:
            raise Unsupported('move_to_end')
        o.save()
        k2 = I.dict_find(o, k)
        hk = hkey(k2)
        e = o.d.pop(hk)
        o.d[hk] = e

    @staticmethod
    def __contains__(I, o, x):
        return _sv(I.contains(o, x))

    @staticmethod
    def __len__(I, o):
        return length(I, o)

    @staticmethod
    def __getitem__(I, o, k):
        return I.getitem(o, k)

    @staticmethod
    def __setitem__(I, o, k, v):
        I.setitem(o, k, v)


class StrM:
    @staticmethod
    def join(I, o, it):
        from . import seqs
        g = seqs.as_generic(I, it)
        if g is None and isinstance(it, seqs.LazyGen):
            g = it.generic()
        if g is not None:
            if not g.has_conc_len():
                table = seqs._plist(I, 'joins')
                for (o2, g2, at) in table:
                    if type(o2) is type(o) and o2 == o and seqs.same_content(I, g2, g):
                        return SStr((at,))
                at = z3.String(V.fresh('joined'))
                seqs._jmemo(table, (o, g, at))
                return SStr((at,))
        out = []
        for i, x in enumerate(list(I.iterate(it))):
            if not is_str(x):
                I.throw('TypeError', 'sequence item: expected str instance')
            if i:
                out.append(o)
            out.append(x)
        return sstr(*out)

    @staticmethod
    def format(I, o, *a, **kw):
        if not isinstance(o, str):
            raise Unsupported('format of a symbolic string')
        import string
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(o):
            parts.append(lit)
            if field is None:
                continue
            if field == '':
                if auto >= len(a):
                    I.throw('IndexError', 'Replacement index out of range')
                v = a[auto]
                auto += 1
            else:
                import re
                m = re.match(r'^([A-Za-z_0-9]*)(.*)$', field)
                base, rest = m.group(1), m.group(2)
                if base.isdigit():
                    if int(base) >= len(a):
                        I.throw('IndexError', 'Replacement index out of range')
                    v = a[int(base)]
                elif base == '':
                    v = a[auto]
                    auto += 1
                else:
                    if base not in kw:
                        I.throw('KeyError', base)
                    v = kw[base]
                while rest:
                    m = re.match(r'^\.([A-Za-z_0-9]+)(.*)$', rest)
                    if m:
                        v = I.getattr(v, m.group(1))
                    else:
                        m = re.match(r'^\[([^\]]*)\](.*)$', rest)
                        kx = m.group(1)
                        v = I.getitem(v, int(kx) if kx.isdigit() else kx)
                    rest = m.group(2)
            if spec:
                if isinstance(v, (int, float, str)):
                    parts.append(format(v, spec))
                else:
                    parts.append(SStr((I.atom_for(('fmt', v, spec)),)))
            else:
                parts.append(I.repr_(v) if conv == 'r' else I.str_(v))
        return sstr(*parts)

    @staticmethod
    def _conc1(name):
        def f(I, o, *a, **k):
            if isinstance(o, str) and all(isinstance(x, (str, int, tuple)) or x is None for x in a):
                r = getattr(o, name)(*a, **k)
                return PList(r) if isinstance(r, list) else r
            return StrM._sym(I, o, name, a)
        return f

    @staticmethod
    def _sym(I, o, name, a):
        if name in ('startswith', 'endswith') and is_str(a[0]):
            po, px = ([x for x in (v.parts if isinstance(v, SStr) else [v])] for v in (o, a[0]))
            if name == 'endswith':
                po, px = po[::-1], px[::-1]
            if len(px) <= len(po) and all(x == y if isinstance(x, str) and isinstance(y, str) else not isinstance(x, str) and not isinstance(y, str) and x.eq(y) for x, y in zip(px, po)):
                return True
        if name == 'startswith' and is_str(a[0]):
            return SV('bool', z3.PrefixOf(str2z(a[0]), str2z(o)))
        if name == 'endswith' and is_str(a[0]):
            return SV('bool', z3.SuffixOf(str2z(a[0]), str2z(o)))
        if name == 'replace' and len(a) == 2 and all(is_str(x) for x in a):
            return SStr((I.atom_for(('replace', o, a[0], a[1])),))
        if name in ('upper', 'lower', 'strip', 'title', 'capitalize'):
            return SStr((I.atom_for((name, o) + tuple(a)),))
        if name in ('rsplit', 'rpartition', 'split', 'partition'):
            return StrM._split(I, o, name, a)
        raise Unsupported('str.%s on a symbolic string' % name)

    @staticmethod
    def _split(I, o, name, a):
        raise Unsupported('str.%s on a symbolic string' % name)


for _n in ('split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'replace', 'startswith', 'endswith', 'upper', 'lower', 'title',
           'capitalize', 'find', 'rfind', 'index', 'count', 'isdigit', 'isalpha', 'isidentifier', 'partition',
           'rpartition', 'ljust', 'rjust', 'center', 'zfill', 'encode', 'splitlines', 'isspace', 'isnumeric',
           'removesuffix', 'removeprefix', 'casefold', 'swapcase', 'expandtabs', 'islower', 'isupper'):
    setattr(StrM, _n, staticmethod(StrM._conc1(_n)))


def _removesuffix(I, o, suf):
    if isinstance(o, str) and isinstance(suf, str):
        return o.removesuffix(suf)
    po = list(o.parts) if isinstance(o, SStr) else [o]
    ps = list(suf.parts) if isinstance(suf, SStr) else [suf]
    if I.truth_f(z3.SuffixOf(str2z(suf), str2z(o))):
        r = _strip_suffix(po, ps)
        if r is None:
            return SStr((I.atom_for(('rmsuf', o, suf)),))
        return r
    return o


StrM.removesuffix = staticmethod(_removesuffix)


def _strip_suffix(po, ps):
    """po minus ps structurally, or None"""
    po, ps = list(po), list(ps)
    while ps:
        if not po:
            return None
        x, y = po[-1], ps[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[-n:] != y[-n:]:
                return None
            po[-1], ps[-1] = x[:-n], y[:-n]
            if not po[-1]:
                po.pop()
            if not ps[-1]:
                ps.pop()
        elif not isinstance(x, str) and not isinstance(y, str) and x.eq(y):
            po.pop(), ps.pop()
        else:
            return None
    return sstr(*po)


def str_index(I, s, k):
    if isinstance(k, tuple) and len(k) == 4 and k[0] == '$slice':
        lo, hi, st = k[1:]
        if isinstance(s, str) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return s[slice(lo, hi, st)]
        if st is not None:
            raise Unsupported('strided slice of a symbolic string')
        z = str2z(s)
        n = z3.Length(z)
        parts = list(s.parts) if isinstance(s, SStr) else [s]
        # structural: s[:h] / s[l:] where the bound equals the length of a suffix/prefix of parts

        def cut_end(h):
            # h: z3 Int negative bound -> drop last (-h) characters if they match a structural suffix
            acc = z3.IntVal(0)
            i = len(parts)
            while True:
                if i < len(parts) or True:
                    if z3.is_true(z3.simplify(acc == -h)):
                        return sstr(*parts[:i])
                if i == 0:
                    return None
                p = parts[i - 1]
                if isinstance(p, str):
                    # maybe the cut lies inside the literal
                    for j in range(len(p), -1, -1):
                        if z3.is_true(z3.simplify(acc + (len(p) - j) == -h)):
                            return sstr(*(parts[:i - 1] + [p[:j]]))
                    acc = acc + len(p)
                else:
                    acc = acc + z3.Length(p)
                i -= 1
        if lo is None and hi is not None:
            h = intz(hi)
            r = None
            if not (isinstance(hi, int) and hi >= 0):
                r = cut_end(h)
                if r is not None:
                    # python: negative bound; when the suffix is empty the bound is -0 -> ''
                    if I.truth_f(z3.simplify(h < 0)):
                        return r
                    if I.truth_f(z3.simplify(h == 0)):
                        return ''
            hh = z3.If(h < 0, n + h, h)
            hh = z3.If(hh < 0, z3.IntVal(0), z3.If(hh > n, n, hh))
            return SStr((I.atom_def(('sub', s, lo, hi), z3.SubString(z, 0, hh)),))
        if hi is None and lo is not None:
            l = intz(lo)
            acc = z3.IntVal(0)
            for i in range(len(parts) + 1):
                if z3.is_true(z3.simplify(acc == l)):
                    return sstr(*parts[i:])
                if i < len(parts):
                    p = parts[i]
                    if isinstance(p, str):
                        for j in range(len(p) + 1):
                            if z3.is_true(z3.simplify(acc + j == l)):
                                return sstr(*([p[j:]] + parts[i + 1:]))
                        acc = acc + len(p)
                    else:
                        acc = acc + z3.Length(p)
            ll = z3.If(l < 0, n + l, l)
            ll = z3.If(ll < 0, z3.IntVal(0), z3.If(ll > n, n, ll))
            return SStr((I.atom_def(('sub', s, lo, hi), z3.SubString(z, ll, n - ll)),))
        if lo is None and hi is None:
            return s
        raise Unsupported('general slice of a symbolic string')
    if isinstance(s, str):
        if isinstance(k, (str, float)) or k is None:
            I.throw('TypeError', 'string indices must be integers')
        i = I.conc_int(k)
        if i < -len(s) or i >= len(s):
            I.throw('IndexError', 'string index out of range')
        return s[i]
    raise Unsupported('index into a symbolic string')


# ------------------------------------------------------------------ binary operators on builtin sequences
def seqop(I, op, a, b):
    if op == 'Add':
        if is_str(a) and is_str(b):
            return sstr(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, PList) and isinstance(b, PList):
            if isinstance(a.items, list) and isinstance(b.items, list):
                return PList(a.items + b.items)
            from . import seqs
            return PList(seqs.concat(I, a.items, b.items))
    if op == 'Mult':
        if isinstance(b, (int, SV)) and not isinstance(a, (int, float, SV)):
            x, n = a, b
        else:
            x, n = b, a
        if isinstance(n, SV) and n.k == 'bool' and is_str(x):
            return x if I.branch(n.t) else ''
        if isinstance(n, (bool, int)):
            n = int(n)
            if isinstance(x, str) or isinstance(x, tuple):
                return x * n
            if isinstance(x, SStr):
                return sstr(*([x] * max(n, 0)))
            if isinstance(x, PList) and isinstance(x.items, list):
                return PList(x.items * n)
        if isinstance(n, SV) and n.k == 'int' and isinstance(x, PList) and isinstance(x.items, list) and len(x.items) == 1:
            from . import seqs
            v0 = x.items[0]
            return PList(seqs.GSeq([seqs.Seg(seqs.IndexDom(z3.If(n.t > 0, n.t, z3.IntVal(0))), lambda I, i: v0)]))
        if isinstance(x, (SStr, str, PList, tuple)) and isinstance(n, SV):
            raise Unsupported('symbolic repetition')
    if op == 'Mod' and is_str(a):
        return percent(I, a, b)
    if op == 'BitOr':
        if isinstance(a, PSet) and isinstance(b, PSet):
            return SetM.union(I, a, b)
        if isinstance(a, PDict) and isinstance(b, PDict):
            d = PDict(a.ordered)
            I.dict_update(d, a)
            I.dict_update(d, b)
            return d
    if op == 'Sub' and isinstance(a, (PSet,)):
        return SetM.difference(I, a, b)
    if op == 'BitAnd' and isinstance(a, PSet):
        return SetM.intersection(I, a, b)
    from . import seqs
    if isinstance(a, seqs.DView) or isinstance(b, seqs.DView):
        f = lambda v: call_type(I, _T('set'), [v], {}) if isinstance(v, seqs.DView) else v
        return seqop(I, op, f(a), f(b))
    I.throw('TypeError', 'unsupported operand type(s) for %s' % op)


def percent(I, f, args):
    import re
    if not isinstance(f, str):
        raise Unsupported('% on a symbolic string')
    vals = list(args) if isinstance(args, tuple) else [args]
    mapping = args if isinstance(args, PDict) else None
    parts = []
    pos = 0
    vi = 0
    for m in re.finditer(r'%(\((\w+)\))?([-+ #0]*)(\d+)?(\.\d+)?([a-zA-Z%])', f):
        parts.append(f[pos:m.start()])
        pos = m.end()
        c = m.group(6)
        if c == '%':
            parts.append('%')
            continue
        if m.group(2):
            v = I.getitem(mapping, m.group(2))
        else:
            if vi >= len(vals):
                I.throw('TypeError', 'not enough arguments for format string')
            v = vals[vi]
            vi += 1
        plain = not (m.group(3) or m.group(4) or m.group(5))
        if c == 's' and plain:
            parts.append(I.str_(v))
        elif c == 'r' and plain:
            parts.append(I.repr_(v))
        elif isinstance(v, (int, float)) or isinstance(v, str):
            try:
                parts.append(m.group(0) % v)
            except TypeError:
                I.throw('TypeError', '% format')
        elif isinstance(v, SV):
            parts.append(SStr((I.atom_for(('fmt', v, m.group(0))),)))
        elif c in 'sr':
            parts.append(SStr((I.atom_for(('fmt', v, m.group(0))),)))
        else:
            I.throw('TypeError', '%%%s format: a number is required' % c)
    parts.append(f[pos:])
    if mapping is None and vi < len(vals):
        I.throw('TypeError', 'not all arguments converted during string formatting')
    return sstr(*parts)
