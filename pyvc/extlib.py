"""Assumed contracts of external modules.  Everything not modelled is opaque: using it makes the obligation undecided."""
import math as _math
import z3
from . import values as V
from .values import *
from .values import _MISSING
from .interp import T, BType, EXC, OBJECT, PyRaise, Prop
from . import symx


class Opaque(Host):
    """A name of an external library without a contract."""
    hname = 'external'

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<external %s>' % self.name

    def h_getattr(self, I, name):
        return Opaque(self.name + '.' + name)

    def h_call(self, I, args, kw):
        h = getattr(I, 'hooks', {}).get(self.name)
        if h is not None:
            return h(I, args, kw)
        if getattr(I, 'loading', 0) and not any(isinstance(x, (Obj, PList, PDict, PSet)) for x in list(args) + list(kw.values())):
            # while a module is loaded: an object without contract (using it is unsupported)
            return Opaque(self.name + '()')
        raise Unsupported('call of external %s' % self.name)

    def h_instancecheck(self, I, v):
        return False

    def h_str(self, I):
        return '<' + self.name + '>'


class Mod(Host):
    hname = 'module'

    def __init__(self, name, members):
        self.name = name
        self.members = members

    def h_getattr(self, I, name):
        if name in self.members:
            m = self.members[name]
            return m
        return Opaque(self.name + '.' + name)


class Recorder(Host):
    """Stand-in of an external callable with side effects: records its calls and returns a fresh token."""
    hname = 'external call'

    def __init__(self, name, result=None):
        self.name = name
        self.calls = []
        self.result = result

    def h_getattr(self, I, name):
        return Recorder(self.name + '.' + name)

    def h_call(self, I, args, kw):
        self.calls.append((args, kw))

        def u():
            self.calls.pop()
        J.log.append(u)
        return self.result(I, args, kw) if self.result else Recorder(self.name + '()')


# ------------------------------------------------------------------ copy
def _copy(I, a, k):
    v = a[0]
    if isinstance(v, (bool, int, float, str, tuple, SV, SStr)) or v is None or isinstance(v, (Fn, Cls, BType, Native, BM)):
        return v
    if isinstance(v, PList):
        return PList(list(v.items) if isinstance(v.items, list) else v.items)
    if isinstance(v, PSet):
        return PSet(list(v.items) if isinstance(v.items, list) else v.items)
    if isinstance(v, PDict):
        return clone_dict(v)
    if isinstance(v, Obj):
        m = v.cls.lookup('__copy__')
        if m is not _MISSING:
            return I.call(BM(m, v), [], {})
        return Obj(v.cls, clone_dict(v.d))
    if isinstance(v, Host):
        if hasattr(v, 'h_copy'):
            return v.h_copy(I)
        raise Unsupported('copy of %s' % v.hname)
    raise Unsupported('copy')


def clone_dict(v):
    p = PDict(v.ordered)
    p.d = dict(v.d)
    p.layers = list(v.layers) if v.layers is not None else None
    p.nsym = v.nsym
    p.default_factory = v.default_factory
    return p


def deepcopy(I, v, memo):
    if isinstance(v, (bool, int, float, str, SV, SStr)) or v is None or isinstance(v, (Fn, Cls, BType, Native)):
        return v
    if id(v) in memo:
        return memo[id(v)][1]

    def put(n):
        memo[id(v)] = (v, n)
        return n
    if isinstance(v, tuple):
        return put(tuple(deepcopy(I, x, memo) for x in v))
    if isinstance(v, PList):
        if not isinstance(v.items, list):
            from . import seqs
            return put(PList(seqs.GSeq([[deepcopy(I, x, memo) for x in s] if isinstance(s, list) else copy_seg(I, s, memo) for s in seqs.segs_of(v.items)])))
        n = put(PList([]))
        for x in v.items:
            n.items.append(deepcopy(I, x, memo))
        return n
    if isinstance(v, PSet):
        n = put(PSet([]))
        n.items = [deepcopy(I, x, memo) for x in v.items]
        return n
    if isinstance(v, PDict):
        if v.layers is not None:
            from . import seqs
            n = put(PDict(v.ordered))
            n.layers = [copy_layer(I, l, memo) for l in v.layers]
            return n
        n = put(PDict(v.ordered))
        n.default_factory = v.default_factory
        for k, x in v.items():
            k2 = deepcopy(I, k, memo)
            n.d[hkey(k2)] = (k2, deepcopy(I, x, memo))
            if isinstance(k2, (SStr, SV)):
                n.nsym += 1
        return n
    if isinstance(v, Obj):
        m = v.cls.lookup('__deepcopy__')
        if m is not _MISSING:
            raise Unsupported('user-defined __deepcopy__')
        n = put(Obj(v.cls))
        if v.d.layers is not None:
            raise Unsupported('deepcopy of unknown attributes')
        for k, x in v.d.items():
            n.d.d[hkey(k)] = (k, deepcopy(I, x, memo))
        return n
    if isinstance(v, BM):
        return BM(v.fn, deepcopy(I, v.self_, memo))
    if isinstance(v, Host):
        return put(v.h_deepcopy(I, memo))
    raise Unsupported('deepcopy of %r' % (v,))


def copy_seg(I, s, memo):
    """the elements of a generic segment, each copied once"""
    from . import seqs
    done = []

    def run(I, e):
        out = []
        for x in s.run(I, e):
            for y, c in done:
                if y is x:
                    break
            else:
                c = deepcopy(I, x, memo)
                if c is not x:
                    seqs._jmemo(done, (x, c))
            out.append(c)
        return out[0] if s.exact else out
    return seqs.Seg(s.dom, run, s.exact, s.ordered)


def copy_layer(I, l, memo):
    from . import seqs
    if l[0] == 'kv':
        return ('kv', l[1], deepcopy(I, l[2], memo))
    if l[0] == 'del':
        return l
    if l[0] == 'map':
        m = l[1]
        key = ('map', id(m))
        if key not in memo:
            cache = {}

            def run(I, e, m=m):
                for k, r in cache.items():
                    if k == e:
                        return (e, r)
                v = seqs.smap_get(I, m, e)
                r = deepcopy(I, v, memo)
                cache[e] = r
                J.log.append(lambda: cache.pop(e, None))
                return (e, r)
            d = PDict()
            d.layers = [l]
            s = seqs.Seg(seqs.KeyDom(d), run)
            s.kident = True
            memo[key] = (m, s)
        return ('gen', memo[key][1])
    raise Unsupported('deepcopy of a computed dictionary')


# ------------------------------------------------------------------ threading / time / files
class ThreadLocal(Host):
    """attributes of the thread running (I.thread), apart from those of every other thread"""
    hname = 'threading.local()'

    def __init__(self):
        self.d = {}

    def of(self, t):
        if t not in self.d:
            self.d[t] = PDict()
        return self.d[t]

    def h_getattr(self, I, name):
        r = self.of(getattr(I, 'thread', 1)).rget(name)
        if r is _MISSING:
            I.throw('AttributeError', name)
        return r

    def h_setattr(self, I, name, v):
        self.of(getattr(I, 'thread', 1)).rset(name, v)


class Lock(Host):
    """a lock (one thread runs at a time here)"""
    hname = 'lock'

    def h_getattr(self, I, name):
        if name in ('__enter__', 'acquire'):
            return Native(name, lambda I, a, k: True)
        if name in ('__exit__', 'release'):
            return Native(name, lambda I, a, k: None)
        raise Unsupported('lock.' + name)


class Counter(Host):
    """itertools.count(): next() returns the number reached and advances it, in one step"""
    hname = 'itertools.count()'

    def __init__(self, value, step):
        self.value, self.step = value, step
        self.draws = 0

    def put(self, v, draws):
        old = (self.value, self.draws)

        def u():
            self.value, self.draws = old
        J.log.append(u)
        self.value, self.draws = v, draws

    def h_next(self, I):
        v = self.value
        self.put(I.binop('Add', v, self.step), self.draws + 1)
        return v

    def h_getattr(self, I, name):
        if name == '__next__':
            return Native('__next__', lambda I, a, k: self.h_next(I))
        raise Unsupported('count.' + name)


def _count(I, a, k):
    a = list(a)
    v = a[0] if a else k.get('start', 0)
    s = a[1] if len(a) > 1 else k.get('step', 1)
    return Counter(v, s)


class Rec(Host):
    """plain record of attributes"""
    hname = 'record'

    def __init__(self, **kw):
        self.kw = kw

    def h_getattr(self, I, name):
        if name in self.kw:
            return self.kw[name]
        raise Unsupported('attribute %s of an external object' % name)


def open_(I, a, k):
    raise Unsupported('file access')


def ident(n=0):
    return Native('identity', lambda I, a, k: a[n])


def _nop(I, a, k):
    return None


# ------------------------------------------------------------------ numpy
class NdArr(Host):
    """one-dimensional numpy array of known length"""
    hname = 'numpy array'

    def __init__(self, items):
        self.items = list(items)

    def h_iter(self, I):
        return list(self.items)

    def h_len(self, I):
        return len(self.items)

    def h_getitem(self, I, k):
        if isinstance(k, int):
            try:
                return self.items[k]
            except IndexError:
                I.throw('IndexError', 'index out of bounds')
        raise Unsupported('array indexing')

    def h_getattr(self, I, name):
        if name == 'tolist':
            return Native('tolist', lambda I, a, k: PList(list(self.items)))
        if name == 'size':
            return len(self.items)
        rows = [x for x in self.items if isinstance(x, (PList, tuple, NdArr, GArr))]
        if name == 'ndim' and len(rows) in (0, len(self.items)):
            return 2 if rows else 1
        if name == 'shape' and not rows:
            return (len(self.items),)
        if name in ('flatten', 'ravel', 'copy') and not rows:
            return Native(name, lambda I, a, k: NdArr(self.items))
        raise Unsupported('array.%s' % name)

    def h_truth(self, I):
        raise Unsupported('truth of an array')

    def h_binop(self, I, op, other, refl):
        if is_num(other) or isinstance(other, symx.Ex):
            return NdArr([I.binop(op, other, x) if refl else I.binop(op, x, other) for x in self.items])
        if isinstance(other, NdArr) and len(other.items) == len(self.items):
            return NdArr([I.binop(op, y, x) if refl else I.binop(op, x, y) for x, y in zip(self.items, other.items)])
        raise Unsupported('array arithmetic')

    def h_deepcopy(self, I, memo):
        return NdArr(self.items)


def _array(I, a, k):
    v = a[0]
    if isinstance(v, NdArr):
        return NdArr(v.items)
    if getattr(v, 'is_array', False):
        return v
    from . import seqs, frames
    if isinstance(v, (frames.Mat, frames.Vec)):
        return v
    if isinstance(v, frames.Rows):
        return v.mat
    if isinstance(v, frames.VecList):
        return v.vec
    g = seqs.as_generic(I, v)
    if g is not None:
        return GArr(g)
    if isinstance(v, (PList, tuple)):
        return NdArr(list(I.iterate(v)))
    if v is None or is_num(v):
        return Rec(ndim=0)
    raise Unsupported('numpy.array of %r' % (v,))


class GArr(Host):
    """one-dimensional numpy array of unknown length"""
    hname = 'numpy array'

    def __init__(self, g):
        self.g = g

    def h_gseq(self, I):
        return self.g

    def h_len(self, I):
        return self.g.length(I)

    def h_getitem(self, I, k):
        return self.g.index(I, k)

    def h_getattr(self, I, name):
        if name == 'tolist':
            return Native('tolist', lambda I, a, k: PList(self.g))
        if name == 'ndim':
            return 1
        raise Unsupported('array.%s' % name)


def _np_fn(name):
    return symx._fn(name) if False else Opaque('numpy.' + name)


def _ones(val):
    def f(I, a, k):
        n = a[0]
        if isinstance(n, int):
            return NdArr([val] * n)
        raise Unsupported('array of symbolic size')
    return Native('numpy.full', f)


def _shape(I, a, k):
    v = a[0]
    from . import seqs
    if isinstance(v, (PList, NdArr, tuple, GArr)):
        if isinstance(v, GArr) or seqs.as_generic(I, v) is not None:
            raise Unsupported('shape of an unknown array')
        xs = list(I.iterate(v)) if not isinstance(v, NdArr) else v.items
        inner = [x for x in xs if isinstance(x, (PList, tuple, NdArr))]
        if not inner:
            return (len(xs),)
        if len(inner) == len(xs):
            ls = {len(list(I.iterate(x))) if not isinstance(x, NdArr) else len(x.items) for x in xs}
            if len(ls) == 1:
                return (len(xs), ls.pop())
            I.throw('ValueError', 'inhomogeneous shape')
        I.throw('ValueError', 'inhomogeneous shape')
    if is_num(v):
        return ()
    raise Unsupported('numpy.shape')


# ------------------------------------------------------------------ module table
def module(I, name):
    from . import frames
    top = name.split('.')[0]
    if name == 'sympy':
        return symx.SympyMod()
    if name == 'copy':
        return Mod('copy', {'copy': Native('copy.copy', _copy),
                            'deepcopy': Native('copy.deepcopy', lambda I, a, k: deepcopy(I, a[0], {}))})
    if name == 'collections':
        return Mod('collections', {'OrderedDict': T['OrderedDict'], 'defaultdict': T['defaultdict']})
    if name == 'threading':
        return Mod('threading', {'local': Native('threading.local', lambda I, a, k: ThreadLocal()),
                                 'Lock': Native('threading.Lock', lambda I, a, k: Lock()), 'RLock': Native('threading.RLock', lambda I, a, k: Lock()),
                                 'current_thread': Native('threading.current_thread', lambda I, a, k: Rec(ident=getattr(I, 'thread', 1), name='Thread'))})
    if name == 'numba':
        return Mod('numba', {'jit': ident()})
    if name == 'math':
        return Mod('math', {'pi': _math.pi, 'e': _math.e})
    if name == 'numpy':
        return Mod('numpy', {'array': Native('numpy.array', _array), 'shape': Native('numpy.shape', _shape),
                             'ones': _ones(1.0), 'zeros': _ones(0.0), 'pi': _math.pi, 'nan': Opaque('numpy.nan'),
                             'ndarray': frames.NDARRAY, 'vstack': Native('numpy.vstack', frames.vstack), 'row_stack': Native('numpy.row_stack', frames.vstack),
                             'hstack': Native('numpy.hstack', frames.hstack), 'column_stack': Native('numpy.column_stack', frames.column_stack),
                             'concatenate': Native('numpy.concatenate', frames.concatenate), 'append': Native('numpy.append', frames.npappend),
                             'asarray': Native('numpy.asarray', _array)})
    if name == 'pandas':
        return Mod('pandas', {'DataFrame': frames.FRAMETYPE, 'concat': Native('pandas.concat', frames.concat)})
    if name == 'time':
        return Mod('time', {'time': Native('time.time', lambda I, a, k: SV('float', z3.Real(V.fresh('now'))))})
    if name == 'functools':
        return Mod('functools', {'reduce': Native('reduce', _reduce),
                                 'wraps': Native('wraps', lambda I, a, k: ident()),
                                 'partial': Native('partial', _partial)})
    if name == 'itertools':
        return Mod('itertools', {'chain': Chain(), 'product': Native('product', _product), 'count': Native('count', _count)})
    if name == 'operator':
        return Mod('operator', {'attrgetter': Native('attrgetter', lambda I, a, k: Native('ag', lambda I, b, k: I.getattr(b[0], a[0]))),
                                'itemgetter': Native('itemgetter', lambda I, a, k: Native('ig', lambda I, b, k: I.getitem(b[0], a[0]))),
                                'mul': Native('mul', lambda I, a, k: I.binop('Mult', a[0], a[1])),
                                'add': Native('add', lambda I, a, k: I.binop('Add', a[0], a[1])),
                                'sub': Native('sub', lambda I, a, k: I.binop('Sub', a[0], a[1]))})
    if name in getattr(I, 'extmods', {}):
        return I.extmods[name](I)
    if top in ('typing', 'abc', 'enum', 'dataclasses'):
        raise Unsupported('module %s' % name)
    return Opaque(name)


class Chain(Host):
    hname = 'itertools.chain'

    def h_call(self, I, args, kw):
        out = []
        for a in args:
            out.extend(I.iterate(a))
        return SlotIter(out)

    def h_getattr(self, I, name):
        if name == 'from_iterable':
            return Native('from_iterable', lambda I, a, k: SlotIter([y for x in I.iterate(a[0]) for y in I.iterate(x)]))
        raise Unsupported('chain.' + name)


def _product(I, a, k):
    import itertools
    if k:
        raise Unsupported('product repeat')
    return SlotIter([tuple(x) for x in itertools.product(*[list(I.iterate(y)) for y in a])])


def _reduce(I, a, k):
    it = list(I.iterate(a[1]))
    if len(a) > 2:
        it = [a[2]] + it
    if not it:
        I.throw('TypeError', 'reduce() of empty iterable')
    r = it[0]
    for x in it[1:]:
        r = I.call(a[0], [r, x], {})
    return r


def _partial(I, a, k):
    return Native('partial', lambda I, b, k2: I.call(a[0], list(a[1:]) + list(b), {**k, **k2}))
