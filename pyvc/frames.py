"""Trusted contracts of the numpy matrix and pandas DataFrame operations used by the code: a matrix is a sequence of row
blocks; a frame is column labels plus a matrix.  Row blocks are opaque, so 'the same rows in the same order' is identity."""
import z3
from . import values as V
from .values import *
from .values import _MISSING
from . import seqs


def nint(v):
    return intz(v)


class Blk:
    """an opaque block of rows: nrows x ncols cells; parts: horizontal parts when it was put together by columns"""

    def __init__(self, name, nrows, ncols, parts=None):
        self.uid = V.fresh(name)
        self.nrows = nrows
        self.ncols = ncols
        self.parts = parts

    def __repr__(self):
        return '<rows %s>' % self.uid


def simp(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else SV('int', t)


class Mat(Host):
    """two-dimensional array"""
    hname = 'numpy matrix'

    def __init__(self, blocks, ncols):
        self.blocks = list(blocks)
        self.ncols = ncols

    def __repr__(self):
        return 'Mat%r' % (self.blocks,)

    def nrows(self):
        t = z3.IntVal(0)
        for b in self.blocks:
            t = t + b.nrows
        return t

    def isempty(self):
        return z3.Or(self.nrows() == 0, self.ncols == 0)

    def h_len(self, I):
        return simp(self.nrows())

    def h_getattr(self, I, name):
        if name == 'shape':
            return (simp(self.nrows()), simp(self.ncols))
        if name == 'ndim':
            return 2
        if name == 'size':
            t = z3.Int(V.fresh('size'))
            I.assume(z3.And(t >= 0, (t == 0) == self.isempty()))
            return SV('int', t)
        if name in ('copy',):
            return Native(name, lambda I, a, k: Mat(self.blocks, self.ncols))
        if name == 'values':
            I.throw('AttributeError', 'values')
        if name == 'tolist':
            return Native('tolist', lambda I, a, k: Rows(self))
        raise Unsupported('array.%s' % name)

    def h_getitem(self, I, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == ('$slice', None, None, None) and not isinstance(k[1], (PList, tuple)) and is_num(k[1]):
            i = intz(k[1])
            if not I.branch(z3.And(i < self.ncols, i >= -self.ncols)):
                I.throw('IndexError', 'index is out of bounds')
            return Col(self, z3.simplify(z3.If(i < 0, i + self.ncols, i)))
        raise Unsupported('indexing of a matrix')

    def h_truth(self, I):
        raise Unsupported('truth of an array')

    def h_iter(self, I):
        raise Unsupported('rows of an unknown matrix')

    def h_isinstance(self, I, t):
        return t is NDARRAY

    def h_deepcopy(self, I, memo):
        return self


class Vec(Host):
    """one-dimensional array of unknown content"""
    hname = 'numpy vector'

    def __init__(self, n, name='vec'):
        self.n = n
        self.name = name
        self.uid = V.fresh(name)

    def h_len(self, I):
        return simp(self.n)

    def h_getattr(self, I, name):
        if name == 'shape':
            return (simp(self.n),)
        if name == 'ndim':
            return 1
        if name == 'size':
            return simp(self.n)
        if name == 'reshape':
            def f(I, a, k):
                if a in ([-1, 1], [(-1, 1)]):
                    return Mat([Blk('col', self.n, z3.IntVal(1), [self])], z3.IntVal(1))
                if a in ([1, -1], [(1, -1)]):
                    return Mat([Blk('row', z3.IntVal(1), self.n, [self])], self.n)
                raise Unsupported('reshape')
            return Native('reshape', f)
        if name == 'tolist':
            return Native('tolist', lambda I, a, k: VecList(self))
        if name == 'copy':
            return Native(name, lambda I, a, k: self)
        raise Unsupported('array.%s' % name)

    def h_isinstance(self, I, t):
        return t is NDARRAY

    def h_truth(self, I):
        raise Unsupported('truth of an array')

    def h_deepcopy(self, I, memo):
        return self


class Col(Vec):
    """column of a matrix"""

    def __init__(self, mat, i):
        Vec.__init__(self, mat.nrows(), 'col')
        self.mat, self.i = mat, i

    def __repr__(self):
        return '<column %s of %r>' % (self.i, self.mat)


class Rows(Host):
    """a Python list of equally long rows"""
    hname = 'list of rows'

    def __init__(self, mat):
        self.mat = mat

    def h_len(self, I):
        return self.mat.h_len(I)

    def h_isinstance(self, I, t):
        from .interp import T
        return t is T['list']

    def h_deepcopy(self, I, memo):
        return self


class VecList(Host):
    """a Python list of numbers of unknown length"""
    hname = 'list of numbers'

    def __init__(self, vec):
        self.vec = vec

    def h_len(self, I):
        return self.vec.h_len(I)

    def h_isinstance(self, I, t):
        from .interp import T
        return t is T['list']

    def h_deepcopy(self, I, memo):
        return self


class _NdType(Host):
    hname = 'numpy.ndarray'

    def h_instancecheck(self, I, v):
        from . import extlib
        return isinstance(v, (Mat, Vec, extlib.NdArr, extlib.GArr))

    def h_getattr(self, I, name):
        if name == '__name__':
            return 'ndarray'
        raise Unsupported('ndarray.' + name)


NDARRAY = _NdType()


def asmat(I, v):
    if isinstance(v, Mat):
        return v
    if isinstance(v, Rows):
        return v.mat
    if isinstance(v, Frame):
        return v.mat
    if isinstance(v, Vec):
        return Mat([Blk('row', z3.IntVal(1), v.n, [v])], v.n)
    if isinstance(v, VecList):
        return asmat(I, v.vec)
    raise Unsupported('array stacking of %r' % (v,))


def vstack(I, a, k):
    ms = [asmat(I, x) for x in I.iterate(a[0])]
    return vjoin(I, ms)


def vjoin(I, ms):
    for m in ms[1:]:
        if not I.branch(ms[0].ncols == m.ncols):
            I.throw('ValueError', 'all the input array dimensions except for the concatenation axis must match exactly')
    return Mat([b for m in ms for b in m.blocks], ms[0].ncols)


def hstack(I, a, k):
    xs = list(I.iterate(a[0]))
    if all(isinstance(x, (Vec, VecList)) for x in xs):
        raise Unsupported('hstack of vectors')
    ms = [x if isinstance(x, Mat) else asmat(I, x) for x in xs]
    return hjoin(I, ms)


def column_stack(I, a, k):
    """vectors become columns"""
    ms = []
    for x in I.iterate(a[0]):
        v = x.vec if isinstance(x, VecList) else x
        ms.append(Mat([Blk('col', v.n, z3.IntVal(1), [v])], z3.IntVal(1)) if isinstance(v, Vec) else asmat(I, v))
    return hjoin(I, ms)


def hjoin(I, ms):
    for m in ms[1:]:
        if not I.branch(ms[0].nrows() == m.nrows()):
            I.throw('ValueError', 'all the input array dimensions except for the concatenation axis must match exactly')
    nc = z3.IntVal(0)
    parts = []
    for m in ms:
        nc = nc + m.ncols
        if len(m.blocks) == 1 and m.blocks[0].parts is not None:
            parts.extend(m.blocks[0].parts)
        else:
            parts.append(m)
    nc = z3.simplify(nc)
    return Mat([Blk('h', ms[0].nrows(), nc, parts)], nc)


def concatenate(I, a, k):
    ax = k.get('axis', a[1] if len(a) > 1 else 0)
    xs = list(I.iterate(a[0]))
    if not all(isinstance(x, (Mat, Rows, Frame)) for x in xs):
        raise Unsupported('concatenate')
    if ax == 0:
        return vjoin(I, [asmat(I, x) for x in xs])
    if ax == 1:
        return hjoin(I, [asmat(I, x) for x in xs])
    raise Unsupported('concatenate axis')


def npappend(I, a, k):
    if k.get('axis') != 0:
        raise Unsupported('numpy.append')
    return vjoin(I, [asmat(I, a[0]), asmat(I, a[1])])


# ------------------------------------------------------------------ pandas
def labels(I, v):
    """column labels: host list or GSeq"""
    if isinstance(v, Index):
        return v.items
    if isinstance(v, RangeIndex):
        return v
    g = seqs.as_generic(I, v)
    if g is not None:
        return g
    if isinstance(v, (PList, tuple, DViewT, PDict)):
        return list(I.iterate(v))
    raise Unsupported('column labels %r' % (v,))


DViewT = seqs.DView


def nlabels(I, items):
    if isinstance(items, RangeIndex):
        return items.n
    if isinstance(items, list):
        return z3.IntVal(len(items))
    return intz(items.length(I))


class RangeIndex(Host):
    hname = 'pandas RangeIndex'

    def __init__(self, n):
        self.n = n

    def h_len(self, I):
        return simp(self.n)

    def h_isinstance(self, I, t):
        return False


class Index(Host):
    hname = 'pandas Index'

    def __init__(self, items):
        self.items = items

    def h_iter(self, I):
        if isinstance(self.items, list):
            return list(self.items)
        raise Unsupported('iteration over unknown labels')

    def h_gseq(self, I):
        return None if isinstance(self.items, list) else self.items

    def h_len(self, I):
        return simp(nlabels(I, self.items))

    def h_contains(self, I, x):
        return I.contains(PList(self.items), x)

    def h_getattr(self, I, name):
        if name in ('tolist', 'to_list'):
            return Native(name, lambda I, a, k: PList(list(self.items) if isinstance(self.items, list) else self.items))
        if name == 'values':
            return self
        raise Unsupported('Index.' + name)


class Frame(Host):
    hname = 'pandas DataFrame'

    def __init__(self, cols, mat):
        self.ser = serial()
        self.cols = cols
        self.mat = mat

    def __repr__(self):
        return 'Frame(%r, %r)' % (self.cols, self.mat)

    def h_capture(self):
        old = (self.cols, self.mat)

        def r():
            self.cols, self.mat = old
        return r

    def set(self, cols=None, mat=None):
        old = (self.cols, self.mat)
        me = self

        def u():
            me.cols, me.mat = old
        J.rec(me, u)
        if cols is not None:
            self.cols = cols
        if mat is not None:
            self.mat = mat

    def h_len(self, I):
        return self.mat.h_len(I)

    def h_truth(self, I):
        I.throw('ValueError', 'The truth value of a DataFrame is ambiguous')

    def h_getattr(self, I, name):
        if name == 'values':
            return self.mat
        if name == 'to_numpy':
            return Native(name, lambda I, a, k: self.mat)
        if name == 'columns':
            return Index(self.cols)
        if name == 'index':
            return RangeIndex(self.mat.nrows())
        if name in ('shape', 'size', 'ndim'):
            return self.mat.h_getattr(I, name)
        if name == 'empty':
            r = z3.simplify(self.mat.isempty())
            return z3.is_true(r) if z3.is_true(r) or z3.is_false(r) else SV('bool', r)
        if name == 'copy':
            return Native(name, lambda I, a, k: Frame(self.cols, self.mat))
        if name == 'rename':
            return Native(name, lambda I, a, k: self.rename(I, a, k))
        if name == 'to_dict':
            return Native(name, lambda I, a, k: Token('dict of columns', self.cols, self.mat, k.get('orient', a[0] if a else 'dict')))
        raise Unsupported('DataFrame.' + name)

    def h_setattr(self, I, name, v):
        if name == 'columns':
            c = labels(I, v)
            if not I.branch(nlabels(I, c) == nlabels(I, self.cols)):
                I.throw('ValueError', 'Length mismatch')
            self.set(cols=c)
            return
        raise Unsupported('DataFrame.%s =' % name)

    def rename(self, I, a, k):
        m = k.get('columns')
        if m is None or not isinstance(m, PDict) or set(k) - {'columns', 'inplace'} or a:
            raise Unsupported('DataFrame.rename')

        def new(l):
            r = I.dict_get(m, l)
            return l if r is _MISSING else r
        if isinstance(self.cols, RangeIndex):
            raise Unsupported('rename of default labels')
        cols = [new(l) for l in self.cols] if isinstance(self.cols, list) else seqs.map_items(I, self.cols, new)
        if k.get('inplace') is True:
            self.set(cols=cols)
            return None
        return Frame(cols, self.mat)

    def h_isinstance(self, I, t):
        return t is FRAMETYPE

    def h_deepcopy(self, I, memo):
        return Frame(self.cols, self.mat)


class Token(Host):
    hname = 'external value'

    def __init__(self, *what):
        self.what = what


class _FrameType(Host):
    hname = 'pandas.DataFrame'

    def h_call(self, I, args, kw):
        names = ['data', 'index', 'columns']
        a = dict(zip(names, args))
        a.update(kw)
        if a.get('index') is not None or set(a) - {'data', 'columns', 'index', 'dtype'}:
            raise Unsupported('DataFrame arguments')
        cols = a.get('columns')
        data = a.get('data')
        if cols is not None:
            cols = labels(I, cols)
        if data is None:
            cols = [] if cols is None else cols
            n = nlabels(I, cols)
            return Frame(cols, Mat([], n))
        if isinstance(data, (PList, tuple)) and isinstance(data.items if isinstance(data, PList) else data, list) and not list(I.iterate(data)):
            cols = [] if cols is None else cols
            return Frame(cols, Mat([], nlabels(I, cols)))
        if isinstance(data, Frame):
            if cols is None:
                return Frame(data.cols, data.mat)
            raise Unsupported('DataFrame from a DataFrame with labels')
        if isinstance(data, Vec):
            m = Mat([Blk('col', data.n, z3.IntVal(1), [data])], z3.IntVal(1))
        elif isinstance(data, (Mat, Rows)):
            m = asmat(I, data)
        else:
            raise Unsupported('DataFrame from %r' % (data,))
        if cols is None:
            return Frame(RangeIndex(m.ncols), m)
        if not I.branch(nlabels(I, cols) == m.ncols):
            I.throw('ValueError', 'Shape of passed values is different from the labels')
        return Frame(cols, m)

    def h_instancecheck(self, I, v):
        return isinstance(v, Frame)

    def h_getattr(self, I, name):
        if name == '__name__':
            return 'DataFrame'
        raise Unsupported('DataFrame.' + name)


FRAMETYPE = _FrameType()


def concat(I, a, k):
    fs = list(I.iterate(a[0]))
    if not all(isinstance(f, Frame) for f in fs) or set(k) - {'ignore_index', 'axis'} or k.get('axis', 0) not in (0, 'index'):
        raise Unsupported('pandas.concat')
    c = fs[0].cols
    for f in fs[1:]:
        if not (f.cols is c or isinstance(c, list) and isinstance(f.cols, list) and len(c) == len(f.cols)
                and all(I.truth_f(I.eqf(x, y)) for x, y in zip(c, f.cols))):
            raise Unsupported('pandas.concat of frames with different labels')
    return Frame(c, vjoin(I, [f.mat for f in fs]))
