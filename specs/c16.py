"""C16: domains register objects and keep every result row under its own column."""
from .lib import *
from pyvc import frames
from pyvc.values import _MISSING
from pyvc import builtins_model as B

spec = Spec('C16')
spec.assumptions = ['pandas: DataFrame(data, columns) refuses data of another width; vstack keeps rows in order; rename changes labels only']


def D(p):
    return p.get(C + 'domain', 'Domain')


def var(p, tag):
    return p.I.call(p.get(C + 'variable', 'Variable'), [p.string(tag), unit(p, 'u' + tag)], {})


class Dom:
    pass


def domain(p, form='one'):
    """an arbitrary domain: one independent variable, or any number of them; any number of dependent objects"""
    I = p.I
    n = Dom()
    n.t = var(p, 't')
    n.u = unit(p, 'ud')
    n.obj = I.call(D(p), [p.string('dom'), n.u, n.t], {})
    stub = lambda I, k: quantity_stub(p, k)
    if form == 'many':
        n.ind = gmap(p, 'ind', stub)
        I.setattr(n.obj, 'independent_vars', n.ind)
    else:
        n.ind = p.attr(n.obj, 'independent_vars')
    n.dep = gmap(p, 'dep', stub)
    I.setattr(n.obj, 'dependent_objs', n.dep)
    return n


def headings(n, extra=()):
    return PList(seqs.GSeq(seqs.segs_of(keys(n.ind)) + seqs.segs_of(keys(n.dep)) + [list(extra)]))


def keys(d, I=None):
    """the keys in order of insertion"""
    if d.layers is None:
        return list(d.keys())
    return seqs.DView(d, 'keys').generic(I)


def frame(p, what, f):
    return p.ensure(what + ' is a table', isinstance(f, frames.Frame), repr(f))


def empty_table(p, what, f, n, extra=()):
    if frame(p, what, f):
        list_is(p, what + ' headings', PList(f.cols), headings(n, extra))
        p.ensure(what + ' is empty', f.mat.nrows() == 0)


def tables(p, n):
    """an arbitrary history: every independent variable has a table with any headings of the right number and any rows"""
    I = p.I
    hd = glist(p, 'headings', lambda I, i: p.string('h'))
    w = frames.nlabels(I, hd.items)
    nk = intz(B.length(I, n.ind)) + intz(B.length(I, n.dep))
    p.assume(w == nk)

    def table(I, k):
        r = z3.Int(V.fresh('rows'))
        I.assume(r >= 0)
        return frames.Frame(hd.items, frames.Mat([frames.Blk('old', r, w)], w))
    n.width, n.hd = w, hd.items
    if n.ind.layers is None:
        d = PDict()
        for k in n.ind.keys():
            d.rset(k, table(I, k))
        n.values = d
    else:
        n.values = gmap(p, 'tables', table)
        m = n.values.layers[0][1]
        seqs.forall(I, seqs.KeyDom(n.ind), lambda I, k: seqs.smap_dom(I, m, k))
        seqs.forall(I, seqs.KeyDom(n.values), lambda I, k: seqs.KeyDom(n.ind).inside(I, k))
    I.setattr(n.obj, 'values', n.values)
    I.setattr(n.obj, 'is_set', True)
    p.assume(w >= 1)
    return n


for _f in ('one', 'list'):
    def _(p, _f=_f):
        I = p.I
        vs = [var(p, 't%d' % i) for i in range(1 if _f == 'one' else p.pick([1, 2, 3], 'n'))]
        p.distinct(*[p.attr(v, 'name') for v in vs])
        arg = vs[0] if _f == 'one' else PList(list(vs))
        before = list(vs)
        nm, u, ds = p.string('nm'), unit(p), p.string('ds')
        p.case(lambda c: dict(kind='ctor', n=len(vs), aslist=_f == 'list'))
        r = p.call(D(p), nm, u, arg, ds)
        p.returns('a domain is created', r)
        d = r[1]
        p.eq('name', p.attr(d, 'name'), nm)
        p.ensure('unit', p.attr(d, 'units') is u)
        iv = p.attr(d, 'independent_vars')
        p.ensure('independent variables in order', [v for v in iv.values()] == vs and len(iv.keys()) == len(vs))
        for k, v in zip(iv.keys(), vs):
            p.eq('by name', k, p.attr(v, 'name'))
        dep = p.attr(d, 'dependent_objs')
        p.ensure('no dependent objects', isinstance(dep, PDict) and dep.keys() == [])
        p.ensure('no results', p.attr(d, 'values') is None and p.attr(d, 'is_set') is False)
        d2 = I.call(D(p), [nm, u, arg], {})
        for a in ('independent_vars', 'dependent_objs'):
            p.ensure('nothing is shared with another domain', p.attr(d2, a) is not p.attr(d, a))
    spec.obligation('a new domain (%s independent variable)' % ('one' if _f == 'one' else 'list of'), bounded=None if _f == 'one' else 'up to 3 independent variables')(_)


def distribute(form):
    def ob(p):
        I = p.I
        n = domain(p, form)
        if p.flag('used_before'):
            tables(p, n)
        v = var(p, 'v')
        old = copy_of(n.dep)
        ind = copy_of(n.ind)
        nm = p.attr(v, 'name')
        p.assume(z3.Not(seqs.KeyDom(n.dep).inside(I, nm)))
        p.case(lambda c: dict(kind='history', steps=[['distribute', c.str(nm)], ['distribute', 'other']]))
        r = p.method(v, 'distributeOnDomain', n.obj)
        p.returns('distributing succeeds', r)
        n.dep = old

        def attrs():
            p.ensure('the variable knows its domain', p.attr(v, 'domain') is n.obj)
            p.eq('its name is unchanged', p.attr(v, 'name'), nm)
            p.ensure('the domain is set', p.attr(n.obj, 'is_set') is True)

        def table():
            vals = p.attr(n.obj, 'values')
            k = p.string('iv')
            has = I.truth_f(I.contains(vals, k))
            p.ensure('a table per independent variable', has == I.truth_f(I.contains(ind, k)))
            if has:
                empty_table(p, 'the result table', I.dict_get(vals, k), n, [nm])
        p.one_of(attrs, table, lambda: dict_after(p, 'dependent objects', p.attr(n.obj, 'dependent_objs'), old, [(nm, v)]),
                 lambda: dict_after(p, 'independent variables', p.attr(n.obj, 'independent_vars'), ind),
                 lambda: order(p, old, nm, p.attr(n.obj, 'dependent_objs')))
    return ob


def order(p, old, nm, got):
    list_is(p, 'dependent objects in order of distribution', PList(keys(got, p.I)), PList(seqs.GSeq(seqs.segs_of(keys(old)) + [[nm]])))


for _f in ('one', 'many'):
    spec.obligation('distributing a variable (%s independent variable)' % _f)(distribute(_f))


def reset(form):
    def ob(p):
        I = p.I
        n = tables(p, domain(p, form))
        ind, dep = copy_of(n.ind), copy_of(n.dep)
        p.case(lambda c: dict(kind='history', steps=[['distribute', 'a'], ['register', 2], ['reset'], ['register', 1]]))
        r = p.method(n.obj, '_reset')
        p.returns('resetting succeeds', r)

        def table():
            vals = p.attr(n.obj, 'values')
            k = p.string('iv')
            has = I.truth_f(I.contains(vals, k))
            p.ensure('a table per independent variable', has == I.truth_f(I.contains(ind, k)))
            if has:
                empty_table(p, 'the result table', I.dict_get(vals, k), n)
        p.one_of(table, lambda: dict_after(p, 'dependent objects', p.attr(n.obj, 'dependent_objs'), dep),
                 lambda: dict_after(p, 'independent variables', p.attr(n.obj, 'independent_vars'), ind))
    return ob


for _f in ('one', 'many'):
    spec.obligation('resetting (%s independent variable)' % _f)(reset(_f))


def register(form, aslist, fits):
    def ob(p):
        I = p.I
        n = tables(p, domain(p, form))
        r, w = z3.Int(V.fresh('new_rows')), z3.Int(V.fresh('new_width'))
        p.assume(z3.And(r >= 0, w >= 0))
        p.assume(w == n.width if fits else w != n.width)
        m = frames.Mat([frames.Blk('new', r, w)], w)
        if form == 'one':
            key = p.attr(n.t, 'name')
            args = [] if not p.flag('explicit') else [n.t]
        else:
            key = seqs.elem(I, seqs.KeyDom(n.ind))
            args = [I.dict_get(n.ind, key)]
        f0 = I.dict_get(n.values, key)
        blocks = list(f0.mat.blocks)
        old = copy_of(n.values)
        p.case(lambda c: dict(kind='history', steps=[['distribute', 'a'], ['distribute', 'b'], ['register', 2], ['register', 3], ['wrong', 2], ['register', 1]]))
        res = p.method(n.obj, '_register', frames.Rows(m) if aslist else m, *args)

        def others(new):
            def f():
                dict_after(p, 'tables', p.attr(n.obj, 'values'), old, new)
            return f
        if not fits:
            p.raises('rows of the wrong width are refused', res)
            p.ensure('the table is unchanged', f0.mat.blocks == blocks and f0.cols is n.hd)
            p.one_of(others([]))
            return
        p.returns('rows of the right width are registered', res)
        f1 = I.dict_get(p.attr(n.obj, 'values'), key)

        def rows():
            if frame(p, 'the table', f1):
                list_is(p, 'headings are kept', PList(f1.cols) if not isinstance(f1.cols, frames.RangeIndex) else None, PList(n.hd))
                p.ensure('rows are appended in order', nonempty(p, f1.mat.blocks) == nonempty(p, blocks + m.blocks), '%r' % (f1.mat.blocks,))
        p.one_of(rows, others([(key, f1)]))
    return ob


def nonempty(p, bs):
    return [b for b in bs if not p.I.truth_f(b.nrows == 0)]


for _f in ('one', 'many'):
    for _l in (False, True):
        for _w in (True, False):
            spec.obligation('registering %s of the %s width (%s independent variable)' % ('a list of rows' if _l else 'an array', 'right' if _w else 'wrong', _f))(register(_f, _l, _w))


def rename(form):
    def ob(p):
        I = p.I
        n = tables(p, domain(p, form))
        mp = gmap(p, 'renames', lambda I, k: p.string('to'))
        ind, dep = copy_of(n.ind), copy_of(n.dep)
        key = p.attr(n.t, 'name') if form == 'one' else seqs.elem(I, seqs.KeyDom(n.values))
        f0 = I.dict_get(n.values, key)
        mat = f0.mat
        p.case(lambda c: dict(kind='history', steps=[['distribute', 'a'], ['register', 2], ['rename'], ['register', 1]]))
        r = p.method(n.obj, '_renameHeaders', mp)
        p.returns('renaming succeeds', r)
        f1 = I.dict_get(p.attr(n.obj, 'values'), key)

        def heads():
            if frame(p, 'the table', f1) and p.ensure('rows are kept', f1.mat is mat):
                e = seqs.elem(I, n.hd.segs[0].dom)
                h0 = n.hd.segs[0].run(I, e)[0]
                want = I.dict_get(mp, h0)
                want = h0 if want is _MISSING else want
                got = seqs.segs_of(f1.cols)
                if p.ensure('as many headings', len(got) == 1 and not isinstance(got[0], list) and got[0].dom.key == n.hd.segs[0].dom.key):
                    p.eq('headings are renamed', got[0].run(I, e)[0], want)
        p.one_of(heads, lambda: dict_after(p, 'dependent objects', p.attr(n.obj, 'dependent_objs'), dep),
                 lambda: dict_after(p, 'independent variables', p.attr(n.obj, 'independent_vars'), ind))
    return ob


spec.obligation('renaming headings')(rename('one'))
