"""C15: the degrees-of-freedom check passes exactly for square systems."""
from .lib import *
from .c13 import TYPES, over
from .c14 import any_equations

spec = Spec('C15')
spec.assumptions = ['an equation has exactly one of the types linear, nonlinear, differential (C06, C09)',
                    'sympy: residual.replace(Derivative, f) replaces every derivative, and only those, by f of its arguments']


def system(p, kinds):
    """a problem with any equations, any unknowns, any parameters"""
    I = p.I
    n = Node()
    f = z3.Function(V.fresh('type'), z3.IntSort(), z3.IntSort())
    names = ('symbolic_object', 'repr_symbolic')
    ment, outs = ({a: z3.Function(V.fresh(w + a), z3.IntSort(), z3.StringSort(), z3.BoolSort()) for a in names} for w in ('mentions_', 'outside_'))
    der = {a: z3.Function(V.fresh('hasder_' + a), z3.IntSort(), z3.BoolSort()) for a in names}

    def mk(I, i):
        o = Obj(p.get(C + 'equation', 'Equation'))
        t = f(intz(i))
        I.assume(z3.And(t >= 0, t < 3))
        o.d.rset('name', p.string('eq'))
        o.d.rset('type', SStr((z3.If(t == 0, z3.StringVal(TYPES[0]), z3.If(t == 1, z3.StringVal(TYPES[1]), z3.StringVal(TYPES[2]))),)))
        o.d.rset('equation_form', 'residual')
        o.d.rset('elementary_equation_expression', None)
        nd = Obj(p.get(C + 'expression_evaluation', 'EquationNode'))
        for a in ('symbolic_object', 'repr_symbolic'):
            g = symx.gen(I, a)
            g.info.mentions, g.info.outside, g.info.hasder = (lambda z, a=a: ment[a](intz(i), z)), (lambda z, a=a: outs[a](intz(i), z)), der[a](intz(i))
            nd.d.rset(a, g)
        o.d.rset('equation_expression', nd)
        return o
    n.eqs = glist(p, 'eqs', mk)
    spf = z3.Function(V.fresh('specified'), z3.StringSort(), z3.BoolSort())
    n.vd = gmap(p, 'vd', lambda I, k: obj_stub(p, C + 'variable', 'Variable', k))

    def par(I, k):
        o = obj_stub(p, C + 'parameter', 'Parameter', k)
        o.d.rset('is_specified', SV('bool', spf(str2z(k))))
        return o
    n.pd = gmap(p, 'pd', par)
    n.src, n.vd0, n.pd0 = copy_of(n.eqs), copy_of(n.vd), copy_of(n.pd)
    n.pr = I.call(p.get(S + 'problem', 'Problem'), [p.string('prob')], {})
    n.b = I.call(p.get(C + 'equation_block', 'EquationBlock'), [n.eqs, n.vd, n.pd], {})
    I.call(n.b, [], {})
    I.setattr(n.pr, 'equation_block', n.b)
    n.times = {'none': [None], 'one': [p.string('t1')], 'list': [p.string('t1')], 'two': [p.string('t1'), p.string('t2')]}[kinds]
    if kinds == 'two':
        p.distinct(*n.times)
    n.tattr = PList(list(n.times)) if kinds in ('list', 'two') else n.times[0]
    I.setattr(n.pr, 'time_variable_name', n.tattr)
    return n


def dof(p, n):
    """unknowns + unspecified parameters - equations - determined time variables"""
    I = p.I
    nv = seqs.KeyDom(n.vd0).size(I)
    np_ = seqs.count(I, seqs.Seg(seqs.KeyDom(n.pd0), lambda I, k: [] if I.truth(p.attr(I.dict_get(n.pd0, k), 'is_specified')) else [k], False))
    ne = n.src.items.segs[0].dom.size(I)
    nt = 0
    for t in n.times:
        if t is None:
            continue

        def det(e, t=t):
            if not I.truth_f(I.str_eq(p.attr(e, 'type'), 'differential')):
                return False
            return I.truth(SV('bool', p.attr(p.attr(e, 'equation_expression'), 'symbolic_object').outside(I, t)))
        nt += seqs.exists(I, n.src.items.segs[0], det)
    return nv + np_ - ne - nt


def wording(I, e):
    """the known parts of the message of an error"""
    out = []
    for a in I.getattr(e, "args"):
        for x in (a.parts if isinstance(a, SStr) else [a]):
            out.append(x if isinstance(x, str) else '*')
    return ''.join(out).lower()


for _k in ('none', 'one', 'list', 'two'):
    def _(p, _k=_k):
        I = p.I
        n = system(p, _k)
        d = dof(p, n)
        no = z3.Int(V.fresh('optimized'))
        p.assume(no >= 0)
        p.case(lambda c: dict(kind='generated', times=_k))
        a = p.call(p.get(S + 'analysis', 'DOF_Analysis'), n.pr, *([] if _k == 'none' else [SV('int', no)]))
        p.returns('the analysis is created', a)
        sg = 0 if I.branch(d == 0) else (1 if I.branch(d > 0) else -1)
        r = p.method(a[1], '_makeSanityChecks')
        if sg == 0:
            p.returns('a square system passes', r)
        else:
            p.raises('a system with %s is refused' % ('open degrees of freedom' if sg > 0 else 'too many equations'), r)
            if r[0] == 'raise':
                t = wording(I, r[1])
                p.ensure('the error says over- or under-specified', ('under' in t, 'over' in t) == (sg > 0, sg < 0), t)
        if _k == 'two':
            return
        p.one_of(lambda: over(p, 'the equations are as before', p.attr(n.b, 'equations'), n.src, lambda x: [x]),
                 lambda: over(p, 'the residuals are as before', p.attr(n.b, '_equations_list'), n.src, lambda x: [p.attr(p.attr(x, 'equation_expression'), 'symbolic_object')]),
                 lambda: list_is(p, 'the unknowns are as before', p.attr(n.b, '_var_list'), PList(seqs.DView(n.vd0, 'keys').generic(I))),
                 lambda: dict_after(p, 'the variables are as before', p.attr(n.b, 'variable_dict'), n.vd0),
                 lambda: dict_after(p, 'the parameters are as before', p.attr(n.b, 'parameter_dict'), n.pd0),
                 lambda: p.same('the time variable is as before', p.attr(n.pr, 'time_variable_name'), n.tattr),
                 *[lambda t=t: over(p, 'the %s equations are as before' % t, I.getitem(p.attr(n.b, '_equation_groups'), t), n.src,
                                    lambda x: [x] if I.truth_f(I.str_eq(p.attr(x, 'type'), t)) else []) for t in TYPES])
    spec.obligation('the check of any system, time variable: %s' % _k)(_)
