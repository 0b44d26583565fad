"""Shared concrete-oracle helpers: access to the real code and a reference semantics of formulas."""
import importlib
import itertools
import math
import random

C = 'src.sloth.core.'
S = 'src.sloth.'
DIMS = ('m', 'kg', 's', 'A', 'K', 'mol', 'cd')


def get(mod, name):
    return getattr(importlib.import_module(mod), name)


def U(es, name='', desc=''):
    return get(C + 'unit', 'Unit')(name, {k: v for k, v in zip(DIMS, es)}, desc)


def dims(u):
    return [u.dimension.get(k) for k in DIMS]


def close(a, b, tol=1e-7):
    try:
        if a == b:
            return True
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    except TypeError:
        return False


def same_dims(a, b):
    return all(close(x, y, 1e-9) for x, y in zip(a, b))


def attempt(f, *a, **k):
    try:
        return ('ok', f(*a, **k))
    except Exception as e:
        n = getattr(f, '__name__', '')
        if isinstance(e, TypeError) and e.__traceback__.tb_next is None and n.startswith('_') and not n.endswith('__'):
            raise               # a helper with other parameters than the oracle knows: no answer
        return ('raise', e)


class Stop(Exception):
    pass


class Fails(list):
    live = []               # those of the case that is running: what was found before an oracle gives up is kept

    def __init__(self, *a):
        super().__init__(*a)
        Fails.live.append(self)

    def check(self, cond, key, detail=''):
        if not cond:
            self.append((key, str(detail)[:600]))
        return bool(cond)


# ------------------------------------------------------------------ formulas
FN = dict(Log=math.log, Log10=math.log10, Sqrt=math.sqrt, Exp=math.exp, Sin=math.sin, Cos=math.cos, Tan=math.tan, Abs=abs)


def make_q(q, cache=None):
    cls = get(C + q['cls'].lower(), q['cls'])
    u = U(q['dims'], q.get('uname', ''), q.get('udesc', ''))
    o = cls(q['name'], u)
    if q.get('spec'):
        o.value = q['value']
        o.is_specified = True
    else:
        o.is_specified = False
    if q.get('dom'):
        o.domain = object()
    return o


class Ref:
    """reference meaning of a formula"""
    __slots__ = ('num', 'dims', 'syms', 'unk', 'der', 'f', 'lin', 'const', 'specder', 'differ')

    def __init__(self, **k):
        for n in self.__slots__:
            setattr(self, n, k.get(n))


class Undefined(Exception):
    pass


def tree_value(o, env):
    """numeric value of a sympy tree under {name: value, 'D:x:t': value} (independent of sympy's own evaluation)"""
    import sympy as sp
    import cmath
    if isinstance(o, (int, float, complex)):
        return o
    if isinstance(o, sp.Symbol):
        if str(o) not in env:
            raise Undefined('unexpected symbol %s' % o)
        return env[str(o)]
    if isinstance(o, sp.Derivative):
        k = 'D:%s:%s' % (o.args[0], o.args[1][0])
        if k not in env or o.args[1][1] != 1 or len(o.args) != 2:
            raise Undefined('unexpected derivative %s' % o)
        return env[k]
    if o.is_Number or isinstance(o, sp.NumberSymbol):
        return float(o)
    if o is sp.I:
        return 1j
    a = [tree_value(x, env) for x in o.args]

    def cx(x, f, g):
        if isinstance(x, complex):
            return g(x)
        try:
            return f(x)
        except ValueError:
            return g(x)
    if isinstance(o, sp.Add):
        return sum(a)
    if isinstance(o, sp.Mul):
        r = 1
        for x in a:
            r = r * x
        return r
    if isinstance(o, sp.Pow):
        return a[0] ** a[1]
    n = type(o).__name__
    if n == 'exp':
        return cx(a[0], math.exp, cmath.exp)
    if n == 'log':
        r = cx(a[0], math.log, cmath.log)
        return r / cx(a[1], math.log, cmath.log) if len(a) == 2 else r
    if n in ('sin', 'cos', 'tan'):
        return cx(a[0], getattr(math, n), getattr(cmath, n))
    if n == 'Abs':
        return abs(a[0])
    if n in ('Min', 'Max'):
        a = [x.real if isinstance(x, complex) and abs(x.imag) < 1e-12 else x for x in a]
        return min(a) if n == 'Min' else max(a)
    raise Undefined('unexpected function %s' % n)


class Formula:
    def __init__(self, case, F, props):
        self.qs = case['qs']
        self.objs = [make_q(q) for q in self.qs]
        self.F = F
        self.props = props
        self.case = case

    def chk(self, prop, cond, key, detail=''):
        if prop in self.props:
            return self.F.check(cond, key, detail)
        return bool(cond)

    # -- build bottom-up, checking after every composition
    def build(self, t):
        k = t[0]
        if k == 'num':
            v = t[1]
            return v, Ref(num=True, dims=[0] * 7, syms=set(), unk=set(), der=False, f=lambda env: v, lin=True, const=True, specder=False, differ=False)
        if k == 'q':
            q = self.qs[t[1]]
            r = attempt(self.objs[t[1]])
            if r[0] != 'ok':
                self.chk('C08', False, 'leaf: using a quantity raises', '%r %r' % (q, r[1]))
                raise Stop()
            n, v = q['name'], q.get('value')
            sp = bool(q.get('spec'))
            ref = Ref(num=False, dims=list(q['dims']), syms={n}, unk=set() if sp else {n}, der=False,
                      f=(lambda env: v) if sp else (lambda env: env[n]), lin=True, const=sp, specder=False, differ=False)
            self.post(r[1], ref, 'leaf', [])
            return r[1], ref
        if k == 'diff':
            x, ti = self.qs[t[1]], self.qs[t[2]]
            r = attempt(self.objs[t[1]].Diff, self.objs[t[2]])
            if r[0] != 'ok':
                for pr in ('C03', 'C05', 'C06', 'C08'):
                    self.chk(pr, False, 'diff: derivative of a distributed variable raises', repr(r[1]))
                raise Stop()
            xn, tn = x['name'], ti['name']
            sp = bool(x.get('spec'))
            ref = Ref(num=False, dims=[a - b for a, b in zip(x['dims'], ti['dims'])], syms={xn}, unk=set() if sp else {xn}, der=not sp,
                      f=lambda env: env['D:%s:%s' % (xn, tn)], lin=False, const=sp, specder=sp, differ=True)
            self.curdiff = t
            self.post(r[1], ref, 'diff', [])
            return r[1], ref
        if k in ('+', '-', '*', '/', '**'):
            a, ra = self.build(t[1])
            b, rb = self.build(t[2])
            return self.binop(k, a, ra, b, rb)
        if k == 'fn':
            a, ra = self.build(t[2])
            return self.fn(t[1], a, ra)
        if k in ('Min', 'Max'):
            xs = [self.build(x) for x in t[1]]
            return self.minmax(k, xs)
        raise ValueError(k)

    def snap(self, nodes):
        out = []
        for n in nodes:
            if hasattr(n, 'symbolic_map'):
                out.append((n, dict(n.symbolic_map), dict(n.variable_map), dict(n.equation_type), dims(n.unit_object), n.symbolic_object,
                            n.repr_symbolic, n.name))
        return out

    def unchanged(self, snaps):
        for n, sm, vm, et, ds, so, rs, nm in snaps:
            ok = (dict(n.symbolic_map) == sm and dict(n.variable_map) == vm and dict(n.equation_type) == et and dims(n.unit_object) == ds
                  and n.symbolic_object is so and n.repr_symbolic is rs and n.name == nm)
            self.chk('C05', ok, 'building an expression changed an operand', self.case['tree'])

    def expect(self, r, valid, what, detail=''):
        """valid True/False/None (unspecified)"""
        if valid is None:
            if r[0] != 'ok':
                raise Stop()
        elif valid:
            if r[0] != 'ok':
                for pr in ('C02', 'C03', 'C04', 'C05', 'C06'):
                    self.chk(pr, False, '%s: coherent formula rejected' % what, '%r %s' % (r[1], detail))
                raise Stop()
        else:
            self.chk('C02', r[0] != 'ok', '%s: incoherent formula accepted' % what, detail)
            raise Stop()

    def binop(self, op, a, ra, b, rb):
        snaps = self.snap([a, b])
        if ra.num and rb.num:
            raise Stop()
        zero = False
        try:
            r = ('ok', {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '**': lambda: a ** b}[op]())
        except ZeroDivisionError as e:
            raise Stop()
        except Exception as e:
            r = ('raise', e)
        if op in '+-':
            valid = True if (ra.num or rb.num) else (None if self.near(ra.dims, rb.dims) else ra.dims == rb.dims)
            ds = list(ra.dims if not ra.num else rb.dims)
        elif op == '*':
            valid = True
            ds = [x + y for x, y in zip(ra.dims, rb.dims)]
        elif op == '/':
            valid = True
            ds = [x - y for x, y in zip(ra.dims, rb.dims)]
        else:
            if rb.num:
                valid = True
                e = self.numval(rb)
                ds = [x * e for x in ra.dims]
            elif ra.num:
                valid = None
                ds = [0] * 7
            else:
                valid = not any(rb.dims)
                ds = [0] * 7 if not any(ra.dims) else None
        self.expect(r, valid, 'operator ' + op, self.case['tree'])
        f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y, '**': lambda x, y: x ** y}[op]
        ref = Ref(num=False, dims=ds, syms=ra.syms | rb.syms, unk=ra.unk | rb.unk, der=ra.der or rb.der,
                  f=lambda env: f(ra.f(env), rb.f(env)), const=ra.const and rb.const, specder=ra.specder or rb.specder, differ=ra.differ or rb.differ,
                  lin={'+': ra.lin and rb.lin, '-': ra.lin and rb.lin, '*': ra.lin and rb.lin and (self.simple(ra) or self.simple(rb)),
                       '/': ra.lin and rb.lin and not ra.num and self.simple(rb), '**': False}[op])
        self.unchanged(snaps)
        self.post(r[1], ref, 'operator ' + op, [a, b])
        if ds is None:
            raise Stop()
        return r[1], ref

    @staticmethod
    def simple(r):
        return r.num or (r.lin and r.const)

    @staticmethod
    def near(a, b):
        return a != b and same_dims(a, b)

    @staticmethod
    def numval(r):
        return r.f({})

    def fn(self, name, a, ra):
        snaps = self.snap([a])
        r = attempt(get(C + 'equation_operators', name), a)
        self.expect(r, not any(ra.dims), name, self.case['tree'])
        f = FN[name]
        ref = Ref(num=False, dims=[0] * 7, syms=set(ra.syms), unk=set(ra.unk), der=ra.der, f=lambda env: f(ra.f(env)), lin=False, const=ra.const,
                  specder=ra.specder, differ=ra.differ)
        self.unchanged(snaps)
        self.post(r[1], ref, name, [a])
        return r[1], ref

    def minmax(self, name, xs):
        snaps = self.snap([x for x, _ in xs])
        r = attempt(get(C + 'equation_operators', name), *[x for x, _ in xs])
        es = [rx for _, rx in xs if not rx.num]
        valid = all(rx.dims == es[0].dims for rx in es)
        ds = list(es[0].dims) if es else [0] * 7
        self.expect(r, valid, name, self.case['tree'])
        f = min if name == 'Min' else max
        ref = Ref(num=False, dims=ds, syms=set().union(*[rx.syms for _, rx in xs]), unk=set().union(*[rx.unk for _, rx in xs]),
                  der=any(rx.der for _, rx in xs), f=lambda env: f(rx.f(env) for _, rx in xs), lin=False, const=all(rx.const for _, rx in xs),
                  specder=any(rx.specder for _, rx in xs), differ=any(rx.differ for _, rx in xs))
        self.unchanged(snaps)
        self.post(r[1], ref, name, [x for x, _ in xs])
        return r[1], ref

    def post(self, e, ref, what, operands):
        EN = get(C + 'expression_evaluation', 'EquationNode')
        if not isinstance(e, EN):
            for pr in self.props:
                self.chk(pr, False, '%s: result is not an expression' % what, repr(e))
            raise Stop()
        T = self.case['tree']
        byname = {q['name']: o for q, o in zip(self.qs, self.objs)}
        # C03
        if 'C03' in self.props and ref.dims is not None:
            self.chk('C03', same_dims(dims(e.unit_object), ref.dims), '%s: wrong dimension' % what, '%s != %s %s' % (dims(e.unit_object), ref.dims, T))
        if what == 'leaf' and 'C08' in self.props:
            self.chk('C08', dims(e.unit_object) == ref.dims, 'leaf: wrong unit', T)
            self.chk('C08', set(e.symbolic_map) == ref.syms and all(e.symbolic_map[n] is byname[n] for n in ref.syms), 'leaf: quantity not recorded')
            self.chk('C08', set(e.variable_map) == ref.unk, 'leaf: unknown recorded wrongly')
            self.value(e, ref, what, 'C08')
        if what == 'diff' and 'C08' in self.props:
            self.chk('C08', set(e.symbolic_map) == ref.syms and set(e.variable_map) == ref.unk, 'diff: variable not recorded')
            self.chk('C08', bool(e.equation_type['is_differential']), 'diff: not differential')
            import sympy as sp
            if not ref.specder:
                self.chk('C08', isinstance(e.symbolic_object, sp.Derivative) and isinstance(e.repr_symbolic, sp.Derivative)
                         and {str(s) for s in e.symbolic_object.free_symbols} == ref.syms
                         and str(e.symbolic_object.args[1][0]) == self.qs[self.curdiff[2]]['name'], 'diff: not the derivative of the variable', e.symbolic_object)
        # C05
        if 'C05' in self.props:
            self.chk('C05', set(e.symbolic_map) == ref.syms, '%s: recorded quantities' % what, '%s != %s %s' % (sorted(e.symbolic_map), sorted(ref.syms), T))
            self.chk('C05', set(e.variable_map) == ref.unk, '%s: recorded unknowns' % what, '%s != %s %s' % (sorted(e.variable_map), sorted(ref.unk), T))
            self.chk('C05', all(v is byname.get(k) for k, v in list(e.symbolic_map.items()) + list(e.variable_map.items())), '%s: recorded objects' % what)
            for o in operands:
                if isinstance(o, EN):
                    mine = [e.symbolic_map, e.variable_map, e.equation_type]
                    self.chk('C05', not any(x is y for x in mine for y in (o.symbolic_map, o.variable_map, o.equation_type)),
                             '%s: records shared with an operand' % what)
            self.chk('C05', e.symbolic_map is not e.variable_map, '%s: records shared' % what)
        # C06
        if 'C06' in self.props:
            et = e.equation_type
            self.chk('C06', sorted(bool(et[k]) for k in ('is_linear', 'is_nonlinear', 'is_differential')) == [False, False, True],
                     '%s: not exactly one class' % what, et)
            if ref.differ:
                self.chk('C06', et['is_differential'], '%s: derivative not classified differential' % what, T)
            elif et['is_differential']:
                self.chk('C06', False, '%s: classified differential without derivative' % what, T)
            if ref.lin:
                self.chk('C06', et['is_linear'], '%s: linear expression not classified linear' % what, T)
            if et['is_linear']:
                self.affine(e, ref, what)
        if 'C04' in self.props:
            self.value(e, ref, what, 'C04')

    def envs(self, n=3, seed=7):
        rng = random.Random(seed)
        for i in range(n):
            env = {}
            for q in self.qs:
                env[q['name']] = rng.uniform(0.2, 1.8) if i else rng.uniform(-2, 2)
            for q in self.qs:
                for q2 in self.qs:
                    env['D:%s:%s' % (q['name'], q2['name'])] = rng.uniform(0.3, 2)
            yield env

    def num(self, obj, env):
        """numeric value of a sympy object under an assignment (None: undefined)"""
        if isinstance(obj, (int, float)):
            return float(obj)
        try:
            c = complex(tree_value(obj, env))
        except Undefined as ex:
            return str(ex)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            return None
        if math.isnan(c.real) or math.isnan(c.imag):
            return None
        return c.real if abs(c.imag) <= 1e-9 * max(1, abs(c.real)) else c

    def value(self, e, ref, what, prop):
        if ref.specder:
            return
        T = self.case['tree']
        for env in self.envs():
            try:
                want = ref.f(env)
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                continue
            if isinstance(want, complex) or abs(want) > 1e12 or math.isnan(want):
                continue
            got = self.num(e.symbolic_object, env)
            self.chk(prop, close(got, want, 1e-6), '%s: wrong value' % what, 'got %s want %s tree %s' % (got, want, T))
            env2 = dict(env)
            for q in self.qs:
                if q.get('spec'):
                    env2[q['name']] = q['value']
            got = self.num(e.repr_symbolic, env2)
            self.chk(prop, close(got, want, 1e-6), '%s: wrong symbolic representation' % what, 'got %s want %s tree %s' % (got, want, T))

    def affine(self, e, ref, what):
        es = list(self.envs(4))
        for a, b in itertools.combinations(es, 2):
            mid = {k: (a[k] + b[k]) / 2 for k in a}
            fa, fb, fm = self.num(e.symbolic_object, a), self.num(e.symbolic_object, b), self.num(e.symbolic_object, mid)
            if not all(isinstance(x, float) for x in (fa, fb, fm)) or max(abs(fa), abs(fb)) > 1e9:
                continue
            self.chk('C06', close(fm, (fa + fb) / 2, 1e-6), '%s: classified linear but not affine' % what, self.case['tree'])


def run_tree(case, props):
    F = Fails()
    fm = Formula(case, F, props)
    try:
        fm.build(case['tree'])
    except Stop:
        pass
    return F


# ------------------------------------------------------------------ cases
def operand(o, tag, qs):
    """trees realising an abstract operand {unit, value, type, const} of a proof counterexample"""
    def q(dims, spec, value=1.5, cls='Variable', dom=False):
        qs.append(dict(cls=cls, name='%s%d' % (tag, len(qs)), dims=dims, spec=spec, value=value, dom=dom))
        return ['q', len(qs) - 1]
    u = o['unit']
    v = o.get('value')
    const = o.get('const', v is not None)
    if v is None:
        v = 1.5
    t = o.get('type', 'linear')
    if t == 'linear':
        return [q(u, const, v)]
    if t == 'nonlinear':
        if const:
            return [['*', q(u, True, v), ['fn', 'Exp', q([0] * 7, True, 0.5)]]]
        return [['*', q(u, False), ['fn', 'Exp', q([0] * 7, False)]], ['*', q(u, False), q([0] * 7, False)]]
    tt = [0, 0, 1, 0, 0, 0, 0]
    x = q([a + b for a, b in zip(u, tt)], const, dom=True)
    tq = q(tt, False)
    return [['diff', x[1], tq[1]]]


def trees_of(case):
    """concrete formulas realising an abstract counterexample case"""
    k = case['kind']
    qs = []
    if k == 'tree':
        return [case]
    if k == 'bin':
        return [dict(kind='tree', qs=qs, tree=[case['op'], a, b]) for a in operand(case['a'], 'a', qs) for b in operand(case['b'], 'b', qs)]
    if k == 'num':
        out = []
        for a in operand(case['a'], 'a', qs):
            out.append(dict(kind='tree', qs=qs, tree=[case['op'], ['num', case['n']], a] if case['refl'] else [case['op'], a, ['num', case['n']]]))
        return out
    if k == 'fn':
        return [dict(kind='tree', qs=qs, tree=['fn', case['fn'], a]) for a in operand(case['a'], 'a', qs)]
    if k == 'fnnum':
        return [dict(kind='tree', qs=[], tree=['fn', case['fn'], ['num', n]]) for n in (case['n'], 0.75, 2)]
    if k == 'minmax':
        xs = [operand(a, 'abc'[i], qs) for i, a in enumerate(case['args'])]
        out = []
        for combo in itertools.product(*xs):
            l = list(combo)
            if case.get('num') is not None:
                l.insert(case['pos'], ['num', case['num']])
            out.append(dict(kind='tree', qs=qs, tree=[case['fn'], l]))
        return out
    return None


POOL = ([0] * 7, [1, 0, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0, 0], [0, 0, 1, 0, 0, 0, 0], [0, 0, 0, 1, 0, 0, 0], [0, 0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 0, 1, 0],
        [0, 0, 0, 0, 0, 0, 1], [1, 0, -1, 0, 0, 0, 0], [-1, 1, -2, 0, 0, 0, 0], [2, 1, -2, 0, -1, -1, 0], [0.5, 0, 0, 0, 0, 0, -1.5], [0, 0, -1, 0, 0, 0, 0],
        [0, 0, 0, 0, 0, 0, 2], [1, 1, 1, 1, 1, 1, 1], [0, 0, 0, -1, 0, 0, 0])
NAMES = ['x', 'y', 'z', 'x1', 'xx', 'a', 'ab', 'T_in', 'm', 'kg', 's', 't', 'K', 'p']


def random_tree_case(rng, depth=3, coherent=0.85, domain=0.3):
    qs = []
    nms = rng.sample(NAMES, len(NAMES))
    base = rng.sample(range(len(POOL)), 2)
    pool = [list(POOL[0]), list(POOL[base[0]]), list(POOL[base[1]])]

    def newq(ds, dom=False, cls=None, spec=None):
        cls = cls or rng.choice(['Variable', 'Variable', 'Parameter', 'Constant', 'Quantity'])
        sp = rng.random() < 0.45 if spec is None else spec
        if len(qs) >= len(nms):
            return rng.randrange(len(qs))
        v = round(rng.uniform(0.2, 2.5), 3) if rng.random() < 0.8 else rng.randint(1, 3)
        # decorative unit names must not matter
        qs.append(dict(cls=cls, name=nms[len(qs)], dims=list(ds), spec=sp, value=v, dom=dom, uname=rng.choice(['', 'm', 'u']), udesc=rng.choice(['', 'd'])))
        return len(qs) - 1

    def leaf(ds):
        if not any(ds) and rng.random() < 0.12:
            return ['num', rng.choice([0.5, 2, 3.0, 1])]
        c = [i for i, q in enumerate(qs) if q['dims'] == list(ds) and not q['dom']]
        if c and rng.random() < 0.4:
            return ['q', rng.choice(c)]
        if rng.random() < 0.12:
            tt = [0, 0, 1, 0, 0, 0, 0]
            i = newq([a + b for a, b in zip(ds, tt)], dom=True, cls='Variable', spec=rng.random() < 0.15)
            if qs[i]['dom']:
                j = newq(tt, cls='Variable', spec=False)
                if qs[j]['dims'] == tt and qs[j]['cls'] == 'Variable' and not qs[j]['spec'] and i != j:
                    return ['diff', i, j]
        i = newq(ds)
        return ['q', i]

    def tree(ds, d):
        if d == 0 or rng.random() < 0.15:
            return leaf(ds)
        k = rng.random()
        if rng.random() > coherent:
            other = list(rng.choice(pool + [list(POOL[rng.randrange(len(POOL))])]))
        else:
            other = list(ds)
        if k < 0.3:
            return [rng.choice('+-'), tree(ds, d - 1), tree(other, d - 1)]
        if k < 0.55:
            o = list(rng.choice(pool))
            if rng.random() < 0.5:
                return ['*', tree([a - b for a, b in zip(other, o)], d - 1), tree(o, d - 1)]
            return ['/', tree([a + b for a, b in zip(other, o)], d - 1), tree(o, d - 1)]
        if k < 0.75:
            n = rng.choice([2, -3, 0.5, 1.5, 3, -1])
            op = rng.choice(['+', '-', '*', '/', 'r+', 'r-', 'r*', 'r/'])
            if op == 'r/':
                return ['/', ['num', n], tree([-a for a in other], d - 1)]
            if op[0] == 'r':
                return [op[1], ['num', n], tree(other, d - 1)]
            return [op, tree(other, d - 1), ['num', n]]
        if k < 0.82:
            n = rng.choice([2, 3, -1, 0.5, -2])
            return ['**', tree([a / n for a in other], d - 1), ['num', n]]
        if not any(ds):
            if k < 0.95:
                return ['fn', rng.choice(list(FN)), tree(other, d - 1)]
            return ['**', tree(ds, d - 1), tree(other, d - 1)]
        xs = [tree(list(ds), d - 1)] + [tree(other, d - 1) for _ in range(rng.randint(0, 2))]
        if rng.random() < 0.3:
            xs.insert(rng.randint(0, len(xs)), ['num', rng.choice([0.7, 2])])
        rng.shuffle(xs)
        return [rng.choice(['Min', 'Max']), xs]

    t = tree(rng.choice(pool), depth)
    if t[0] == 'num':
        t = ['q', newq([0] * 7)]
    return dict(kind='tree', qs=qs, tree=t)


def systematic_trees():
    """small formulas over every operator and operand class"""
    z = [0] * 7
    m = [1, 0, 0, 0, 0, 0, 0]
    tt = [0, 0, 1, 0, 0, 0, 0]
    us = [z, m]

    def mk(kind, ds, qs):
        def q(ds, spec, cls='Variable', dom=False, value=1.25):
            qs.append(dict(cls=cls, name='v%d' % len(qs), dims=list(ds), spec=spec, value=value, dom=dom))
            return ['q', len(qs) - 1]
        if kind == 'num':
            return ['num', 1.75]
        if kind == 'int':
            return ['num', 2]
        if kind == 'unk':
            return q(ds, False)
        if kind == 'spec':
            return q(ds, True, 'Parameter')
        if kind == 'const':
            return q(ds, True, 'Constant', value=2)
        if kind == 'nl':
            return ['*', q(ds, False), ['fn', 'Exp', q(z, False)]]
        if kind == 'nlspec':
            return ['*', q(ds, True), ['fn', 'Cos', q(z, True)]]
        if kind in ('der', 'derspec'):
            x = q([a + b for a, b in zip(ds, tt)], kind == 'derspec', dom=True)
            t = q(tt, False)
            return ['diff', x[1], t[1]]
        if kind == 'sum':
            return ['+', q(ds, False), q(ds, True)]
    kinds = ['num', 'int', 'unk', 'spec', 'const', 'nl', 'nlspec', 'der', 'derspec', 'sum']
    for ka in kinds:
        for kb in kinds:
            for ua in us:
                for ub in us:
                    if (ka in ('num', 'int') and ua is not z) or (kb in ('num', 'int') and ub is not z):
                        continue
                    for op in ('+', '-', '*', '/', '**', 'Min', 'Max'):
                        if ka in ('num', 'int') and (kb in ('num', 'int') or op == '**') and op not in ('Min', 'Max'):
                            continue
                        qs = []
                        a, b = mk(ka, ua, qs), mk(kb, ub, qs)
                        yield dict(kind='tree', qs=qs, tree=[op, a, b] if op not in ('Min', 'Max') else [op, [a, b]])
    for ka in kinds:
        for ua in us:
            for fn in FN:
                qs = []
                if ka in ('num', 'int') and ua is not z:
                    continue
                yield dict(kind='tree', qs=qs, tree=['fn', fn, mk(ka, ua, qs)])
    # formulas in which a quantity, or a whole subtree, occurs more than once
    for ds in us:
        for sp in (False, True):
            def three():
                qs = []
                return qs, mk('unk', ds, qs), mk('spec' if sp else 'unk', ds, qs), mk('unk', ds, qs)
            for k in range(12):
                qs, a, b, c = three()
                d = mk('nl', ds, qs) if k % 2 else a
                s = ['+', a, b]
                yield dict(kind='tree', qs=qs, tree=[
                    ['/', a, a], ['/', s, s], ['/', ['+', s, c], a], ['/', a, s], ['-', ['+', ['-', a, b], c], ['-', a, ['+', b, c]]],
                    ['-', s, s], ['+', ['*', ['num', 2.0], a], a], ['*', ['/', a, b], b], ['*', s, s], ['/', ['*', a, b], a],
                    ['-', ['/', d, d], ['/', b, b]], ['+', ['/', s, a], ['/', d, b]]][k])
    # composition of functions, under a further operation
    for ka in ('unk', 'spec', 'const'):
        for f1 in FN:
            for f2 in FN:
                qs = []
                t = ['fn', f1, ['fn', f2, mk(ka, z, qs)]]
                yield dict(kind='tree', qs=qs, tree=['/', t, ['num', 2.0]])
                yield dict(kind='tree', qs=qs, tree=['-', ['*', t, ['num', 3.0]], mk('unk', z, qs)])
    # numbers of any magnitude
    for v in (1.25e-13, 3e-17, 2.5e11):
        for k in range(6):
            qs = []
            a, n, i = mk('unk', z, qs), ['num', v], ['num', 1 / v]
            s = ['q', 1]
            t = [['/', ['*', a, n], n], ['*', ['/', n, a], i], ['*', ['*', n, a], i], ['*', ['+', ['*', a, n], n], i], ['*', ['-', n, ['*', n, a]], i],
                 ['*', ['*', a, s], i]][k]
            qs.append(dict(cls='Parameter', name='v1', dims=list(z), spec=True, value=v, dom=False))
            yield dict(kind='tree', qs=qs, tree=t)
    # every single base dimension matters
    for i in range(7):
        for e in (1, -1, 0.5):
            ds = [0] * 7
            ds[i] = e
            for op in ('+', '-'):
                qs = []
                yield dict(kind='tree', qs=qs, tree=[op, mk('unk', ds, qs), mk('unk', z, qs)])
                qs = []
                yield dict(kind='tree', qs=qs, tree=[op, mk('unk', z, qs), mk('spec', ds, qs)])
            qs = []
            yield dict(kind='tree', qs=qs, tree=['**', mk('unk', z, qs), mk('unk', ds, qs)])
            for op in ('*', '/'):
                qs = []
                yield dict(kind='tree', qs=qs, tree=[op, mk('unk', ds, qs), mk('unk', m, qs)])
            qs = []
            yield dict(kind='tree', qs=qs, tree=['/', ['num', 2.0], mk('unk', ds, qs)])
            for fn in FN:
                qs = []
                yield dict(kind='tree', qs=qs, tree=['fn', fn, mk('unk', ds, qs)])
            for fn in ('Min', 'Max'):
                qs = []
                yield dict(kind='tree', qs=qs, tree=[fn, [mk('unk', ds, qs), mk('spec', z, qs), mk('unk', ds, qs)]])
                qs = []
                yield dict(kind='tree', qs=qs, tree=[fn, [mk('unk', ds, qs), mk('spec', ds, qs), mk('unk', z, qs)]])
                qs = []
                yield dict(kind='tree', qs=qs, tree=[fn, [['num', 1.0], mk('spec', ds, qs), mk('unk', z, qs)]])


def tree_cases(rng, tier):
    for c in systematic_trees():
        yield c
    n = 1500 if tier == 'quick' else 30000
    for i in range(n):
        yield random_tree_case(rng, depth=rng.choice([1, 2, 2, 3, 4]))


def expr_oracle(props, extra_run=None, extra_gen=None):
    def run_case(case):
        ts = trees_of(case)
        if ts is None:
            return extra_run(case) if extra_run else []
        F = Fails()
        for t in ts:
            F.extend(run_tree(t, props))
        return F

    def gen_cases(rng, tier):
        if extra_gen:
            for c in extra_gen(rng, tier):
                yield c
        for c in tree_cases(rng, tier):
            yield c
    return run_case, gen_cases


TEMPL = dict(dimless={}, m=dict(m=1), kg=dict(kg=1), s=dict(s=1), A=dict(A=1), K=dict(K=1), mol=dict(mol=1), cd=dict(cd=1),
             _s=dict(s=-1), _m2=dict(m=-2), _m3=dict(m=-3), m_s=dict(m=1, s=-1), m_s2=dict(m=1, s=-2), kg_s=dict(kg=1, s=-1),
             mol_s=dict(mol=1, s=-1), Force=dict(kg=1, m=1, s=-2), Pa=dict(kg=1, m=-1, s=-2), atm=dict(kg=1, m=-1, s=-2),
             J=dict(kg=1, m=2, s=-2), UniversalIdealGasConstant=dict(kg=1, m=2, s=-2, K=-1, mol=-1))
