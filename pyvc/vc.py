"""Obligations: exploration of every path of a specification function that calls the real code, and discharge of the
postconditions on each path."""
import os
import time
import traceback
from fractions import Fraction
import z3
from . import values as V
from .values import *
from .values import _MISSING
from .interp import Interp, Decider, PyRaise, EXC, GiveUp, T, OBJECT, REPO, _Ret, _Brk, _Cont
from . import seqs


class EnsureStop(Exception):
    pass


class M:
    """Concrete reading of a solver model (used to build replayable inputs)."""

    def __init__(self, model):
        self.m = model

    def ev(self, t):
        return self.m.eval(t, model_completion=True)

    def num(self, v):
        if isinstance(v, (int, float)):
            return v
        t = self.ev(v.t if isinstance(v, SV) else v)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return float(f) if not (isinstance(v, SV) and v.k == 'int') else int(f)
        if z3.is_algebraic_value(t):
            return float(t.approx(10).as_fraction())
        return 1.0

    def str(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, SStr):
            return ''.join(p if isinstance(p, str) else self.str(p) for p in v.parts)
        t = self.ev(v)
        return t.as_string() if z3.is_string_value(t) else 'x'

    def val(self, v):
        """JSON value of an engine value."""
        if v is None or isinstance(v, (bool, int, float, str)):
            return v
        if isinstance(v, SV):
            return self.num(v)
        if isinstance(v, SStr):
            return self.str(v)
        if isinstance(v, tuple):
            return [self.val(x) for x in v]
        if isinstance(v, PList) and isinstance(v.items, list):
            return [self.val(x) for x in v.items]
        if isinstance(v, PDict) and v.layers is None:
            return {str(self.val(k)): self.val(x) for k, x in v.items()}
        return repr(v)


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.infeasible = 0
        self.discharged = {}      # ensure name -> number of paths
        self.failures = []        # dict(name, detail, case, tainted, trace)
        self.undecided = []       # (name, reason)
        self.assumptions = set()
        self.entered = {}
        self.contracts = {}
        self.queries = 0
        self.solver_time = 0.0
        self.wall = 0.0
        self.reached = set()

    def as_dict(self):
        return dict(name=self.name, paths=self.paths, infeasible=self.infeasible, discharged=self.discharged,
                    failures=self.failures, undecided=self.undecided, assumptions=sorted(self.assumptions),
                    entered=self.entered, contracts=self.contracts, queries=self.queries,
                    solver_time=round(self.solver_time, 3), wall=round(self.wall, 3))


class P:
    """One path of an obligation: symbolic inputs, calls into the real code and postconditions."""

    def __init__(self, I, res):
        self.I = I
        self.deadline = None
        self.res = res
        self.casef = None
        self.trace = []
        self.seen = set()

    # ---- inputs
    def real(self, name='r'):
        return SV('float', z3.Real(V.fresh(name)))

    def int(self, name='n'):
        return SV('int', z3.Int(V.fresh(name)))

    def bool(self, name='b'):
        return SV('bool', z3.Bool(V.fresh(name)))

    def string(self, name='s', nonempty=True):
        z = z3.String(V.fresh(name))
        s = SStr((z,))
        if nonempty:
            self.I.define(z != z3.StringVal(''))
        return s

    def number(self, name='x'):
        """an arbitrary int or float"""
        return self.real(name) if self.choice(2, name) == 0 else self.int(name)

    def choice(self, n, tag='c'):
        return self.I.choose(n, tag)

    def flag(self, tag='f'):
        return self.I.branch(z3.Bool(V.fresh(tag)))

    def pick(self, opts, tag='o'):
        return opts[self.I.choose(len(opts), tag)]

    def assume(self, f):
        self.I.assume(f)
        if self.I.check() == z3.unsat:
            raise PathInfeasible()

    def distinct(self, *strs):
        for i, a in enumerate(strs):
            for b in strs[i + 1:]:
                r = self.I.str_eq(a, b)
                if r is True:
                    raise PathInfeasible()
                if r is not False:
                    self.I.assume(z3.Not(r))

    def one_of(self, *thunks):
        """every conjunct is checked from the current state, each on paths of its own and without effect on the others"""
        I, res = self.I, self.res
        taint = I.tainted
        for th in thunks:
            def body():
                I.tainted = taint
                if self.deadline is not None and time.time() > self.deadline:
                    raise GiveUp('time budget exhausted after %d paths' % res.paths)
                try:
                    th()
                except EnsureStop:
                    pass
                except (Unsupported, PyRaise) as e:
                    if I.check() == z3.unsat:
                        res.infeasible += 1
                        raise PathInfeasible()
                    if isinstance(e, PyRaise):
                        res.undecided.append(('*', 'spec: unexpected %s %r%s' % (e.exc.cls.name, e.exc.d.rget('args'), _where())))
                    else:
                        res.undecided.append(('*', 'unsupported: %s%s' % (e, _where())))
                except z3.Z3Exception as e:
                    res.undecided.append(('*', 'z3: %s%s' % (e, _where())))
                except PathInfeasible:
                    res.infeasible += 1
                    raise
                res.paths += 1
            I.subexplore(body, 4000)
        I.tainted = taint

    def hook(self, f, *names):
        """assumed contract f(I, args, kw) of the external routines with these qualified names"""
        for n in names:
            self.I.hooks[n] = f

    # ---- code
    def mod(self, name):
        return self.I.import_module(name)

    def get(self, modname, *path):
        return self.I.getmember(modname, *path)

    def call(self, f, *args, **kw):
        """('ok', value) or ('raise', exception object)"""
        fn, rest = (f.fn, [f.self_] + list(args)) if type(f).__name__ == 'BM' else (f, list(args))
        nm = getattr(fn, 'name', '')
        if isinstance(nm, str) and nm.startswith('_') and not nm.endswith('__') and hasattr(fn, 'node') and hasattr(fn, 'qual'):
            # a helper, not part of the interface: other parameters than the specification knows are no violation
            from .interp import Env
            try:
                self.I.bind_args(fn, rest, kw, Env(parent=fn.env, glb=fn.glb, fnlocals=self.I.fninfo(fn)[1]))
            except PyRaise:
                raise Unsupported('the parameters of %s are other than specified' % nm)
        try:
            return ('ok', self.I.call(f, list(args), kw))
        except PyRaise as e:
            return ('raise', e.exc)

    def attempt(self, thunk):
        try:
            return ('ok', thunk())
        except PyRaise as e:
            return ('raise', e.exc)

    def attr(self, o, *path):
        for n in path:
            o = self.I.getattr(o, n)
        return o

    def method(self, o, name, *args, **kw):
        return self.call(self.I.getattr(o, name), *args, **kw)

    def op(self, op, a, b):
        return self.attempt(lambda: self.I.binop(op, a, b))

    def pylist(self, xs):
        return PList(list(xs))

    def pydict(self, d):
        p = PDict()
        for k, v in d.items():
            self.I.dict_set(p, k, v)
        return p

    # ---- readings
    def list_of(self, v):
        return list(self.I.iterate(v))

    def dict_of(self, v):
        return v.items()

    def excname(self, r):
        return r[1].cls.name if r[0] == 'raise' else None

    def isexc(self, r, *names):
        return r[0] == 'raise' and any(c.name in names for c in r[1].cls.mro)

    # ---- postconditions
    def case(self, f):
        self.casef = f

    def _case(self, extra):
        if self.casef is None:
            return None
        try:
            if self.I.check(*extra) != z3.sat:
                return None
            self.I.solver.push()
            for e in extra:
                self.I.solver.add(e)
            try:
                self.I.solver.check()
                m = self.I.solver.model()
            finally:
                self.I.solver.pop()
            return self.casef(M(m))
        except (Unsupported, z3.Z3Exception, RecursionError) as e:
            return None

    def fail(self, name, detail='', extra=()):
        r = self.I.check(*extra)
        if r == z3.unsat:
            raise PathInfeasible()
        self.res.failures.append(dict(name=name, detail=str(detail)[:1500], case=self._case(list(extra)),
                                      tainted=bool(self.I.tainted or r == z3.unknown)))

    def ensure(self, name, cond, detail=''):
        """The condition holds on this path, for every input that takes it."""
        self.res.reached.add(name)
        if callable(cond) and not isinstance(cond, (Host,)):
            cond = cond()
        if isinstance(cond, SV):
            cond = boolz(cond)
        if isinstance(cond, bool):
            if cond:
                self.res.discharged[name] = self.res.discharged.get(name, 0) + 1
            else:
                self.fail(name, detail)
            return cond
        f = z3.simplify(cond)
        if z3.is_true(f):
            self.res.discharged[name] = self.res.discharged.get(name, 0) + 1
            return True
        r = self.I.check(z3.Not(f))
        if r == z3.unsat:
            self.res.discharged[name] = self.res.discharged.get(name, 0) + 1
            self.I.assume(f)
            return True
        if r == z3.unknown:
            r = self.retry(z3.Not(f))
            if r == z3.unsat:
                self.res.discharged[name] = self.res.discharged.get(name, 0) + 1
                return True
            if r == z3.unknown:
                self.res.undecided.append((name, 'solver: unknown'))
                return False
        self.fail(name, detail or ('refuted: %s' % f), [z3.Not(f)])
        self.assume(f)
        return False

    def maybe(self, name, cond, detail=''):
        """A sufficient condition: where it fails the obligation is undecided rather than refuted."""
        if cond is not True:
            self.I.tainted = True
        return self.ensure(name, cond, detail)

    def retry(self, goal):
        for tac in ('nlsat', 'z3-long', 'cvc5'):
            try:
                if tac == 'nlsat':
                    s = z3.Tactic('qfnra-nlsat').solver()
                    s.set('timeout', 15000)
                elif tac == 'z3-long':
                    s = z3.Solver()
                    s.set('timeout', 30000)
                else:
                    continue
                for p in self.I.pc:
                    s.add(p)
                s.add(goal)
                t = time.time()
                r = s.check()
                self.I.solver_time += time.time() - t
                self.I.queries += 1
                if r != z3.unknown:
                    return r
            except z3.Z3Exception:
                continue
        return z3.unknown

    def eq(self, name, a, b, detail=''):
        """Python values a and b are equal (numbers, strings, structures)."""
        r = self.I.eqf(a, b)
        return self.ensure(name, r, detail or 'expected %r, got %r' % (b, a))

    def same(self, name, a, b):
        r = self.I.identical(a, b)
        return self.ensure(name, r, 'expected the same object')

    def raises(self, name, r, *names):
        """the call raised (one of the named error classes)"""
        if r[0] != 'raise':
            return self.ensure(name, False, 'no error was raised')
        if names and not self.isexc(r, *names):
            return self.ensure(name, False, 'raised %s' % r[1].cls.name)
        return self.ensure(name, True)

    def returns(self, name, r):
        """the call returned normally"""
        if r[0] == 'ok':
            return self.ensure(name, True)
        msg = ''
        try:
            msg = repr(r[1].d.rget('args'))
        except Exception:
            pass
        self.ensure(name, False, 'raised %s %s' % (r[1].cls.name, msg))
        raise EnsureStop()


def setup(I):
    I.tainted = False
    I.steps = 0
    I.hooks = {}


class Obligation:
    def __init__(self, name, fn, bounded=None, budget=150, maxpaths=4000):
        self.name = name
        self.fn = fn
        self.bounded = bounded      # None: unbounded proof; text: the bound
        self.budget = budget
        self.maxpaths = maxpaths


class Spec:
    def __init__(self, prop):
        self.prop = prop
        self.obls = []
        self.assumptions = []
        self.preload = []

    def obligation(self, name, bounded=None, budget=150, maxpaths=4000):
        def deco(f):
            self.obls.append(Obligation(name, f, bounded, budget, maxpaths))
            return f
        return deco


def run(I, ob):
    res = Result(ob.name)
    t0 = time.time()
    I.entered = {}
    I.used_contracts = {}
    I.assumptions = set()
    q0, s0 = I.queries, I.solver_time
    scripts = [[]]
    base = V._counter[0]
    while scripts:
        if time.time() - t0 > ob.budget:
            res.undecided.append(('*', 'time budget of %ds exhausted after %d paths' % (ob.budget, res.paths)))
            break
        if res.paths + res.infeasible > ob.maxpaths:
            res.undecided.append(('*', 'more than %d paths' % ob.maxpaths))
            break
        sc = scripts.pop()
        d = Decider(sc)
        mark = J.mark()
        V._counter[0] = base
        I.dec = [d]
        I.pc = []
        I.depth = 0
        I.handling = []
        setup(I)
        I.solver.push()
        p = P(I, res)
        p.deadline = t0 + ob.budget
        try:
            try:
                ob.fn(p)
                res.paths += 1
            except PathInfeasible:
                res.infeasible += 1
            except EnsureStop:
                res.paths += 1
            except Unsupported as e:
                if I.check() == z3.unsat:
                    res.infeasible += 1
                else:
                    res.undecided.append(('*', 'unsupported: %s%s' % (e, _where())))
                    res.paths += 1
            except GiveUp as e:
                res.undecided.append(('*', str(e)))
            except PyRaise as e:
                a = e.exc.d.rget('args')
                if I.check() != z3.unsat:
                    res.undecided.append(('*', 'spec: unexpected %s %r%s' % (e.exc.cls.name, a, _where())))
                res.paths += 1
            except (_Ret, _Brk, _Cont):
                res.undecided.append(('*', 'stray control flow'))
            except RecursionError:
                res.undecided.append(('*', 'recursion limit'))
            except z3.Z3Exception as e:
                res.undecided.append(('*', 'z3: %s%s' % (e, _where())))
                res.paths += 1
        finally:
            I.solver.pop()
            J.undo(mark)
            I.dec = []
            I.pc = []
        scripts.extend(d.alts)
    if not res.failures and not res.undecided and not res.discharged:
        res.undecided.append(('*', 'vacuous: no path reached a postcondition'))
    res.wall = time.time() - t0
    res.entered = dict(I.entered)
    res.contracts = dict(I.used_contracts)
    res.assumptions = set(I.assumptions)
    res.queries = I.queries - q0
    res.solver_time = I.solver_time - s0
    return res


def _where():
    if os.environ.get('PYVC_DEBUG'):
        return '\n' + traceback.format_exc()
    return ''
