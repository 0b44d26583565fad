"""Symbolic interpreter of Python source (AST of the files in the repository, parsed on every run)."""
import ast
import os
import z3
from . import values as V
from .values import *
from .values import _MISSING

REPO = os.environ.get('PYVC_REPO', '/repo')


class PyRaise(Exception):
    def __init__(self, exc, where=None):
        self.exc = exc
        self.where = where

    def __str__(self):
        return 'PyRaise(%s)' % (self.exc.cls.name,)


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


# ------------------------------------------------------------------ builtin exception classes
def _mkexc():
    out = {}

    def mk(name, base):
        out[name] = Cls(name, [base] if base else [], {}, 'builtins')
    mk('BaseException', None)
    b = out['BaseException']
    mk('Exception', b)
    e = out['Exception']
    for n in ('TypeError', 'ValueError', 'ArithmeticError', 'AttributeError', 'LookupError', 'NameError',
              'RuntimeError', 'AssertionError', 'ImportError', 'OSError', 'StopIteration', 'SyntaxError', 'EOFError',
              'Warning'):
        mk(n, e)
    mk('KeyboardInterrupt', b)
    mk('SystemExit', b)
    mk('KeyError', out['LookupError'])
    mk('IndexError', out['LookupError'])
    mk('ZeroDivisionError', out['ArithmeticError'])
    mk('OverflowError', out['ArithmeticError'])
    mk('UnboundLocalError', out['NameError'])
    mk('NotImplementedError', out['RuntimeError'])
    mk('RecursionError', out['RuntimeError'])
    mk('FileNotFoundError', out['OSError'])
    mk('ModuleNotFoundError', out['ImportError'])
    mk('UserWarning', out['Warning'])
    mk('DeprecationWarning', out['Warning'])
    out['IOError'] = out['OSError']
    return out


EXC = _mkexc()
OBJECT = Cls('object', [], {}, 'builtins')


class BType(Host):
    """Builtin type object (callable, usable in isinstance)."""

    def __init__(self, name, bases=()):
        self.name = name
        self.bases = bases

    def __repr__(self):
        return '<type %s>' % self.name

    def isub(self, other):
        return self is other or any(b.isub(other) for b in self.bases)


T = {}
for _n in ('int', 'float', 'str', 'list', 'dict', 'tuple', 'set', 'bytes', 'complex', 'NoneType', 'function', 'type',
           'frozenset', 'range', 'slice', 'method', 'generator', 'module', 'property', 'ellipsis'):
    T[_n] = BType(_n)
T['bool'] = BType('bool', (T['int'],))
T['OrderedDict'] = BType('OrderedDict', (T['dict'],))
T['defaultdict'] = BType('defaultdict', (T['dict'],))


class Prop(Host):
    def __init__(self, f, setter=None, kind='property'):
        self.f, self.setter, self.kind = f, setter, kind

    def h_getattr(self, I, name):
        if name == 'setter':
            return Native('setter', lambda I, a, k: Prop(self.f, a[0], self.kind))
        raise Unsupported('property attribute')


class Super(Host):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Decider:
    def __init__(self, script):
        self.script = script
        self.taken = []
        self.alts = []
        self.delta = []


class GiveUp(Exception):
    """time budget exhausted"""


RANK = z3.Function('alphabetical rank', z3.StringSort(), z3.RealSort())


class Interp:
    MAXDEPTH = 180

    def __init__(self, repo=REPO):
        self.repo = repo
        self.solver = z3.Solver()
        self.solver.set('timeout', 8000)
        self.dec = []
        self.modules = {}
        self.ext = {}
        self.entered = {}
        self.contracts = {}
        self.contract_off = set()
        self.used_contracts = {}
        self.depth = 0
        self.pc = []
        self.queries = 0
        self.solver_time = 0.0
        self.unknowns = 0
        self.tainted = False        # the current path rests on an 'unknown' feasibility or an over-approximation
        self.assumptions = set()
        self.steps = 0
        self.step_limit = 400000
        self.memo = {}
        self.cover = set()
        self.wit_hooks = []
        self.loop_specs = {}
        from . import builtins_model
        self.builtins = builtins_model.make(self)
        self.bm = builtins_model

    # ------------------------------------------------------------- solver / branching
    def check(self, *extra):
        import time
        t = time.time()
        self.queries += 1
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            self.solver.pop()
        else:
            r = self.solver.check()
        self.solver_time += time.time() - t
        return r

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathInfeasible()
            return
        if isinstance(f, SV):
            f = f.t
        f = z3.simplify(f) if not z3.is_quantifier(f) else f
        if z3.is_true(f):
            return
        self.pc.append(f)
        self.solver.add(f)
        if self.dec:
            self.dec[-1].delta.append(f)

    def branch(self, cond):
        """Decide a symbolic condition; explores both sides when both are feasible."""
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, SV):
            cond = cond.t
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if not self.dec:
            raise Unsupported('symbolic branch outside exploration')
        d = self.dec[-1]
        i = len(d.taken)
        if i < len(d.script):
            choice = d.script[i]
            d.taken.append(choice)
            f = cond if choice is not False and choice != 'F!' else z3.Not(cond)
            if choice == 'T!' or choice == 'F!':
                self.tainted = True
            self._add(f)
            return choice is True or choice == 'T!'
        rt = self.check(cond)
        if rt == z3.unsat:
            d.taken.append(False)
            self._add(z3.Not(cond))
            return False
        rf = self.check(z3.Not(cond))
        if rf == z3.unsat:
            d.taken.append(True)
            self._add(cond)
            return True
        if rt == z3.unknown or rf == z3.unknown:
            self.unknowns += 1
        ct = True if rt == z3.sat else 'T!'
        cf = False if rf == z3.sat else 'F!'
        d.alts.append(d.taken + [cf])
        d.taken.append(ct)
        if ct == 'T!':
            self.tainted = True
        self._add(cond)
        return True

    def _add(self, f):
        self.pc.append(f)
        self.solver.add(f)
        self.dec[-1].delta.append(f)

    def choose(self, n, tag=''):
        """Non-deterministic choice among n alternatives (used by specs to enumerate cases)."""
        for i in range(n - 1):
            b = z3.Bool(V.fresh('choice_%s' % tag))
            if self.branch(b):
                return i
        return n - 1

    def define(self, f):
        """Constraint of a variable just introduced (satisfiable whatever the rest is): not part of a path condition."""
        f = z3.simplify(f)
        self.pc.append(f)
        self.solver.add(f)

    def subexplore(self, thunk, limit=400):
        """Run thunk over all its own branch outcomes from the current state; effects are undone.
        Returns [(delta formulas, ('ok', value) | ('raise', exc))]."""
        scripts = [[]]
        out = []
        while scripts:
            if len(out) > limit:
                raise Unsupported('too many paths in a loop body')
            sc = scripts.pop()
            d = Decider(sc)
            mark = J.mark()
            npc = len(self.pc)
            cnt = V._counter[0]
            self.solver.push()
            self.dec.append(d)
            depth = self.depth
            try:
                try:
                    r = ('ok', thunk())
                except PyRaise as e:
                    r = ('raise', e.exc)
                except PathInfeasible:
                    r = None
                if r is not None:
                    out.append((list(d.delta), r, V._counter[0] != cnt))
            finally:
                self.depth = depth
                self.dec.pop()
                self.solver.pop()
                del self.pc[npc:]
                J.undo(mark)
            scripts.extend(d.alts)
        return out

    # ------------------------------------------------------------- exceptions
    def throw(self, name, *args):
        cls = EXC[name]
        o = Obj(cls)
        o.d.rset('args', tuple(args))
        raise PyRaise(o)

    # ------------------------------------------------------------- modules
    def modpath(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            return (f if os.path.exists(f) else None), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, None

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.ext:
            return self.ext[name]
        f, ispkg = self.modpath(name) if name.split('.')[0] == 'src' else (None, None)
        if ispkg is None:
            top = name.split('.')[0]
            if top == 'src':
                self.throw('ModuleNotFoundError', name)
            from . import extlib
            m = extlib.module(self, name)
            self.ext[name] = m
            return m
        glb = Env()
        glb.v['__name__'] = name
        glb.v['__builtins__'] = None
        m = PyMod(name, glb)
        m.ispkg = ispkg
        m.file = f
        self.modules[name] = m
        if f:
            with open(f, encoding='utf-8') as fh:
                src = fh.read()
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(src, f)
            glb.fn = None
            self.loading = getattr(self, 'loading', 0) + 1
            try:
                self.exec_block(tree.body, glb, m)
            finally:
                self.loading -= 1
        if '.' in name:
            parent, last = name.rsplit('.', 1)
            pm = self.import_module(parent)
            if isinstance(pm, PyMod):
                pm.glb.v[last] = m
        return m

    def getmember(self, modname, *path):
        m = self.import_module(modname)
        v = m.glb.v[path[0]]
        for p in path[1:]:
            v = self.getattr(v, p)
        return v

    def resolve_from(self, node, mod):
        if node.level == 0:
            return node.module
        base = mod.name.split('.')
        if not getattr(mod, 'ispkg', False):
            base = base[:-1]
        base = base[:len(base) - (node.level - 1)]
        if node.module:
            base = base + node.module.split('.')
        return '.'.join(base)

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts, env, mod):
        for s in stmts:
            self.exec_stmt(s, env, mod)

    def exec_stmt(self, s, env, mod):
        self.steps += 1
        if self.steps > self.step_limit:
            raise Unsupported('step limit')
        try:
            m = self.__getattribute__('s_' + s.__class__.__name__)
        except AttributeError:
            raise Unsupported('statement %s' % s.__class__.__name__)
        m(s, env, mod)

    def s_Expr(self, s, env, mod):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env, mod)

    def s_Pass(self, s, env, mod):
        pass

    def s_Import(self, s, env, mod):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m, env)
            else:
                top = a.name.split('.')[0]
                self.store_name(top, self.import_module(top), env)

    def s_ImportFrom(self, s, env, mod):
        name = self.resolve_from(s, mod)
        m = self.import_module(name)
        for a in s.names:
            if a.name == '*':
                if not isinstance(m, PyMod):
                    raise Unsupported('star import of external %s' % name)
                al = m.glb.v.get('__all__', None)
                names = [self.conc_str(x) for x in al.items] if isinstance(al, PList) else \
                    [k for k in m.glb.v if not k.startswith('_')]
                for k in names:
                    self.store_name(k, m.glb.v[k], env)
            else:
                if isinstance(m, PyMod):
                    if a.name in m.glb.v:
                        v = m.glb.v[a.name]
                    else:
                        f, isp = self.modpath(name + '.' + a.name)
                        if isp is None:
                            self.throw('ImportError', a.name)
                        v = self.import_module(name + '.' + a.name)
                else:
                    v = m.h_getattr(self, a.name)
                self.store_name(a.asname or a.name, v, env)

    def s_FunctionDef(self, s, env, mod):
        f = self.make_fn(s, env, mod)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env, mod)
            v = self.call(dv, [v], {})
        self.store_name(s.name, v, env)

    def make_fn(self, s, env, mod, name=None):
        a = s.args
        defaults = [self.ev(x, env, mod) for x in a.defaults]
        kwd = [None if x is None else self.ev(x, env, mod) for x in a.kw_defaults]
        nm = name or s.name
        prefix = getattr(env, 'fn', None)
        q = nm
        if env.isclass:
            q = env.fn + '.' + nm
        elif env.fn:
            q = env.fn + '.<locals>.' + nm
        f = Fn(s, nm, q, env.glb, env, defaults, kwd, mod)
        if env.isclass:
            f.defcls = env
        else:
            f.defcls = env.defcls
        return f

    def s_ClassDef(self, s, env, mod):
        bases = [self.ev(b, env, mod) for b in s.bases]
        bases = [b for b in bases if b is not OBJECT]
        for b in bases:
            if not isinstance(b, Cls):
                raise Unsupported('base class %r' % (b,))
        if s.keywords:
            raise Unsupported('class keywords')
        cenv = Env(parent=env, glb=env.glb)
        cenv.isclass = True
        cenv.fn = s.name if not env.isclass and not env.fn else (env.fn or '') + '.' + s.name
        cenv.defcls = [None]
        self.exec_block(s.body, cenv, mod)
        c = Cls(s.name, bases, dict(cenv.v), mod.name)
        cenv.defcls[0] = c
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env, mod), [v], {})
        self.store_name(s.name, v, env)

    def s_Return(self, s, env, mod):
        raise _Ret(self.ev(s.value, env, mod) if s.value is not None else None)

    def s_Break(self, s, env, mod):
        raise _Brk()

    def s_Continue(self, s, env, mod):
        raise _Cont()

    def s_Global(self, s, env, mod):
        env.globals_decl = tuple(env.globals_decl) + tuple(s.names)

    def s_Nonlocal(self, s, env, mod):
        env.nonlocals = tuple(env.nonlocals) + tuple(s.names)

    def s_Assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        for t in s.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, mod), env, mod)

    def s_AugAssign(self, s, env, mod):
        t = s.target
        op = s.op.__class__.__name__
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, env)
            v = self.binop(op, cur, self.ev(s.value, env, mod), inplace=True)
            self.store_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            cur = self.getattr(o, t.attr)
            v = self.binop(op, cur, self.ev(s.value, env, mod), inplace=True)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            k = self.ev_index(t.slice, env, mod)
            cur = self.getitem(o, k)
            v = self.binop(op, cur, self.ev(s.value, env, mod), inplace=True)
            self.setitem(o, k, v)
        else:
            raise Unsupported('augmented assignment target')

    def s_Delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.delete(t.id)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env, mod)
                self.delitem(o, self.ev_index(t.slice, env, mod))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env, mod)
                self.delattr(o, t.attr)
            else:
                raise Unsupported('del target')

    def s_If(self, s, env, mod):
        if self.truth(self.ev(s.test, env, mod)):
            self.exec_block(s.body, env, mod)
        else:
            self.exec_block(s.orelse, env, mod)

    def s_While(self, s, env, mod):
        n = 0
        while self.truth(self.ev(s.test, env, mod)):
            n += 1
            if n > 2000:
                raise Unsupported('while loop without invariant')
            try:
                self.exec_block(s.body, env, mod)
            except _Brk:
                return
            except _Cont:
                continue
        self.exec_block(s.orelse, env, mod)

    def s_For(self, s, env, mod):
        it = self.ev(s.iter, env, mod)
        from . import seqs
        g = seqs.as_generic(self, it)
        if g is not None:
            return seqs.generic_for(self, s, g, env, mod)
        for v in self.iterate(it):
            self.assign(s.target, v, env, mod)
            try:
                self.exec_block(s.body, env, mod)
            except _Brk:
                return
            except _Cont:
                continue
        self.exec_block(s.orelse, env, mod)

    def s_Raise(self, s, env, mod):
        if s.exc is None:
            if getattr(self, 'handling', None):
                raise PyRaise(self.handling[-1])
            self.throw('RuntimeError', 'No active exception to reraise')
        e = self.ev(s.exc, env, mod)
        if isinstance(e, Cls):
            e = self.call(e, [], {})
        if not isinstance(e, Obj) or EXC['BaseException'] not in e.cls.mro:
            self.throw('TypeError', 'exceptions must derive from BaseException')
        raise PyRaise(e)

    def s_Assert(self, s, env, mod):
        if not self.truth(self.ev(s.test, env, mod)):
            self.throw('AssertionError', *([self.ev(s.msg, env, mod)] if s.msg else []))

    def s_Try(self, s, env, mod):
        try:
            try:
                self.exec_block(s.body, env, mod)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, env, mod)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = any(isinstance(c, Cls) and c in e.exc.cls.mro for c in ts)
                    if ok:
                        if h.name:
                            self.store_name(h.name, e.exc, env)
                        if not hasattr(self, 'handling'):
                            self.handling = []
                        self.handling.append(e.exc)
                        try:
                            self.exec_block(h.body, env, mod)
                        finally:
                            self.handling.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env, mod)
        except (PyRaise, _Ret, _Brk, _Cont):
            self.exec_block(s.finalbody, env, mod)
            raise
        else:
            self.exec_block(s.finalbody, env, mod)

    def s_With(self, s, env, mod):
        ms = []
        for it in s.items:
            m = self.ev(it.context_expr, env, mod)
            v = self.call(self.getattr(m, '__enter__'), [], {})
            ms.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env, mod)
        try:
            self.exec_block(s.body, env, mod)
        except PyRaise:
            for m in reversed(ms):
                self.call(self.getattr(m, '__exit__'), [None, None, None], {})
            raise
        except (_Ret, _Brk, _Cont):
            for m in reversed(ms):
                self.call(self.getattr(m, '__exit__'), [None, None, None], {})
            raise
        for m in reversed(ms):
            self.call(self.getattr(m, '__exit__'), [None, None, None], {})

    # ------------------------------------------------------------- names
    def load_name(self, name, env):
        e = env
        if name in e.globals_decl:
            e = env.glb
        first = True
        while e is not None:
            if name in e.v and not (e.isclass and not first):
                return e.v[name]
            if e.execl is not None:
                r = e.execl.rget(name)
                if r is not _MISSING:
                    return r
            if e.fnlocals is not None and name in e.fnlocals and name not in e.globals_decl and name not in e.nonlocals:
                self.throw('UnboundLocalError', name)
            first = False
            if e.parent is None and e is not e.glb:
                e = e.glb
            else:
                e = e.parent
        if name in self.builtins:
            return self.builtins[name]
        self.throw('NameError', name)

    def store_name(self, name, v, env):
        if name in env.globals_decl:
            env.glb.set(name, v)
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.v and not e.isclass:
                    e.set(name, v)
                    return
                e = e.parent
            raise Unsupported('nonlocal')
        env.set(name, v)

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            self.setitem(o, self.ev_index(t.slice, env, mod), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                n = len(t.elts) - 1
                if len(vs) < n:
                    self.throw('ValueError', 'unpack')
                k = len(vs) - n
                for x, y in zip(t.elts[:i], vs[:i]):
                    self.assign(x, y, env, mod)
                self.assign(t.elts[i].value, PList(vs[i:i + k]), env, mod)
                for x, y in zip(t.elts[i + 1:], vs[i + k:]):
                    self.assign(x, y, env, mod)
                return
            if len(vs) != len(t.elts):
                self.throw('ValueError', 'unpack')
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env, mod)
        else:
            raise Unsupported('assignment target')

    # ------------------------------------------------------------- expressions
    def ev(self, e, env, mod):
        self.steps += 1
        m = getattr(self, 'e_' + e.__class__.__name__, None)
        if m is None:
            raise Unsupported('expression %s' % e.__class__.__name__)
        return m(e, env, mod)

    def e_Constant(self, e, env, mod):
        return e.value

    def e_Name(self, e, env, mod):
        return self.load_name(e.id, env)

    def e_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        self.store_name(e.target.id, v, env)
        return v

    def e_Attribute(self, e, env, mod):
        return self.getattr(self.ev(e.value, env, mod), e.attr)

    def e_Subscript(self, e, env, mod):
        o = self.ev(e.value, env, mod)
        return self.getitem(o, self.ev_index(e.slice, env, mod))

    def ev_index(self, s, env, mod):
        return self.ev(s, env, mod)

    def e_Slice(self, e, env, mod):
        f = lambda x: None if x is None else self.ev(x, env, mod)
        return ('$slice', f(e.lower), f(e.upper), f(e.step))

    def elts(self, es, env, mod):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env, mod)))
            else:
                out.append(self.ev(x, env, mod))
        return out

    def e_Tuple(self, e, env, mod):
        return tuple(self.elts(e.elts, env, mod))

    def e_List(self, e, env, mod):
        return PList(self.elts(e.elts, env, mod))

    def e_Set(self, e, env, mod):
        s = PSet()
        for v in self.elts(e.elts, env, mod):
            self.set_add(s, v)
        return s

    def e_Dict(self, e, env, mod):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.ev(v, env, mod))
            else:
                kk = self.ev(k, env, mod)
                self.dict_set(d, kk, self.ev(v, env, mod))
        return d

    def e_BinOp(self, e, env, mod):
        a = self.ev(e.left, env, mod)
        b = self.ev(e.right, env, mod)
        return self.binop(e.op.__class__.__name__, a, b)

    def e_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        op = e.op.__class__.__name__
        if op == 'Not':
            if isinstance(v, SV) and v.k == 'bool':
                return SV('bool', z3.Not(v.t))
            return not self.truth(v)
        return self.unop(op, v)

    def unop(self, op, v):
        if isinstance(v, (int, float)):
            return {'USub': lambda x: -x, 'UAdd': lambda x: +x, 'Invert': lambda x: ~x}[op](v)
        if isinstance(v, SV):
            if op == 'USub':
                if v.k == 'bool':
                    return SV('int', -intz(v))
                return SV(v.k, -v.t)
            if op == 'UAdd':
                return v
        if isinstance(v, Obj):
            m = v.cls.lookup({'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op])
            if m is not _MISSING:
                return self.call(BM(m, v), [], {})
            self.throw('TypeError', 'bad operand type for unary op')
        if isinstance(v, Host):
            return v.h_unop(self, op)
        self.throw('TypeError', 'bad operand type for unary op')

    def e_BoolOp(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.ev(x, env, mod)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, SV) else False
            if not isand and t:
                return v if not (isinstance(v, SV) and v.k == 'bool') else True
        return v

    def e_IfExp(self, e, env, mod):
        return self.ev(e.body if self.truth(self.ev(e.test, env, mod)) else e.orelse, env, mod)

    def e_Compare(self, e, env, mod):
        left = self.ev(e.left, env, mod)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env, mod)
            v = self.compare(op.__class__.__name__, left, right)
            if i == len(e.ops) - 1:
                return v
            if not self.truth(v):
                return v if not isinstance(v, SV) else False
            left = right

    def e_Call(self, e, env, mod):
        # zero-argument super / locals need the environment
        if isinstance(e.func, ast.Name) and e.func.id in ('super', 'locals', 'exec', 'eval', 'globals', 'vars', 'dir'):
            f = self.load_name(e.func.id, env)
            if isinstance(f, Native) and f.name == '$' + e.func.id:
                return self.special_call(e.func.id, e, env, mod)
        f = self.ev(e.func, env, mod)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.iterate(self.ev(x.value, env, mod)))
            elif isinstance(x, ast.GeneratorExp):
                args.append(self.gen_or_list(x, env, mod))
            else:
                args.append(self.ev(x, env, mod))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env, mod)
                if not isinstance(d, PDict):
                    raise Unsupported('** of non dict')
                if d.layers is not None:
                    kw['$star'] = d
                else:
                    for kk, vv in d.items():
                        kw[self.conc_str(kk)] = vv
            else:
                kw[k.arg] = self.ev(k.value, env, mod)
        return self.call(f, args, kw)

    def special_call(self, name, e, env, mod):
        args = [self.ev(a, env, mod) for a in e.args]
        if name == 'super':
            if args:
                return Super(args[0], args[1])
            x = env
            while x is not None and x.selfarg is _MISSING:
                x = x.parent
            if x is None:
                raise Unsupported('super() outside method')
            return Super(x.defcls.defcls[0] if isinstance(x.defcls, Env) else x.defcls[0], x.selfarg)
        if name in ('locals',) or (name == 'vars' and not args) or name == 'globals':
            if name == 'globals':
                raise Unsupported('globals()')
            d = PDict()
            for k, v in env.v.items():
                d.rset(k, v)
            return d
        if name == 'vars':
            return self.getattr(args[0], '__dict__')
        if name == 'dir':
            raise Unsupported('dir()')
        src = args[0]
        if not isinstance(src, str):
            raise Unsupported('%s of a symbolic string' % name)
        tgt = env
        while tgt is not None and tgt.fnlocals == 'comp':
            tgt = tgt.parent
        if name == 'exec':
            if len(args) > 1:
                raise Unsupported('exec with explicit namespace')
            tree = ast.parse(src)
            sub = Env(parent=env, glb=env.glb)
            sub.fn = env.fn
            sub.defcls = env.defcls
            self.exec_block(tree.body, sub, mod)
            for k, v in sub.v.items():
                if tgt.fnlocals is None and not tgt.isclass:
                    tgt.set(k, v)
                else:
                    if tgt.execl is None:
                        tgt.execl = PDict()
                    tgt.execl.rset(k, v)
            return None
        tree = ast.parse(src, mode='eval')
        return self.ev(tree.body, env, mod)

    def e_Lambda(self, e, env, mod):
        return self.make_fn(e, env, mod, name='<lambda>')

    def e_JoinedStr(self, e, env, mod):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env, mod)
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, env, mod)
                    if isinstance(x, (int, float, str)) and isinstance(spec, str):
                        parts.append(format(x, spec))
                    else:
                        parts.append(self.atom_for(('fmt', x, spec)))
                elif v.conversion == 114:
                    parts.append(self.repr_(x))
                else:
                    parts.append(self.str_(x))
        return sstr(*parts)

    def e_FormattedValue(self, e, env, mod):
        return self.str_(self.ev(e.value, env, mod))

    def comp_env(self, env):
        c = Env(parent=env, glb=env.glb, fnlocals='comp')
        c.fn = env.fn
        c.defcls = env.defcls
        c.fnlocals = None
        return c

    def e_ListComp(self, e, env, mod):
        from . import seqs
        g = seqs.comp(self, e, e.elt, self.comp_env(env), mod)
        return PList(g)

    def e_GeneratorExp(self, e, env, mod):
        return self.gen_or_list(e, env, mod)

    def gen_or_list(self, e, env, mod):
        from . import seqs
        return seqs.LazyGen(self, e, self.comp_env(env), mod)

    def e_SetComp(self, e, env, mod):
        from . import seqs
        g = seqs.comp(self, e, e.elt, self.comp_env(env), mod)
        if not isinstance(g, list):
            return PSet(g)
        s = PSet()
        for x in g:
            self.set_add(s, x)
        return s

    def e_DictComp(self, e, env, mod):
        from . import seqs
        g = seqs.comp(self, e, (e.key, e.value), self.comp_env(env), mod)
        d = PDict()
        if not isinstance(g, list):
            seqs.update_from_pairs(self, d, g)
            return d
        for k, v in g:
            self.dict_set(d, k, v)
        return d

    def e_Starred(self, e, env, mod):
        raise Unsupported('starred expression')

    def e_Yield(self, e, env, mod):
        if '$yield' not in env.v:
            raise Unsupported('yield')
        env.v['$yield'].append(self.ev(e.value, env, mod) if e.value is not None else None)
        return None

    def e_YieldFrom(self, e, env, mod):
        env.v['$yield'].extend(self.iterate(self.ev(e.value, env, mod)))
        return None

    # ------------------------------------------------------------- truth / equality
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, tuple)):
            return bool(v)
        if isinstance(v, SV):
            if v.k == 'bool':
                return self.branch(v.t)
            return self.branch(v.t != 0)
        if isinstance(v, SStr):
            return self.branch(str2z(v) != z3.StringVal(''))
        if isinstance(v, PList):
            if not isinstance(v.items, list):
                return self.branch(v.items.length(self) > 0)
            return len(v.items) > 0
        if isinstance(v, PSet):
            if not isinstance(v.items, list):
                return self.branch(v.items.length(self) > 0)
            return len(v.items) > 0
        if isinstance(v, PDict):
            if v.layers is not None:
                return not self.dict_empty(v)
            return len(v.d) > 0
        if isinstance(v, Obj):
            m = v.cls.lookup('__bool__')
            if m is not _MISSING:
                return self.truth(self.call(BM(m, v), [], {}))
            m = v.cls.lookup('__len__')
            if m is not _MISSING:
                return self.truth(self.call(BM(m, v), [], {}))
            return True
        if isinstance(v, Host):
            r = v.h_truth(self)
            return r if isinstance(r, bool) else self.branch(r)
        return True

    def dict_empty(self, d):
        """python bool (branches)"""
        from . import seqs
        if d.layers is None:
            return len(d.d) == 0
        return seqs.layered_empty(self, d)

    def eqf(self, a, b):
        """Python == as bool or z3 Bool formula (or, for user __eq__, its truth)."""
        r = self.compare('Eq', a, b)
        if isinstance(r, bool):
            return r
        if isinstance(r, SV) and r.k == 'bool':
            return r.t
        return self.truth(r)

    def identical(self, a, b):
        """Python `is` (bool or z3 formula).  Literals of immutable types are interned by CPython."""
        if a is b:
            return True
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, SV) and a.k == 'bool':
                return a.t == boolz(b) if isinstance(b, bool) else False
            if isinstance(b, SV) and b.k == 'bool':
                return b.t == boolz(a) if isinstance(a, bool) else False
            return isinstance(a, bool) and isinstance(b, bool) and a == b
        if a is None or b is None:
            return False
        if is_str(a) and is_str(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return self.str_eq(a, b)
        if isinstance(a, (int, SV)) and isinstance(b, (int, SV)) and kind(a) == kind(b) == 'int':
            r = intz(a) == intz(b)
            r = z3.simplify(r)
            return True if z3.is_true(r) else False if z3.is_false(r) else r
        if isinstance(a, Host) and hasattr(a, 'h_ident'):
            return a.h_ident(self, b)
        if isinstance(b, Host) and hasattr(b, 'h_ident'):
            return b.h_ident(self, a)
        if isinstance(a, BM) and isinstance(b, BM):
            return False
        return False

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if a == b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(y, str) and isinstance(x, SStr) and len(x.parts) == 1 and z3.is_app(x.parts[0]) and y in V.NOT_AMONG.get(x.parts[0].decl().name(), ()):
                return False
        pa = list(a.parts) if isinstance(a, SStr) else [a]
        pb = list(b.parts) if isinstance(b, SStr) else [b]
        # strip common prefix / suffix
        def same(x, y):
            return x == y if isinstance(x, str) and isinstance(y, str) else (
                not isinstance(x, str) and not isinstance(y, str) and x.eq(y))
        while pa and pb:
            if same(pa[0], pb[0]):
                pa.pop(0), pb.pop(0)
            elif isinstance(pa[0], str) and isinstance(pb[0], str):
                x, y = pa[0], pb[0]
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                pa[0], pb[0] = x[n:], y[n:]
                if not pa[0]:
                    pa.pop(0)
                if not pb[0]:
                    pb.pop(0)
            else:
                break
        while pa and pb:
            if same(pa[-1], pb[-1]):
                pa.pop(), pb.pop()
            elif isinstance(pa[-1], str) and isinstance(pb[-1], str):
                x, y = pa[-1], pb[-1]
                n = min(len(x), len(y))
                if x[-n:] != y[-n:]:
                    return False
                pa[-1], pb[-1] = x[:-n], y[:-n]
                if not pa[-1]:
                    pa.pop()
                if not pb[-1]:
                    pb.pop()
            else:
                break
        if not pa and not pb:
            return True
        if not pa or not pb:
            r = pa or pb
            if any(isinstance(x, str) for x in r):
                return False
            f = z3.And(*[x == z3.StringVal('') for x in r])
            return f
        A, B = sstr(*pa), sstr(*pb)
        return str2z(A) == str2z(B)

    def compare(self, op, a, b):
        if op == 'Is':
            r = self.identical(a, b)
            return r if isinstance(r, bool) else SV('bool', r)
        if op == 'IsNot':
            r = self.identical(a, b)
            return (not r) if isinstance(r, bool) else SV('bool', z3.Not(r))
        if op == 'In':
            r = self.contains(b, a)
            return r if isinstance(r, bool) else SV('bool', r)
        if op == 'NotIn':
            r = self.contains(b, a)
            return (not r) if isinstance(r, bool) else SV('bool', z3.Not(r))
        if op in ('Eq', 'NotEq'):
            r = self.rich_eq(a, b, op)
            return r
        # ordering
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if is_num(a) and is_num(b):
            if kind(a) in ('int', 'bool') and kind(b) in ('int', 'bool'):
                x, y = intz(a), intz(b)
            else:
                x, y = real(a), real(b)
            return SV('bool', z3.simplify({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]))
        dn = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}
        rn = {'Lt': '__gt__', 'LtE': '__ge__', 'Gt': '__lt__', 'GtE': '__le__'}
        if isinstance(a, Obj):
            m = a.cls.lookup(dn[op])
            if m is not _MISSING:
                return self.call(BM(m, a), [b], {})
        if isinstance(b, Obj):
            m = b.cls.lookup(rn[op])
            if m is not _MISSING:
                return self.call(BM(m, b), [a], {})
        if isinstance(a, Host) and hasattr(a, 'h_cmp'):
            return a.h_cmp(self, op, b)
        if isinstance(b, Host) and hasattr(b, 'h_cmp'):
            return b.h_cmp(self, {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE'}[op], a)
        if is_str(a) and is_str(b):
            # an arbitrary total order (the alphabetical one is one of them)
            x, y = str2z(a), str2z(b)
            self.define(z3.Implies(RANK(x) == RANK(y), x == y))
            r, q = RANK(x), RANK(y)
            return SV('bool', {'Lt': r < q, 'LtE': r <= q, 'Gt': r > q, 'GtE': r >= q}[op])
        from . import seqs
        if isinstance(a, (PList, PSet, Host, seqs.DView)) or isinstance(b, (PList, PSet, Host, seqs.DView)):
            raise Unsupported('ordering of %r and %r' % (a, b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            raise Unsupported('tuple ordering')
        self.throw('TypeError', "'<' not supported")

    def rich_eq(self, a, b, op='Eq'):
        def neg(r):
            if op == 'Eq':
                return r if isinstance(r, (bool, SV)) else SV('bool', r)
            if isinstance(r, bool):
                return not r
            if isinstance(r, SV):
                return SV('bool', z3.Not(r.t))
            return SV('bool', z3.Not(r))
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    if op == 'NotEq':
                        m = x.cls.lookup('__ne__')
                        if m is not _MISSING:
                            return self.call(BM(m, x), [y], {})
                    m = x.cls.lookup('__eq__')
                    if m is not _MISSING:
                        r = self.call(BM(m, x), [y], {})
                        if op == 'NotEq':
                            return not self.truth(r)
                        return r
            if isinstance(a, Host) and hasattr(a, 'h_objeq'):
                return neg(a.h_objeq(self, b))
            if isinstance(b, Host) and hasattr(b, 'h_objeq'):
                return neg(b.h_objeq(self, a))
            return neg(a is b)
        if isinstance(a, Host):
            return neg(a.h_eq(self, b))
        if isinstance(b, Host):
            return neg(b.h_eq(self, a))
        if a is None or b is None:
            return neg(a is None and b is None)
        if is_str(a) and is_str(b):
            return neg(self.str_eq(a, b))
        if is_num(a) and is_num(b):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return neg(a == b)
            if kind(a) == 'bool' and kind(b) == 'bool':
                return neg(z3.simplify(boolz(a) == boolz(b)))
            if kind(a) in ('int', 'bool') and kind(b) in ('int', 'bool'):
                return neg(z3.simplify(intz(a) == intz(b)))
            return neg(z3.simplify(real(a) == real(b)))
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, PList) and isinstance(b, PList):
            x = a if isinstance(a, tuple) else a.items
            y = b if isinstance(b, tuple) else b.items
            if not isinstance(x, (list, tuple)) or not isinstance(y, (list, tuple)):
                if isinstance(x, (list, tuple)) and len(x) == 0:
                    return neg(y.length(self) == 0)
                if isinstance(y, (list, tuple)) and len(y) == 0:
                    return neg(x.length(self) == 0)
                raise Unsupported('equality of sequences of unknown length')
            if len(x) != len(y):
                return neg(False)
            fs = []
            for p, q in zip(x, y):
                if p is q:
                    continue
                r = self.eqf(p, q)
                if r is False:
                    return neg(False)
                if r is not True:
                    fs.append(r)
            if not fs:
                return neg(True)
            return neg(z3.And(*fs))
        if isinstance(a, PDict) and isinstance(b, PDict):
            if a.layers is not None or b.layers is not None:
                x, y = (a, b) if a.layers is not None else (b, a)
                if y.layers is None and len(y.d) == 0:
                    return neg(self.dict_empty(x))
                raise Unsupported('equality of dicts of unknown content')
            if len(a.d) != len(b.d):
                if a.nsym or b.nsym:
                    pass
                return neg(False)
            for k, v in a.items():
                w = self.dict_get(b, k)
                if w is _MISSING:
                    return neg(False)
                if v is not w and not (self.branch(r) if not isinstance((r := self.eqf(v, w)), bool) else r):
                    return neg(False)
            return neg(True)
        from . import seqs
        if isinstance(a, seqs.DView) or isinstance(b, seqs.DView):
            return neg(a is b or seqs.views_equal(self, a, b))
        if isinstance(a, PSet) and isinstance(b, PSet):
            if not isinstance(a.items, (list, tuple)) or not isinstance(b.items, (list, tuple)):
                raise Unsupported('equality of sets of unknown content')
            if len(a.items) != len(b.items):
                return neg(False)
            return neg(all(self.truth_f(self.contains(b, x)) for x in a.items))
        if isinstance(a, BM) and isinstance(b, BM):
            return neg(a.fn is b.fn and a.self_ is b.self_)
        return neg(a is b)

    def truth_f(self, r):
        return r if isinstance(r, bool) else self.branch(r)

    def contains(self, c, x):
        """bool or z3 formula"""
        if isinstance(c, PDict):
            if c.layers is None and c.nsym == 0 and not isinstance(x, (SStr, SV)):
                return c.rget(x) is not _MISSING
            from . import seqs
            if c.layers is not None:
                return seqs.layered_dom(self, c, x)
            fs = []
            for k in c.keys():
                r = self.eqf(k, x)
                if r is True:
                    return True
                if r is not False:
                    fs.append(r)
            return z3.Or(*fs) if fs else False
        if isinstance(c, (PList, tuple, PSet)):
            items = c if isinstance(c, tuple) else c.items
            if not isinstance(items, (list, tuple)):
                return items.member(self, x)
            fs = []
            for k in items:
                if k is x:
                    return True
                r = self.identical(k, x)
                if r is True:
                    return True
                r2 = self.eqf(k, x)
                if r2 is True:
                    return True
                if r is not False:
                    fs.append(r)
                if r2 is not False:
                    fs.append(r2)
            return z3.Or(*fs) if fs else False
        if is_str(c):
            if not is_str(x):
                self.throw('TypeError', 'in <string> requires string')
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if isinstance(x, str) and any(isinstance(p, str) and x in p for p in c.parts):
                return True
            if isinstance(c, SStr) and isinstance(x, SStr):
                n = len(x.parts)
                if any(c.parts[i:i + n] == x.parts for i in range(len(c.parts))):
                    return True
            return z3.Contains(str2z(c), str2z(x))
        if isinstance(c, Obj):
            m = c.cls.lookup('__contains__')
            if m is not _MISSING:
                return self.truth(self.call(BM(m, c), [x], {}))
        from . import seqs
        if isinstance(c, seqs.DView):
            return c.contains(self, x)
        if isinstance(c, seqs.LazyGen):
            return self.contains(PList(c.force(self)), x)
        if isinstance(c, Host):
            return c.h_contains(self, x)
        for y in self.iterate(c):
            r = self.eqf(y, x)
            if self.truth_f(r):
                return True
        return False

    # ------------------------------------------------------------- dict operations
    def check_hashable(self, k):
        if isinstance(k, (PList, PDict, PSet)):
            self.throw('TypeError', 'unhashable type')

    def dict_find(self, d, k):
        """Resolve k to a stored key of a dict without symbolic layers, or MISSING."""
        self.check_hashable(k)
        hk = hkey(k)
        if hk in d.d:
            return d.d[hk][0]
        sym = isinstance(k, (SStr, SV)) or isinstance(k, Host) or isinstance(k, tuple)
        if d.nsym == 0 and not sym:
            return _MISSING
        for k2, _ in list(d.d.values()):
            if not sym and not isinstance(k2, (SStr, SV)):
                continue
            if isinstance(k, Host) and not hasattr(k, 'h_symkey') and k is not k2 and isinstance(k2, Host):
                if not self.truth_f(k.h_eq(self, k2)):
                    continue
                return k2
            r = self.eqf(k, k2)
            if self.truth_f(r):
                return k2
        return _MISSING

    def dict_get(self, d, k):
        if d.layers is not None:
            from . import seqs
            return seqs.layered_get(self, d, k)
        k2 = self.dict_find(d, k)
        if k2 is _MISSING:
            return _MISSING
        return d.rget(k2)

    def dict_set(self, d, k, v):
        self.check_hashable(k)
        if d.layers is not None:
            d.save()
            d.layers.append(('kv', k, v))
            return
        k2 = self.dict_find(d, k)
        d.rset(k if k2 is _MISSING else k2, v)

    def dict_del(self, d, k):
        if d.layers is not None:
            if self.dict_get(d, k) is _MISSING:
                self.throw('KeyError', k)
            d.save()
            d.layers.append(('del', k))
            return
        k2 = self.dict_find(d, k)
        if k2 is _MISSING:
            self.throw('KeyError', k)
        d.rdel(k2)

    def to_layers(self, d):
        if d.layers is None:
            d.save()
            d.layers = [('kv', k, v) for k, v in d.d.values()]
            d.d = {}
            d.nsym = 0

    def dict_update(self, d, o):
        if isinstance(o, Obj):
            raise Unsupported('update from object')
        if isinstance(o, PDict):
            if o.layers is not None:
                self.to_layers(d)
                d.save()
                d.layers.extend(o.layers)
                return
            for k, v in o.items():
                self.dict_set(d, k, v)
            return
        if isinstance(o, Host):
            raise Unsupported('update from %s' % o.hname)
        from . import seqs
        g = seqs.as_generic(self, o)
        if g is not None:
            seqs.update_from_pairs(self, d, g)
            return
        for p in self.iterate(o):
            kv = list(self.iterate(p))
            if len(kv) != 2:
                self.throw('ValueError', 'dictionary update sequence')
            self.dict_set(d, kv[0], kv[1])

    def set_add(self, s, v):
        self.check_hashable(v)
        if not isinstance(s.items, list):
            raise Unsupported('add to symbolic set')
        if self.truth_f(self.contains(s, v)):
            return
        s.save()
        s.items.append(v)

    # ------------------------------------------------------------- attributes
    def type_of(self, v):
        if isinstance(v, bool):
            return T['bool']
        if isinstance(v, int):
            return T['int']
        if isinstance(v, float):
            return T['float']
        if is_str(v):
            return T['str']
        if isinstance(v, SV):
            return T[v.k]
        if v is None:
            return T['NoneType']
        if isinstance(v, tuple):
            return T['tuple']
        if isinstance(v, PList):
            return T['list']
        if isinstance(v, PDict):
            return T['OrderedDict'] if v.ordered else T['dict']
        if isinstance(v, PSet):
            return T['set']
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, (Fn, Native)):
            return T['function']
        if isinstance(v, BM):
            return T['method']
        if isinstance(v, (Cls, BType)):
            return T['type']
        if isinstance(v, Host) and hasattr(v, 'h_type'):
            return v.h_type(self)
        raise Unsupported('type() of %r' % (v,))

    def isinstance_(self, v, t):
        if isinstance(t, tuple):
            return any(self.isinstance_(v, x) for x in t)
        if isinstance(v, Host) and not isinstance(v, BType):
            r = v.h_isinstance(self, t)
            return r if isinstance(r, bool) else self.branch(r)
        if t is OBJECT:
            return True
        if isinstance(t, Cls):
            return isinstance(v, Obj) and t in v.cls.mro
        if isinstance(t, BType):
            if isinstance(v, Obj):
                return False
            tv = self.type_of(v)
            return isinstance(tv, BType) and tv.isub(t)
        if isinstance(t, Host):
            if hasattr(t, 'h_instancecheck'):
                return t.h_instancecheck(self, v)
            return False
        self.throw('TypeError', 'isinstance() arg 2 must be a type')

    def hasattr_(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except PyRaise as e:
            if EXC['AttributeError'] in e.exc.cls.mro:
                return False
            raise

    def bind(self, v, o, cls):
        if isinstance(v, (Fn, Native)):
            return BM(v, o)
        if isinstance(v, Prop):
            if v.kind == 'property':
                return self.call(v.f, [o], {})
            if v.kind == 'static':
                return v.f
            return BM(v.f, cls)
        return v

    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.d
            cv = o.cls.lookup(name)
            if isinstance(cv, Prop) and cv.kind == 'property':
                return self.call(cv.f, [o], {})
            r = o.d.rget(name) if o.d.layers is None and o.d.nsym == 0 else self.dict_get(o.d, name)
            if r is not _MISSING:
                return r
            if cv is not _MISSING:
                return self.bind(cv, o, o.cls)
            if name == '__doc__':
                return None
            if name == '__module__':
                return o.cls.module
            if EXC['BaseException'] in o.cls.mro and name == 'args':
                return ()
            m = o.cls.lookup('__getattr__')
            if m is not _MISSING:
                return self.call(BM(m, o), [name], {})
            if name in ('__init__', '__str__', '__repr__', '__eq__', '__hash__', '__ne__', '__setattr__', '__getattribute__'):
                r = self.bm.object_method(self, o, name)
                if r is not None:
                    return r
            self.throw('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name))
        if isinstance(o, PyMod):
            if name in o.glb.v:
                return o.glb.v[name]
            if name == '__name__':
                return o.name
            self.throw('AttributeError', name)
        if isinstance(o, Cls):
            r = o.lookup(name)
            if r is not _MISSING:
                if isinstance(r, Prop):
                    if r.kind == 'static':
                        return r.f
                    if r.kind == 'class':
                        return BM(r.f, o)
                return r
            if name == '__name__' or name == '__qualname__':
                return o.name
            if name == '__mro__':
                return tuple(o.mro)
            if name == '__module__':
                return o.module
            if name == '__dict__':
                d = PDict()
                for k, v in o.ns.items():
                    d.rset(k, v)
                return d
            if name == '__doc__':
                return None
            if name == '__init__':
                return Native('object.__init__', lambda I, a, k: None)
            if name == '__new__':
                return Native('object.__new__', lambda I, a, k: Obj(a[0]))
            self.throw('AttributeError', name)
        if isinstance(o, Super):
            mro = o.obj.cls.mro if isinstance(o.obj, Obj) else o.obj.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    return self.bind(c.ns[name], o.obj, o.obj.cls)
            if name == '__init__':
                return Native('object.__init__', lambda I, a, k: None)
            self.throw('AttributeError', 'super has no ' + name)
        if isinstance(o, Fn):
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__doc__':
                return None
            if name in o.attrs:
                return o.attrs[name]
            self.throw('AttributeError', name)
        if isinstance(o, BM):
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.fn
            return self.getattr(o.fn, name)
        if isinstance(o, Native):
            if name in ('__name__',):
                return o.name
            self.throw('AttributeError', name)
        if isinstance(o, BType):
            if name in ('__name__', '__qualname__'):
                return o.name
            return self.bm.type_attr(self, o, name)
        if isinstance(o, Host):
            return o.h_getattr(self, name)
        return self.bm.method(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            cv = o.cls.lookup(name)
            if isinstance(cv, Prop) and cv.kind == 'property':
                if cv.setter is None:
                    self.throw('AttributeError', "can't set attribute")
                self.call(cv.setter, [o, v], {})
                return
            m = o.cls.lookup('__setattr__')
            if m is not _MISSING:
                self.call(BM(m, o), [name, v], {})
                return
            if name == '__class__':
                old = o.cls

                def u():
                    o.cls = old
                J.rec(o, u)
                o.cls = v
                return
            if name == '__dict__':
                oldd = o.d

                def u2():
                    o.d = oldd
                J.rec(o, u2)
                o.d = v
                return
            if o.d.layers is None and o.d.nsym == 0:
                o.d.rset(name, v)
            else:
                self.dict_set(o.d, name, v)
            return
        if isinstance(o, Cls):
            o.setns(name, v)
            return
        if isinstance(o, PyMod):
            o.glb.set(name, v)
            return
        if isinstance(o, Host):
            o.h_setattr(self, name, v)
            return
        if isinstance(o, Fn):
            old = o.attrs.get(name, _MISSING)

            def u3():
                if old is _MISSING:
                    o.attrs.pop(name, None)
                else:
                    o.attrs[name] = old
            J.log.append(u3)
            o.attrs[name] = v
            return
        self.throw('AttributeError', 'cannot set attribute %s' % name)

    def delattr(self, o, name):
        if isinstance(o, Obj):
            if o.d.rget(name) is _MISSING:
                self.throw('AttributeError', name)
            o.d.rdel(name)
            return
        raise Unsupported('delattr')

    # ------------------------------------------------------------- calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, BM):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Fn):
            return self.call_fn(f, list(args), kw)
        if isinstance(f, Native):
            return f.f(self, list(args), kw)
        if isinstance(f, Cls):
            return self.instantiate(f, list(args), kw)
        if isinstance(f, Obj):
            m = f.cls.lookup('__call__')
            if m is _MISSING:
                self.throw('TypeError', "'%s' object is not callable" % f.cls.name)
            return self.call(self.bind(m, f, f.cls), list(args), kw)
        if isinstance(f, BType):
            return self.bm.call_type(self, f, list(args), kw)
        if isinstance(f, Prop) and f.kind == 'static':
            return self.call(f.f, args, kw)
        if isinstance(f, Host):
            return f.h_call(self, list(args), kw)
        self.throw('TypeError', 'object is not callable')

    def instantiate(self, c, args, kw):
        if c is OBJECT:
            return Obj(OBJECT)
        nw = c.lookup('__new__')
        if nw is not _MISSING:
            o = self.call(nw if not isinstance(nw, Prop) else nw.f, [c] + args, kw)
            if not (isinstance(o, Obj) and c in o.cls.mro):
                return o
        else:
            o = Obj(c)
        ini = c.lookup('__init__')
        if ini is not _MISSING:
            if EXC['BaseException'] in c.mro:
                o.d.rset('args', tuple(args))
            self.call(BM(ini, o), args, kw)
        elif EXC['BaseException'] in c.mro:
            o.d.rset('args', tuple(args))
        elif args or kw:
            self.throw('TypeError', '%s() takes no arguments' % c.name)
        return o

    def fninfo(self, f):
        if f.info is None:
            node = f.node
            names = set()
            gl, nl = set(), set()
            isgen = [False]

            def tgt(t):
                if isinstance(t, ast.Name):
                    names.add(t.id)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for x in t.elts:
                        tgt(x)
                elif isinstance(t, ast.Starred):
                    tgt(t.value)

            def walk(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        names.add(c.name)
                        continue
                    if isinstance(c, (ast.Lambda,)):
                        continue
                    if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        # only walrus targets leak; the first iterable is evaluated outside
                        for s in ast.walk(c):
                            if isinstance(s, ast.NamedExpr):
                                names.add(s.target.id)
                        continue
                    if isinstance(c, ast.Assign):
                        for t in c.targets:
                            tgt(t)
                    elif isinstance(c, (ast.AugAssign, ast.AnnAssign, ast.For)):
                        tgt(c.target)
                    elif isinstance(c, ast.NamedExpr):
                        tgt(c.target)
                    elif isinstance(c, ast.withitem) and c.optional_vars is not None:
                        tgt(c.optional_vars)
                    elif isinstance(c, ast.ExceptHandler) and c.name:
                        names.add(c.name)
                    elif isinstance(c, (ast.Import, ast.ImportFrom)):
                        for a in c.names:
                            names.add((a.asname or a.name).split('.')[0])
                    elif isinstance(c, ast.Global):
                        gl.update(c.names)
                    elif isinstance(c, ast.Nonlocal):
                        nl.update(c.names)
                    elif isinstance(c, (ast.Yield, ast.YieldFrom)):
                        isgen[0] = True
                    walk(c)
            if not isinstance(node, ast.Lambda):
                for st in node.body:
                    w = ast.Module(body=[st], type_ignores=[])
                    walk(w)
            a = node.args
            params = [x.arg for x in a.posonlyargs + a.args]
            allp = set(params) | {x.arg for x in a.kwonlyargs}
            if a.vararg:
                allp.add(a.vararg.arg)
            if a.kwarg:
                allp.add(a.kwarg.arg)
            f.info = (params, frozenset((names | allp) - gl - nl), isgen[0])
        return f.info

    def bind_args(self, f, args, kw, env):
        a = f.node.args
        params, locs, _ = self.fninfo(f)
        v = env.v
        npos = len(params)
        if len(args) > npos and not a.vararg:
            self.throw('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, npos, len(args)))
        for p, x in zip(params, args):
            v[p] = x
        if a.vararg:
            v[a.vararg.arg] = tuple(args[npos:])
        extra = PDict()
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, x in kw.items():
            if k in params or k in kwonly:
                if k in v:
                    self.throw('TypeError', '%s() got multiple values for argument %s' % (f.name, k))
                v[k] = x
            elif a.kwarg:
                extra.rset(k, x)
            else:
                if k == '$star':
                    raise Unsupported('** of unknown dict')
                self.throw('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, k))
        if a.kwarg:
            v[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in v:
                j = i - (npos - nd)
                if j >= 0:
                    v[p] = f.defaults[j]
                else:
                    self.throw('TypeError', '%s() missing argument %s' % (f.name, p))
        for p, d, dn in zip(kwonly, f.kwdefaults, a.kw_defaults):
            if p not in v:
                if dn is None:
                    self.throw('TypeError', '%s() missing keyword argument %s' % (f.name, p))
                v[p] = d

    def call_fn(self, f, args, kw):
        key = f.mod.name + ':' + f.qual
        self.entered[key] = self.entered.get(key, 0) + 1
        c = self.contracts.get(key)
        if c is not None and key not in self.contract_off:
            r = c(self, f, args, kw)
            if r is not NotImplemented:
                self.used_contracts[key] = self.used_contracts.get(key, 0) + 1
                return r
        params, locs, isgen = self.fninfo(f)
        env = Env(parent=f.env if not f.env.isclass else f.env.parent, glb=f.glb, fnlocals=locs)
        env.fn = f.qual
        dc = f.defcls
        env.defcls = dc
        self.bind_args(f, args, kw, env)
        if dc is not None and params and isinstance(dc, Env):
            env.selfarg = env.v.get(params[0], _MISSING)
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            self.depth -= 1
            raise Unsupported('recursion depth')
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env, f.mod)
            if isgen:
                env.v['$yield'] = []
            try:
                self.exec_block(f.node.body, env, f.mod)
                r = None
            except _Ret as e:
                r = e.v
            if isgen:
                return SlotIter(env.v['$yield'])
            return r
        finally:
            self.depth -= 1

    # ------------------------------------------------------------- iteration
    def iterate(self, v):
        """Iterate a value of known length; returns a host iterable of values."""
        from . import seqs
        if isinstance(v, tuple):
            if v and isinstance(v[0], str) and v[0] == '$slice':
                raise Unsupported('iterate slice')
            return list(v)
        if isinstance(v, PList):
            if not isinstance(v.items, list):
                c = v.items.concrete(self)
                if c is None:
                    raise Unsupported('iteration over a sequence of unknown length')
                return c
            return self._live(v)
        if isinstance(v, PSet):
            return list(v.items)
        if isinstance(v, PDict):
            return v.keys()
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SStr):
            raise Unsupported('iterate a symbolic string')
        if isinstance(v, SlotIter):
            return self._slot(v)
        if isinstance(v, seqs.LazyGen):
            return v.run()
        if isinstance(v, seqs.DView):
            return v.conc(self)
        if isinstance(v, Obj):
            m = v.cls.lookup('__iter__')
            if m is not _MISSING:
                return self._iterobj(self.call(BM(m, v), [], {}))
            if v.cls.lookup('__getitem__') is not _MISSING:
                raise Unsupported('legacy iteration')
            self.throw('TypeError', 'object is not iterable')
        if isinstance(v, Host):
            return v.h_iter(self)
        self.throw('TypeError', 'object is not iterable')

    def _iterobj(self, it):
        if isinstance(it, Obj):
            raise Unsupported('user iterator')
        return self.iterate(it)

    def _live(self, pl):
        i = 0
        while True:
            if not isinstance(pl.items, list):
                raise Unsupported('list changed shape during iteration')
            if i >= len(pl.items):
                return
            yield pl.items[i]
            i += 1
            if i > 5000:
                raise Unsupported('iteration limit')

    def _slot(self, s):
        while s.pos < len(s.items):
            old = s.pos

            def u(old=old):
                s.pos = old
            J.log.append(u)
            s.pos += 1
            yield s.items[old]

    # ------------------------------------------------------------- indexing
    def conc_str(self, s):
        if isinstance(s, str):
            return s
        raise Unsupported('symbolic string where a literal is needed')

    def conc_int(self, i):
        if isinstance(i, bool):
            return int(i)
        if isinstance(i, int):
            return i
        if isinstance(i, SV) and i.k == 'int':
            t = z3.simplify(i.t)
            if z3.is_int_value(t):
                return t.as_long()
            raise Unsupported('symbolic index')
        if isinstance(i, Obj):
            m = i.cls.lookup('__index__')
            if m is not _MISSING:
                return self.conc_int(self.call(BM(m, i), [], {}))
        self.throw('TypeError', 'indices must be integers')

    def getitem(self, o, k):
        if isinstance(o, PDict):
            r = self.dict_get(o, k)
            if r is _MISSING:
                if o.default_factory is not None:
                    v = self.call(o.default_factory, [], {})
                    self.dict_set(o, k, v)
                    return v
                self.throw('KeyError', k)
            return r
        if isinstance(o, (PList, tuple)):
            items = o if isinstance(o, tuple) else o.items
            if isinstance(k, tuple) and len(k) == 4 and k[0] == '$slice':
                if not isinstance(items, (list, tuple)):
                    raise Unsupported('slice of symbolic sequence')
                sl = slice(*[None if x is None else self.conc_int(x) for x in k[1:]])
                r = items[sl]
                return r if isinstance(o, tuple) else PList(list(r))
            if not isinstance(items, (list, tuple)):
                return items.index(self, k)
            if isinstance(k, tuple) or isinstance(k, str) or isinstance(k, float) or k is None:
                self.throw('TypeError', 'indices must be integers')
            i = self.conc_int(k)
            if i < -len(items) or i >= len(items):
                self.throw('IndexError', 'index out of range')
            return items[i]
        if is_str(o):
            return self.bm.str_index(self, o, k)
        if isinstance(o, Obj):
            m = o.cls.lookup('__getitem__')
            if m is _MISSING:
                self.throw('TypeError', 'object is not subscriptable')
            return self.call(BM(m, o), [k], {})
        if isinstance(o, Host):
            return o.h_getitem(self, k)
        self.throw('TypeError', 'object is not subscriptable')

    def setitem(self, o, k, v):
        if isinstance(o, PDict):
            self.dict_set(o, k, v)
        elif isinstance(o, PList):
            if not isinstance(o.items, list):
                raise Unsupported('store into symbolic sequence')
            o.save()
            if isinstance(k, tuple) and len(k) == 4 and k[0] == '$slice':
                o.items[slice(*[None if x is None else self.conc_int(x) for x in k[1:]])] = list(self.iterate(v))
                return
            i = self.conc_int(k)
            if i < -len(o.items) or i >= len(o.items):
                self.throw('IndexError', 'assignment index out of range')
            o.items[i] = v
        elif isinstance(o, Obj):
            m = o.cls.lookup('__setitem__')
            if m is _MISSING:
                self.throw('TypeError', 'object does not support item assignment')
            self.call(BM(m, o), [k, v], {})
        elif isinstance(o, Host):
            o.h_setitem(self, k, v)
        else:
            self.throw('TypeError', 'object does not support item assignment')

    def delitem(self, o, k):
        if isinstance(o, PDict):
            self.dict_del(o, k)
        elif isinstance(o, PList) and isinstance(o.items, list):
            o.save()
            i = self.conc_int(k)
            if i < -len(o.items) or i >= len(o.items):
                self.throw('IndexError', 'index')
            del o.items[i]
        else:
            raise Unsupported('del item')

    # ------------------------------------------------------------- arithmetic
    DUN = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'Pow': '__pow__',
           'FloorDiv': '__floordiv__', 'Mod': '__mod__', 'BitAnd': '__and__', 'BitOr': '__or__', 'BitXor': '__xor__',
           'MatMult': '__matmul__', 'LShift': '__lshift__', 'RShift': '__rshift__'}

    def binop(self, op, a, b, inplace=False):
        if inplace:
            if op == 'Add' and isinstance(a, PList):
                from . import seqs
                if isinstance(b, PList) and not isinstance(b.items, list) or not isinstance(a.items, list):
                    a.save()
                    a.items = seqs.concat(self, a.items, seqs.items_of(self, b))
                    return a
                a.save()
                a.items.extend(list(self.iterate(b)))
                return a
            if isinstance(a, Obj):
                m = a.cls.lookup(self.DUN[op].replace('__', '__i', 1))
                if m is not _MISSING:
                    return self.call(BM(m, a), [b], {})
            if isinstance(a, PSet) and op == 'BitOr':
                for x in self.iterate(b):
                    self.set_add(a, x)
                return a
            if isinstance(a, PDict) and op == 'BitOr':
                self.dict_update(a, b)
                return a
        if is_num(a) and is_num(b):
            return self.numop(op, a, b)
        if isinstance(a, Obj):
            n = self.DUN[op]
            m = a.cls.lookup(n)
            # a subclass on the right with its own reflected method goes first
            if isinstance(b, Obj) and b.cls is not a.cls and a.cls in b.cls.mro:
                rm = b.cls.lookup(n.replace('__', '__r', 1))
                am = a.cls.lookup(n.replace('__', '__r', 1))
                if rm is not _MISSING and rm is not am:
                    r = self.call(BM(rm, b), [a], {})
                    if r is not NOTIMPL:
                        return r
            if m is not _MISSING:
                r = self.call(BM(m, a), [b], {})
                if r is not NOTIMPL:
                    return r
            elif isinstance(b, Host):
                r = b.h_binop(self, op, a, True)
                if r is not _MISSING:
                    return r
        elif isinstance(a, Host):
            if isinstance(b, Obj) and b.cls.lookup(self.DUN[op].replace('__', '__r', 1)) is not _MISSING and getattr(a, 'h_defer', False):
                pass
            else:
                r = a.h_binop(self, op, b, False)
                if r is not _MISSING:
                    return r
        if isinstance(b, Obj) and not (isinstance(a, Obj) and a.cls is b.cls):
            m = b.cls.lookup(self.DUN[op].replace('__', '__r', 1))
            if m is not _MISSING:
                r = self.call(BM(m, b), [a], {})
                if r is not NOTIMPL:
                    return r
        if isinstance(b, Host) and not isinstance(a, Obj):
            r = b.h_binop(self, op, a, True)
            if r is not _MISSING:
                return r
        return self.bm.seqop(self, op, a, b)

    def numop(self, op, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                r = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b,
                     'Pow': lambda: a ** b, 'FloorDiv': lambda: a // b, 'Mod': lambda: a % b,
                     'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b,
                     'LShift': lambda: a << b, 'RShift': lambda: a >> b}[op]()
            except ZeroDivisionError:
                self.throw('ZeroDivisionError')
            except TypeError:
                self.throw('TypeError')
            except (OverflowError, KeyError):
                raise Unsupported('arithmetic')
            if isinstance(r, complex):
                raise Unsupported('complex arithmetic')
            return r
        ints = kind(a) in ('int', 'bool') and kind(b) in ('int', 'bool')
        if op in ('Add', 'Sub', 'Mult'):
            if ints:
                x, y = intz(a), intz(b)
                k = 'int'
            else:
                x, y = real(a), real(b)
                k = 'float'
            t = x + y if op == 'Add' else x - y if op == 'Sub' else x * y
            return SV(k, z3.simplify(t))
        if op == 'Div':
            y = real(b)
            if self.branch(y == 0):
                self.throw('ZeroDivisionError')
            return SV('float', z3.simplify(real(a) / y))
        if op == 'Pow':
            return self.numpow(a, b, ints)
        if op in ('BitAnd', 'BitOr') and kind(a) == 'bool' and kind(b) == 'bool':
            return SV('bool', z3.And(boolz(a), boolz(b)) if op == 'BitAnd' else z3.Or(boolz(a), boolz(b)))
        if op in ('FloorDiv', 'Mod') and ints:
            y = intz(b)
            if self.branch(y == 0):
                self.throw('ZeroDivisionError')
            x = intz(a)
            if isinstance(b, int) and b > 0:
                return SV('int', x / y if op == 'FloorDiv' else x % y)
        raise Unsupported('symbolic arithmetic %s' % op)

    POW = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())

    def powterm(self, x, y):
        """x**y over the reals; small literal exponents are expanded."""
        y = z3.simplify(y)
        x = z3.simplify(x)
        if z3.is_rational_value(y) and y.denominator_as_long() == 1:
            n = y.numerator_as_long()
            if -4 <= n <= 4:
                r = z3.RealVal(1)
                for _ in range(abs(n)):
                    r = r * x
                return r if n >= 0 else 1 / r
        return self.POW(x, y)

    def numpow(self, a, b, ints):
        if isinstance(b, int) and not isinstance(b, bool):
            if b < 0:
                if self.branch(real(a) == 0):
                    self.throw('ZeroDivisionError')
            t = self.powterm(real(a), real(b))
            if kind(a) == 'int' and b >= 0 and b <= 4:
                r = z3.IntVal(1)
                for _ in range(b):
                    r = r * intz(a)
                return SV('int', r)
            return SV('float', z3.simplify(t))
        self.assumptions.add('float power with a symbolic exponent is the uninterpreted real function pow')
        return SV('float', self.powterm(real(a), real(b)))

    # ------------------------------------------------------------- strings
    def atom_for(self, key):
        """Deterministic fresh atom standing for an unmodelled string function of its arguments."""
        k = self._keyof(key)
        if k not in self.memo:
            self.memo[k] = z3.String('s$%d' % len(self.memo))
        return self.memo[k]

    def atom_def(self, key, term):
        return term

    def _keyof(self, x):
        if isinstance(x, tuple):
            return tuple(self._keyof(y) for y in x)
        if isinstance(x, (int, float, str, bool)) or x is None:
            return (type(x).__name__, x)
        if isinstance(x, SV):
            return ('sv', x.k, x.t.sexpr())
        if isinstance(x, SStr):
            return ('ss',) + tuple(p if isinstance(p, str) else p.sexpr() for p in x.parts)
        self._keep = getattr(self, '_keep', [])
        self._keep.append(x)
        return ('id', id(x))

    def str_(self, v):
        if is_str(v):
            return v
        if isinstance(v, (int, float)) or v is None:
            return str(v)
        if isinstance(v, SV):
            if v.k == 'int':
                # different numbers have different decimal representations
                self.define(_INTOF(_STRINT(v.t)) == v.t)
                return SStr((_STRINT(v.t),))
            return SStr((self.atom_for(('str', v)),))
        if isinstance(v, Obj):
            m = v.cls.lookup('__str__')
            if m is not _MISSING:
                return self.call(BM(m, v), [], {})
            m = v.cls.lookup('__repr__')
            if m is not _MISSING:
                return self.call(BM(m, v), [], {})
            if EXC['BaseException'] in v.cls.mro:
                a = v.d.rget('args')
                if isinstance(a, tuple) and len(a) == 1 and is_str(a[0]):
                    return a[0]
            return SStr((self.atom_for(('str', v)),))
        if isinstance(v, Host) and not isinstance(v, BType):
            return v.h_str(self)
        return SStr((self.atom_for(('str', v)),))

    def repr_(self, v):
        if isinstance(v, (int, float, str)) or v is None:
            return repr(v)
        if isinstance(v, Obj):
            m = v.cls.lookup('__repr__')
            if m is not _MISSING:
                return self.call(BM(m, v), [], {})
        return SStr((self.atom_for(('repr', v)),))


_STRINT = z3.Function('str_of_int', z3.IntSort(), z3.StringSort())
_INTOF = z3.Function('int_of_str', z3.StringSort(), z3.IntSort())


class _NI(Host):
    hname = 'NotImplemented'


NOTIMPL = _NI()
