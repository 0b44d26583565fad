"""C27: automatically generated names are unique under concurrency.

Threads are interleaved at the shared state: a call that touches the state shared by the threads in a single step (drawing the
next number of a counter) is atomic, so every schedule is a sequence of such calls, each by some thread.  The calls are
checked from an arbitrary state: arbitrary numbers reached by the counters, arbitrary state of its own for every thread,
arbitrarily many calls by others between two calls.  Anything else that is written and shared leaves the obligation undecided."""
from .lib import *
from pyvc import extlib
from pyvc import builtins_model as B
from pyvc.values import Fn, Cls
from .c23 import world

spec = Spec('C27')
spec.assumptions = ['next() of an itertools.count is one step, also between threads (CPython)',
                    'the user gives no object the name of a decimal number',
                    'assignment to one key of a dictionary is one step']
WHERE = {'equations': C + 'equation', 'connections': S + 'problem'}


def shared_hosts(p, cls):
    out, seen = [], set()
    for m in list(p.I.modules.values()):
        for v in m.glb.v.values():
            work = [v]
            if isinstance(v, Fn):
                work += v.defaults
            if isinstance(v, Cls):
                work += list(v.ns.values())
            for x in work:
                if isinstance(x, cls) and id(x) not in seen:
                    seen.add(id(x))
                    out.append(x)
    return out


class Threads:
    """the state of the name generators after an arbitrary history of an arbitrary number of threads"""

    def __init__(self, p):
        self.p = p
        self.counters = shared_hosts(p, extlib.Counter)
        self.locals = shared_hosts(p, extlib.ThreadLocal)
        for c in self.counters:
            v = p.int('reached')
            p.assume(v.t >= num_of(c.value))
            c.put(v, 0)
        self.w = [(o, shallow(o)) for o in world(p).values()]
        self.names = [(m, dict(m.glb.v)) for m in p.I.modules.values() if hasattr(m, 'glb')]

    def as_thread(self, t, warm):
        """thread t runs; it generated names before, or never"""
        p = self.p
        p.I.thread = t
        if warm:
            for m in set(WHERE.values()):
                p.call(p.get(m, 'gen_rnd_str'))
            self.havoc_own(t)

    def havoc_own(self, t):
        for l in self.locals:
            d = l.of(t)
            for k in list(d.keys()):
                if isinstance(d.rget(k), (int, SV)) and not isinstance(d.rget(k), bool) and k != 'tid':
                    n = self.p.int('own')
                    self.p.assume(n.t >= 0)
                    d.rset(k, n)

    def others(self):
        """calls by other threads, any number"""
        for c in self.counters:
            v = self.p.int('later')
            self.p.assume(v.t >= num_of(c.value))
            c.put(v, c.draws)

    def one_step(self, before):
        for c, n in zip(self.counters, before):
            if c.draws - n > 1:
                raise Unsupported('more than one step on the shared counter')
        if any(not same_shallow(s, shallow(o)) for o, s in self.w):
            raise Unsupported('shared state besides counters')
        for m, d in self.names:
            for k, v in d.items():
                if m.glb.v.get(k) is not v:
                    raise Unsupported('the module variable %s is assigned' % k)

    def draws(self):
        return [c.draws for c in self.counters]


def num_of(v):
    return v.t if isinstance(v, SV) else z3.IntVal(v)


def case(p):
    p.case(lambda c: dict(kind='schedules', seed=1))


@spec.obligation('names drawn by two calls of any threads differ')
def _(p):
    I = p.I
    which = p.pick(sorted(WHERE), 'generator')
    gen = p.get(WHERE[which], 'gen_rnd_str')
    t = Threads(p)
    same = p.flag('one thread')
    case(p)
    t.as_thread(1, p.flag('first call of its thread'))
    b = t.draws()
    r1 = p.call(gen)
    p.returns('a name', r1)
    t.one_step(b)
    p.ensure('it is text', V.is_str(r1[1]), repr(r1[1]))
    t.others()
    if not same:
        t.as_thread(2, p.flag('first call of the other thread'))
    b = t.draws()
    r2 = p.call(gen)
    t.one_step(b)
    p.returns('another name', r2)
    p.ensure('different names', differ(p, r1[1], r2[1]), '%r and %r' % (r1[1], r2[1]))


def differ(p, a, b):
    e = p.I.eqf(a, b)
    return z3.Not(e) if not isinstance(e, bool) else not e


@spec.obligation('equations created without a name by any threads have different names')
def _(p):
    I = p.I
    E = p.get(C + 'equation', 'Equation')
    owned = p.flag('in a model')
    v = I.call(p.get(C + 'variable', 'Variable'), ['v', p.get(C + 'template_units', 'm')], {})
    x = I.call(v, [], {})
    t = Threads(p)
    same = p.flag('one thread')
    case(p)
    M = I.call(p.get(S + 'model', 'Model'), [p.string('model')], {}) if owned else None

    def new():
        if owned:
            return p.method(M, 'createEquation', '', 'text', x, check_equation=False)
        return p.call(E, '', 'text', x)
    t.as_thread(1, p.flag('first call of its thread'))
    r1 = new()
    p.returns('an equation', r1)
    n1 = p.attr(r1[1], 'name')
    t.others()
    if not same:
        t.as_thread(2, p.flag('first call of the other thread'))
    r2 = new()
    p.returns('another equation', r2)
    p.ensure('different names', differ(p, n1, p.attr(r2[1], 'name')), '%r and %r' % (n1, p.attr(r2[1], 'name')))
    p.ensure('the first keeps its name', I.eqf(p.attr(r1[1], 'name'), n1))
    if owned:
        regs = p.attr(M, 'equations')
        p.ensure('both are registered', I.dict_get(regs, n1) is r1[1] and I.dict_get(regs, p.attr(r2[1], 'name')) is r2[1])


@spec.obligation('an equation with a name keeps it')
def _(p):
    I = p.I
    n = p.string('name')
    t = Threads(p)
    case(p)
    r = p.call(p.get(C + 'equation', 'Equation'), n, 'text')
    p.returns('the equation', r)
    p.eq('name', p.attr(r[1], 'name'), n)


@spec.obligation('connections without an origin made by any threads are all kept')
def _(p):
    I = p.I
    M = I.call(p.get(S + 'model', 'Model'), [p.string('model')], {})
    P = I.call(p.get(S + 'problem', 'Problem'), ['problem'], {})
    v = I.call(p.get(C + 'variable', 'Variable'), ['v', p.get(C + 'template_units', 'm')], {})
    w = I.call(p.get(C + 'variable', 'Variable'), ['w', p.get(C + 'template_units', 'm')], {})
    x, y = I.call(v, [], {}), I.call(w, [], {})
    t = Threads(p)
    same = p.flag('one thread')
    case(p)
    t.as_thread(1, p.flag('first call of its thread'))
    r1 = p.method(P, 'createConnection', '', M, x, y)
    p.returns('a connection', r1)
    one = list(p.attr(M, 'equations').values())
    p.ensure('one equation', len(one) == 1)
    t.others()
    if not same:
        t.as_thread(2, p.flag('first call of the other thread'))
    r2 = p.method(P, 'createConnection', '', M, x, y)
    p.returns('another connection', r2)
    regs = p.attr(M, 'equations')
    p.ensure('the first is kept', I.truth_f(I.contains(regs, p.attr(one[0], 'name'))) and I.dict_get(regs, p.attr(one[0], 'name')) is one[0])
    p.eq('two equations', B.length(I, regs), 2)
