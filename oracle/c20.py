from .lib import *
from . import fakethermo

fakethermo.install()

NAMES = ['water', 'toluene', 'hexane', 'benzene', 'w', 'water vapour', '*x', '', 'Water', 'water ']


def run_case(c):
    F = Fails()
    PP = get(C + 'property_package', 'PropertyPackage')
    rng = random.Random(c['seed'])
    pks, ref = [], []           # packages, reference: list of (name, data)
    given = []

    def check(where):
        for i, (a, r) in enumerate(zip(pks, ref)):
            F.check(list(a.phase_names) == [n for n, _ in r], 'phase names', '%s: package %d has %r instead of %r' % (where, i, list(a.phase_names), [n for n, _ in r]))
            F.check(sorted(a.phases) == sorted(n for n, _ in r), 'phases', '%s: package %d' % (where, i))
            for n, d in r:
                F.check(n in a.phases and a.phases[n] is d, 'data of a phase', '%s: package %d, %r' % (where, i, n))
                F.check(attempt(lambda: a[n]) == ('ok', d) if n != '*' else True, 'lookup', '%s: package %d, %r' % (where, i, n))
            if r:
                F.check(attempt(lambda: a['*']) == ('ok', r[-1][1]), 'wildcard', '%s: package %d' % (where, i))
            F.check(attempt(lambda: a['no such phase'])[0] == 'raise', 'lookup of an unknown phase', where)
            for j in range(i):
                F.check(pks[j].phase_names is not a.phase_names and pks[j].phases is not a.phases, 'shared phase list', '%s: %d and %d' % (where, j, i))
        for l, cp in given:
            F.check(l == cp, 'list of the caller', '%s: %r instead of %r' % (where, l, cp))

    def new():
        how = rng.choice(['default', 'list', 'same', 'tuple', 'none'])
        if how == 'default':
            k, names = {}, ['water']
        else:
            if how == 'same' and given:
                l = rng.choice(given)[0]
            else:
                l = rng.sample(NAMES, rng.randint(1, 4))
                if how == 'none':
                    l.insert(rng.randint(0, len(l)), None)
                given.append((l, list(l)))
            names = [x for x in l if x is not None]
            k = dict(phase_names=tuple(l) if how == 'tuple' else l, phases=rng.choice([1, 2]))
        a = PP(**k)
        pks.append(a)
        ref.append([(n, a.phases.get(n)) for n in names])
        for n in names:
            F.check(n in a.phases and a.phases[n].ID == n and a.phases[n].T == a.T and a.phases[n].P == a.P, 'data of a new package', n)
        check('created')
    new()
    for _ in range(c['steps']):
        op = rng.choice(['new', 'add', 'add', 'add', 'other', 'calc', 'T'])
        i = rng.randrange(len(pks))
        if op == 'new':
            new()
        elif op == 'add':
            j = rng.randrange(len(pks))
            r = attempt(lambda: pks[i] + pks[j])
            F.check(r[0] == 'ok', 'addition of a package', str(r[1]))
            if r[0] == 'ok':
                have = {n for n, _ in ref[i]}
                ref[i] = ref[i] + [(n, d) for n, d in ref[j] if n not in have]
                F.check(r[1] is pks[i], 'result of an addition')
            check('added %d to %d' % (j, i))
        elif op == 'other':
            o = rng.choice([None, 1, 'water', ['water'], {'water': 1}, object()])
            F.check(attempt(lambda: pks[i] + o)[0] == 'raise', 'anything else refused', repr(o))
            check('refused')
        elif op == 'calc':
            T, Pr = rng.uniform(250, 400), rng.uniform(1e5, 1e6)
            r = attempt(lambda: pks[i].calculate(T=T, P=Pr))
            F.check(r[0] == 'ok', 'calculation', str(r[1]))
            for n, d in ref[i]:
                F.check((d.T, d.P) == (T, Pr), 'phases are calculated at the conditions given', n)
            check('calculated')
        else:
            T = rng.uniform(250, 400)
            w = rng.choice('TP')
            getattr(pks[i], 'set_' + w)(T)
            F.check(getattr(pks[i], w) == T, 'set_' + w)
            F.check(attempt(lambda: getattr(pks[i], 'set_' + w)('x'))[0] == 'raise' and getattr(pks[i], w) == T, 'set_%s refuses' % w)
    return F


def gen_cases(rng, tier):
    for i in range(400 if tier == 'quick' else 4000):
        yield dict(kind='packages', seed=i, steps=rng.choice([1, 3, 8, 15]))
