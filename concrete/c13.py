import math
from fractions import Fraction
import fca
from fca.algorithms import filtering as fl
from .base import *


def exact(m, c):
    n = sum(1 for s in subsets(c.extent) if m.up(s) == set(c.intent))
    e = sum(1 for s in subsets(c.intent) if m.down(s) == set(c.extent))
    return Fraction(n, 2 ** len(c.extent)), Fraction(e, 2 ** len(c.intent))


def separation(m, c):
    sq = len(c.extent) * len(c.intent)
    if not sq:
        return Fraction(1)
    cr = len({(o, a) for o, a in m.pairs() if o in c.extent or a in c.intent})
    return Fraction(sq, cr)


def close(t, got, want, what):
    t.check(abs(got - float(want)) < 1e-12, what, got, float(want))


def judge(t, c, m):
    l = fca.ConceptLattice(c)
    n = len(l)
    snap = [(id(x), set(x.extent), set(x.intent)) for x in l]
    i, e, s = fca.compute_istability(l), fca.compute_estability(l), fca.compute_separation_index(l)
    ex, it = fl.compute_extent_size(l) if m.objs else None, fl.compute_intent_size(l) if m.atts else None
    t.eq([(id(x), set(x.extent), set(x.intent)) for x in l], snap, 'lattice')
    for d in (i, e, s) + ((ex,) if ex is not None else ()) + ((it,) if it is not None else ()):
        t.eq(len(d), n, 'number of index values')
    for x in l:
        a, b = exact(m, x)
        close(t, i[x], a, 'intensional stability of %s' % x)
        close(t, e[x], b, 'extensional stability of %s' % x)
        close(t, s[x], separation(m, x), 'separation of %s' % x)
        if ex is not None:
            close(t, ex[x], Fraction(len(x.extent), len(m.objs)), 'extent size of %s' % x)
        if it is not None:
            close(t, it[x], Fraction(len(x.intent), len(m.atts)), 'intent size of %s' % x)
    return l


def test_indices(t):
    c, m = context(t, 5, 5)
    judge(t, c, m)


FNS = [fca.compute_istability, fca.compute_estability, fca.compute_separation_index, fl.compute_extent_size, fl.compute_intent_size]


def test_filter(t):
    rng = t.rng
    c, m = context(t, 5, 5, min_n=1, min_m=1)
    l = fca.ConceptLattice(c)
    f = rng.choice(FNS)
    idx = f(l)
    if rng.random() < 0.3:
        vals = {x: rng.choice([0, 0.25, 0.5, 0.5, 1, 2]) for x in l}
        f = lambda lat: dict(vals)
        idx = vals
    t.note(index=[(str(x), idx[x]) for x in l])
    mode = rng.choice(['value', 'abs', 'part'])
    n = len(l)
    if mode == 'value':
        opt = rng.choice([0, 0.3, 0.5, 1, 2] + list(idx.values()))
    elif mode == 'abs':
        opt = rng.randint(0, n + 2)
    else:
        opt = rng.choice([rng.random(), rng.random(), 1, 1.0, 1 / n, 0.5 / n])
    t.note(mode=mode, opt=opt)
    snap = [(id(x), set(x.extent), set(x.intent), dict(x.meta)) for x in l]
    r = fca.filter_concepts(l, f, mode, opt)
    kept = list(r)
    t.eq(len({id(x) for x in kept}), len(kept), 'repeated concepts')
    by = {id(x) for x in l}
    t.check(all(id(x) in by for x in kept), 'kept concepts come from the lattice')
    k = {id(x) for x in kept}
    if mode == 'value':
        t.eq(k, {id(x) for x in l if idx[x] >= opt}, 'concepts at or above %s' % opt)
    elif mode == 'abs':
        t.eq(len(kept), min(opt, n), 'number of kept concepts')
    else:
        t.check(len(kept) >= int(n * opt), 'share of kept concepts', len(kept), n)
    lo = min([idx[x] for x in kept], default=None)
    for x in l:
        if id(x) not in k and kept:
            t.check(idx[x] <= lo, 'a dropped concept has a higher index than a kept one')
    t.eq([(id(x), set(x.extent), set(x.intent), dict(x.meta)) for x in l], snap, 'lattice')


def test_annotate(t):
    rng = t.rng
    c, m = context(t, 5, 5, min_n=1, min_m=1)
    l = fca.ConceptLattice(c)
    cs = list(l)
    names = []
    for k in range(rng.randint(1, 3)):
        f = rng.choice(FNS)
        nm = rng.choice(['A', 'B', 'index one'])
        want = f(l)
        want = {id(x): want[x] for x in cs}
        fca.compute_index(l, f, nm)
        names = [(a, b) for a, b in names if a != nm] + [(nm, want)]
        t.eq([id(x) for x in l], [id(x) for x in cs], 'lattice')
        for x in cs:
            t.eq(x.meta, {a: w[id(x)] for a, w in names}, 'annotations of %s' % x)
    judge_l(t, l, m)


def judge_l(t, l, m):
    for x in l:
        t.check(m.up(x.extent) == x.intent and m.down(x.intent) == x.extent, 'concepts after annotation')
        l.parents(x), l.children(x)
        t.check(x in l, 'membership after annotation')


def test_large(t):
    """few kinds of rows, many of each: subsets counted by the kinds that occur in them"""
    rng = t.rng
    k = rng.randint(1, 3)
    kinds = rng.sample(list(itertools.product([False, True], repeat=k)), rng.randint(1, 3))if k > 1 else [(True,)]
    many = [rng.choice([1, 3, 40, 60] + ([600] if rng.random() < 0.1 else [])) for _ in kinds]
    if rng.random() < 0.03:
        many[0] = 1100
    table = [list(r) for r, n in zip(kinds, many) for _ in range(n)]
    atts = ['m%d' % j for j in range(k)]
    t.note(kinds=[list(map(int, r)) for r in kinds], many=many)
    l = fca.ConceptLattice(fca.Context(table, list(range(len(table))), atts))
    i = fca.compute_istability(l)
    t.eq(len(i), len(l), 'number of index values')
    for x in l:
        inside = [q for q, r in enumerate(kinds) if all(r[j] for j in range(k) if atts[j] in x.intent)]
        total = 0
        for s in subsets(inside):
            if {atts[j] for j in range(k) if all(kinds[q][j] for q in s)} == set(x.intent):
                p = 1
                for q in s:
                    p *= 2 ** many[q] - 1
                total += p
        close(t, i[x], Fraction(total, 2 ** sum(many[q] for q in inside)), 'intensional stability of the concept with intent %s' % sorted(x.intent))


def test_probability(t):
    """how probable the intent is closed in a random context with the same number of objects and the same share of objects per attribute"""
    c, m = context(t, 5, 5)
    n = len(m.objs)
    if not n:
        return
    share = {a: Fraction(len(m.down({a})), n) for a in m.atts}
    l = fca.ConceptLattice(c)
    got = fl.compute_probability(l)
    t.eq(len(got), len(l), 'number of index values')
    for x in l:
        total = Fraction(0)
        pb = Fraction(1)
        for a in x.intent:
            pb *= share[a]
        for k in range(n + 1):
            r = math.comb(n, k) * pb ** k * (1 - pb) ** (n - k)
            for a in m.atts:
                if a not in x.intent:
                    r *= 1 - share[a] ** k
            total += r
        t.check(abs(got[x] - float(total)) < 1e-9, 'probability of %s' % x, got[x], float(total))


TESTS = [('large', test_large), ('indices', test_indices), ('probability', test_probability), ('filter', test_filter), ('annotate', test_annotate)]
