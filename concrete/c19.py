import fca
from fca.algorithms.implication_covers import compute_implication_cover, minimize, is_redundant
from fca.algorithms import implication_covers as ic
from fca.algorithms.closure_operators import simple_closure, lin_closure
from .base import *
from .c06 import random_imps


def pairs(imps):
    return [(frozenset(i._premise), frozenset(i._conclusion)) for i in imps]


def equivalent(t, m, imps, what, sets=None):
    ps = pairs(imps)
    for s in (sets if sets is not None else subsets(m.atts)):
        t.eq(clos(ps, s), m.cl(s), what + ': closure of %r' % (s,))


def irredundant(t, imps, what):
    ps = pairs(imps)
    for k, (p, c) in enumerate(ps):
        t.check(not c <= clos(ps[:k] + ps[k + 1:], p), what + ': an implication follows from the others', ps[k], ps)


def test_cover(t):
    c, m = context(t, 6, 6)
    imps = compute_implication_cover(c)
    t.check(len({id(i) for i in imps}) == len(imps), 'an implication object occurs twice')
    equivalent(t, m, imps, 'cover')
    same(t, c, m, 'context after computing the cover')
    minimize(imps)
    equivalent(t, m, imps, 'minimised cover')
    irredundant(t, imps, 'minimised cover')
    same(t, c, m, 'context after minimising')


def test_wide(t):
    rng = t.rng
    m = rng.randint(7, 10)
    n = rng.randint(2, 7)
    rows = [[rng.random() < 0.6 for _ in range(m)] for _ in range(n)]
    mod = M(['g%d' % i for i in range(n)], ['m%d' % i for i in range(m)], rows)
    t.note(context=mod.show())
    c = fca.Context([r[:] for r in rows], list(mod.objs), list(mod.atts))
    imps = compute_implication_cover(c)
    sets = [random_subset(rng, mod.atts, rng.choice([0.1, 0.3, 0.5, 0.8])) for _ in range(60)] + [set()] + [mod.intent(o) for o in mod.objs] + [mod.intent(o) - {a} for o in mod.objs for a in mod.intent(o)]
    equivalent(t, mod, imps, 'cover', sets)
    minimize(imps, lin_closure) if rng.random() < 0.3 else minimize(imps)
    equivalent(t, mod, imps, 'minimised cover', sets)
    irredundant(t, imps, 'minimised cover')


def test_minimize(t):
    """any list of implications"""
    rng = t.rng
    atts = 'abcde'[:rng.randint(1, 5)]
    imps = random_imps(t, atts)
    imps = [fca.Implication(i._premise, i._conclusion) for i in imps]
    if imps and rng.random() < 0.4:
        imps.insert(rng.randint(0, len(imps)), rng.choice(imps))       # the same object twice
    ps = pairs(imps)
    given = list(imps)
    t.note(implications=ps, objects=[next(j for j in range(len(imps)) if imps[j] is i) for i in imps])
    minimize(imps, lin_closure) if rng.random() < 0.3 else minimize(imps)
    t.eq(pairs(given), ps, 'the implications given')
    q = pairs(imps)
    for s in subsets(atts):
        t.eq(clos(q, s), clos(ps, s), 'minimised: closure of %r' % (s,))
    irredundant(t, imps, 'minimised')


def test_redundant(t):
    rng = t.rng
    atts = 'abcde'[:rng.randint(1, 5)]
    imps = random_imps(t, atts)
    i = fca.Implication(random_subset(rng, atts), random_subset(rng, atts))
    t.note(implications=pairs(imps), tested=pairs([i])[0])
    snap = imp_snapshot(imps + [i])
    want = i._conclusion <= clos(pairs(imps), i._premise)
    t.eq(bool(is_redundant(i, imps)), want, 'is_redundant')
    t.eq(bool(is_redundant(i, imps, lin_closure)), want, 'is_redundant with the linear closure')
    t.eq(imp_snapshot(imps + [i]), snap, 'the implications')


def test_step(t):
    """one incremental step: from a cover of the first rows to a cover with the next"""
    rng = t.rng
    c, m = context(t, 5, 5, min_n=1)
    imps = [fca.Implication(set(), set(m.atts))]
    for k in range(len(m.objs)):
        sub = M(m.objs[:k + 1], m.atts, m.rows[:k + 1])
        intent = m.intent(m.objs[k])
        imps = ic.updated_basis(intent, imps, set(m.atts))
        equivalent(t, sub, imps, 'cover of the first %d objects' % (k + 1))
        t.eq(intent, m.intent(m.objs[k]), 'the intent given')


TESTS = [('cover', test_cover), ('wide', test_wide), ('minimize', test_minimize), ('redundant', test_redundant), ('step', test_step)]
