import fca
from fca.algorithms.closure_operators import simple_closure, lin_closure
from .base import *

BASES = 'abcdefgh'


def random_imps(t, atts, k=None):
    rng = t.rng
    out = []
    style = rng.randrange(4)
    for _ in range(rng.randint(0, 8) if k is None else k):
        if out and rng.random() < 0.2:
            i = rng.choice(out)
            out.append(rng.choice([i, fca.Implication(i._premise, i._conclusion), fca.Implication(i._premise, random_subset(rng, atts, 0.3)),
                                   fca.Implication(i._conclusion, i._premise)]))
            continue
        p = random_subset(rng, atts, rng.choice([0.1, 0.2, 0.4]))
        if rng.random() < 0.15:
            p = set()
        c = random_subset(rng, atts, rng.choice([0.1, 0.3, 0.5]))
        if style == 1:
            c |= p
        if style == 2 and rng.random() < 0.3:
            c = set()
        out.append(fca.Implication(p, c))
    if style == 3:
        # chains that fire late
        a = list(atts)
        rng.shuffle(a)
        out += [fca.Implication({x}, {y}) for x, y in zip(a, a[1:])]
        rng.shuffle(out)
    return out


def judge(t, atts, imps, s):
    t.note(set=s, implications=[(i._premise, i._conclusion) for i in imps])
    want = clos([(set(i._premise), set(i._conclusion)) for i in imps], s)
    for f in (simple_closure, lin_closure):
        a, l, snap = set(s), list(imps), imp_snapshot(imps)
        r = f(a, l)
        t.eq(type(r), set, '%s: type' % f.__name__)
        t.eq(set(r), want, f.__name__)
        t.eq(a, s, '%s: its argument' % f.__name__)
        t.eq([id(x) for x in l], [id(x) for x in imps], '%s: the list of implications' % f.__name__)
        t.eq(imp_snapshot(imps), snap, '%s: the implications' % f.__name__)
        t.check(not any(r is x for i in imps for x in (i._premise, i._conclusion)), '%s: the result is part of an implication' % f.__name__)
        if imps:
            t.check(r is not a, '%s: the result is the argument itself' % f.__name__)
        t.eq(set(f(set(r), list(imps))), want, '%s: closure of the closure' % f.__name__)


def test_random(t):
    atts = BASES[:t.rng.randint(1, 8)]
    imps = random_imps(t, atts)
    s = random_subset(t.rng, atts, t.rng.choice([0, 0.2, 0.5]))
    judge(t, atts, imps, s)


def test_small(t):
    """all lists of up to three implications over two attributes, by index"""
    sets = [set(), {'a'}, {'b'}, {'a', 'b'}]
    k = t.i
    s = sets[k % 4]
    k //= 4
    n = k % 4
    k //= 4
    imps = []
    for _ in range(n):
        imps.append(fca.Implication(sets[k % 4], sets[k // 4 % 4]))
        k //= 16
    judge(t, 'ab', imps, s)


def test_large(t):
    atts = ['x%d' % i for i in range(t.rng.randint(9, 40))]
    imps = random_imps(t, atts, t.rng.randint(5, 40))
    judge(t, atts, imps, random_subset(t.rng, atts, 0.2))


def test_foreign(t):
    """the set may hold attributes no implication mentions; elements may be of any type"""
    atts = [1, (2, 3), 'x', None, frozenset()]
    imps = random_imps(t, atts)
    judge(t, atts, imps, random_subset(t.rng, atts) | {'foreign'})


TESTS = [('random', test_random), ('small', test_small), ('large', test_large), ('foreign', test_foreign)]
