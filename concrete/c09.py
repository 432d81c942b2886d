import fca
from fca.algorithms import compute_dg_basis
from fca.algorithms import aibasis
from fca.algorithms.closure_operators import lin_closure, simple_closure
from . import hist
from .base import *


def judge(t, m, b, what):
    got = [(frozenset(i._premise), frozenset(i._premise | i._conclusion)) for i in b]
    t.eq(len(got), len(set(got)), what + ': repeated implication')
    t.eq(set(got), set(pseudo(m.cl, m.atts)), what)


def test_small(t):
    c, m = context(t, 5, 4)
    before = hist.frozen(c)
    judge(t, m, c.get_attribute_canonical_basis(), 'get_attribute_canonical_basis')
    judge(t, m, aibasis.compute_canonical_basis(c), 'compute_canonical_basis')
    judge(t, m, aibasis.compute_canonical_basis(c, close=lin_closure), 'with lin_closure')
    judge(t, m, c.get_attribute_canonical_basis(), 'again')
    t.eq(hist.frozen(c), before, 'context')
    same(t, c, m)


def test_larger(t):
    rng = t.rng
    n, k = rng.randint(3, 9), rng.randint(5, 7)
    d = rng.choice([0.4, 0.6, 0.75])
    tb = [[rng.random() < d for _ in range(k)] for _ in range(n)]
    at = ['m%d' % i for i in range(k)]
    rng.shuffle(at)
    m = M(['g%d' % i for i in range(n)], at, tb)
    t.note(context=m.show())
    c = fca.Context(tb, m.objs[:], m.atts[:])
    judge(t, m, c.get_attribute_canonical_basis(), 'canonical basis')


def test_big(t):
    """against Ganter's algorithm (C08) and by soundness"""
    rng = t.rng
    n, k = rng.randint(5, 14), rng.randint(8, 10)
    d = rng.choice([0.5, 0.65])
    tb = [[rng.random() < d for _ in range(k)] for _ in range(n)]
    at = ['m%d' % i for i in range(k)]
    rng.shuffle(at)
    m = M(['g%d' % i for i in range(n)], at, tb)
    t.note(context=m.show())
    c = fca.Context(tb, m.objs[:], m.atts[:])
    b = c.get_attribute_canonical_basis()
    got = [(frozenset(i._premise), frozenset(i._premise | i._conclusion)) for i in b]
    # premises must be exactly the pseudo-closed sets; enumerate these by size
    want = []
    masks = [sum(1 << j for j in range(k) if r[j]) for r in tb]
    full = (1 << k) - 1
    ps = []
    for x in sorted(range(full + 1), key=lambda v: bin(v).count('1')):
        cl = full
        for r in masks:
            if x & ~r == 0:
                cl &= r
        if cl != x and all(not (p & ~x == 0 and p != x) or q & ~x == 0 for p, q in ps):
            ps.append((x, cl))
    f = lambda v: frozenset(at[j] for j in range(k) if v >> j & 1)
    t.eq(len(got), len(set(got)), 'repeated implication')
    t.eq(set(got), {(f(p), f(q)) for p, q in ps}, 'canonical basis')


def test_wide(t):
    """more attributes than machine words have bits"""
    c, m = wide_context(t, n=t.rng.randint(1, 3), m=t.rng.choice([12, 31, 32, 33, 63, 64, 65]))
    want = wide_pseudo(t, m)
    if want is not None and len(want) < 120:
        b = c.get_attribute_canonical_basis()
        t.eq({(frozenset(i._premise), frozenset(i._premise | i._conclusion)) for i in b}, want, 'canonical basis')
        t.eq(len(b), len(want), 'repeated implication')


TESTS = [('wide', test_wide), ('small', test_small), ('larger', test_larger), ('big', test_big)]
