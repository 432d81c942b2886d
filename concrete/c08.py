import fca
from fca.algorithms import compute_dg_basis, compute_dg_basis_simple, dg_basis_iter_simple
from fca.algorithms.dg_basis import generalized_compute_dg_basis, generalized_dg_basis_iter, compute_partial_dg_basis
from fca.algorithms.closure_operators import simple_closure, lin_closure
from . import hist
from .base import *


def background(t, m):
    """implications valid in the context"""
    rng = t.rng
    out = []
    for _ in range(rng.choice([0, 0, 1, 2, 3, 5])):
        p = random_subset(rng, m.atts, rng.choice([0.1, 0.3, 0.5]))
        if rng.random() < 0.2:
            p = set()
        c = m.cl(p)
        if rng.random() < 0.5:
            c = random_subset(rng, c)
        out.append(fca.Implication(p, c))
        if rng.random() < 0.15:
            out.append(out[-1])
    t.note(background=[(i._premise, i._conclusion) for i in out])
    return out


def sound(t, m, basis, what):
    for i in basis:
        t.check(i._premise <= set(m.atts), what + ': premise in the context', i)
        t.eq(i._premise | i._conclusion, m.cl(i._premise), what + ': conclusion of %s' % i)


def complete(t, m, bg, basis, what):
    imps = [(i._premise, i._conclusion) for i in list(bg) + list(basis)]
    for x in subsets(m.atts):
        if all(not p <= x or c <= x for p, c in imps):
            t.check(m.cl(x) == x, what + ': %r respects everything and is not closed' % (x,))


def irredundant(t, bg, basis, what):
    b = [(i._premise, i._conclusion) for i in basis]
    g = [(i._premise, i._conclusion) for i in bg]
    for k, (p, c) in enumerate(b):
        t.check(not c <= clos(g + b[:k] + b[k + 1:], p), what + ': %s follows from the others' % basis[k])


def key(basis):
    return [(frozenset(i._premise), frozenset(i._premise | i._conclusion)) for i in basis]


def variants(c, bg, cond=None):
    kw = {} if cond is None else {'cond': cond}
    yield 'compute_dg_basis', lambda: compute_dg_basis(c, imp_basis=bg, **kw)
    yield 'compute_dg_basis_simple', lambda: compute_dg_basis_simple(c, imp_basis=bg, **kw)
    yield 'dg_basis_iter_simple', lambda: list(dg_basis_iter_simple(c, imp_basis=bg, **kw))
    yield 'get_attribute_implications', lambda: c.get_attribute_implications(confirmed=bg, **kw)
    yield 'iterated', lambda: list(c.get_attribute_implications(basis=dg_basis_iter_simple, confirmed=bg, **kw))
    yield 'simple with lin_closure', lambda: compute_dg_basis_simple(c, close=lin_closure, imp_basis=bg, **kw)


def test_basis(t):
    c, m = context(t, 5, 4)
    bg = background(t, m) if t.rng.random() < 0.6 else []
    before, snap, n = hist.frozen(c), imp_snapshot(bg), len(bg)
    first = None
    for what, f in variants(c, bg):
        b = f()
        sound(t, m, b, what)
        complete(t, m, bg, b, what)
        irredundant(t, bg, b, what)
        if first is None:
            first = key(b)
        t.eq(set(key(b)), set(first), what + ': same implications')
        t.eq(len(b), len(first), what + ': same number of implications')
        t.eq(hist.frozen(c), before, 'context after ' + what)
        t.eq((len(bg), imp_snapshot(bg)), (n, snap), 'background after ' + what)
        for i in b:
            t.check(i._premise is not i._conclusion, what + ': separate sets')
    if not bg:
        t.eq(set(first), set(pseudo(m.cl, m.atts)), 'canonical basis')
        t.eq(set(key(c.attribute_implications)), set(first), 'attribute_implications')
        t.eq(set(key(c.attribute_implications_iter())), set(first), 'attribute_implications_iter')
        t.eq(set(key(compute_dg_basis(c))), set(first), 'compute_dg_basis')
        t.eq(set(key(compute_dg_basis_simple(c))), set(first), 'compute_dg_basis_simple')
        t.eq(set(key(dg_basis_iter_simple(c))), set(first), 'dg_basis_iter_simple')
        t.eq(set(key(c.get_attribute_implications(basis=compute_dg_basis_simple))), set(first), 'get_attribute_implications')


def test_objects(t):
    c, m = context(t, 4, 5)
    mt = m.transpose()
    bg = background(t, mt) if t.rng.random() < 0.6 else []
    before = hist.frozen(c)
    for what, f in (('object_implications', lambda: c.object_implications), ('get_object_implications', lambda: c.get_object_implications(confirmed=bg)),
                    ('get_object_implications simple', lambda: c.get_object_implications(compute_dg_basis_simple, bg))):
        g = [] if what == 'object_implications' else bg
        b = f()
        sound(t, mt, b, what)
        complete(t, mt, g, b, what)
        irredundant(t, g, b, what)
    t.eq(hist.frozen(c), before, 'context')


def test_cond(t):
    rng = t.rng
    c, m = context(t, 5, 4)
    bg = background(t, m) if rng.random() < 0.5 else []
    k = rng.randint(0, 3)
    a = rng.choice(m.atts) if m.atts else None
    cond = rng.choice([lambda x: len(x) <= k, lambda x: len(x) >= k, lambda x: a not in x, lambda x: a in x, lambda x: False, lambda x: True])
    first = None
    for what, f in variants(c, bg, cond):
        b = f()
        sound(t, m, b, what)
        irredundant(t, bg, b, what)
        for i in b:
            t.check(cond(i.premise), what + ': premise meets the condition', i)
        if first is None:
            first = key(b)
        t.eq(set(key(b)), set(first), what + ': same implications')
        t.eq(len(b), len(first), what + ': same number of implications')


def test_larger(t):
    rng = t.rng
    n, k = rng.randint(3, 8), rng.randint(5, 7)
    tb = [[rng.random() < 0.6 for _ in range(k)] for _ in range(n)]
    at = ['m%d' % i for i in range(k)]
    rng.shuffle(at)
    m = M(['g%d' % i for i in range(n)], at, tb)
    t.note(context=m.show())
    c = fca.Context(tb, m.objs[:], m.atts[:])
    bg = background(t, m) if rng.random() < 0.6 else []
    ks = []
    for what, f in variants(c, bg):
        b = f()
        ks.append(set(key(b)))
        sound(t, m, b, what)
        irredundant(t, bg, b, what)
        t.eq(ks[-1], ks[0], what + ': same implications')
    complete(t, m, bg, b, what)
    if not bg:
        t.eq(ks[0], set(pseudo(m.cl, m.atts)), 'canonical basis')


def test_operator(t):
    """any closure operator, given as a function"""
    rng = t.rng
    atts = list('abcde')[:rng.randint(0, 5)]
    rng.shuffle(atts)
    rules = [(random_subset(rng, atts, 0.3), random_subset(rng, atts, 0.3)) for _ in range(rng.randint(0, 5))]
    t.note(attributes=atts, rules=rules)
    cl = lambda s: clos(rules, s)
    for f in (generalized_compute_dg_basis, lambda *a, **k: list(generalized_dg_basis_iter(*a, **k))):
        for close in (simple_closure, lin_closure):
            b = f(atts, lambda s: sorted(cl(s)), close=close)
            t.eq(set(key(b)), set(pseudo(cl, atts)), 'basis of the operator')


def test_wide(t):
    """more attributes than machine words have bits"""
    c, m = wide_context(t, n=t.rng.randint(1, 3), m=t.rng.choice([12, 31, 32, 33, 63, 64, 65]))
    want = wide_pseudo(t, m)
    if want is not None and len(want) < 120:
        for what, f in t.rng.sample(list(variants(c, [])), 2):
            b = f()
            t.eq(set(key(b)), want, what)
            t.eq(len(b), len(want), what + ': repeated implication')


TESTS = [('wide', test_wide), ('basis', test_basis), ('objects', test_objects), ('cond', test_cond), ('larger', test_larger), ('operator', test_operator)]
