import fca
from fca.algorithms import closure_operators as co
from . import hist
from .base import *


def sub_args(t, xs):
    s = random_subset(t.rng, xs)
    return s


def shape(t, s):
    """the same elements as different kinds of collection"""
    l = list(s)
    t.rng.shuffle(l)
    return t.rng.choice([lambda: set(l), lambda: list(l), lambda: tuple(l), lambda: frozenset(l)])()


def one(t, c, m):
    rng = t.rng
    A, O = sub_args(t, m.atts), sub_args(t, m.objs)
    t.note(attributes=A, objects=O)
    before = hist.frozen(c)
    f = shape(t, A)
    t.eq(c.aprime(f), m.down(A), 'aprime')
    t.eq(c.aclosure(shape(t, A)), m.cl(A), 'aclosure')
    f = shape(t, O)
    t.eq(c.oprime(f), m.up(O), 'oprime')
    t.eq(c.oclosure(shape(t, O)), m.ocl(O), 'oclosure')
    for r, ty in ((c.aprime(A), set), (c.oprime(O), set), (c.aclosure(A), set), (c.oclosure(O), set)):
        t.eq(type(r), ty, 'type of the derivation')
    A0, O0 = set(A), set(O)
    t.eq(set(co.aprime(A, c)), m.down(A), 'function aprime')
    t.eq(set(co.oprime(O, c)), m.up(O), 'function oprime')
    x = co.aclosure(A, c)
    t.eq(x, sorted(m.cl(A)), 'function aclosure')
    x = co.oclosure(O, c)
    t.eq(x, sorted(m.ocl(O)), 'function oclosure')
    t.eq((A, O), (A0, O0), 'arguments')
    ai = [m.atts.index(a) for a in A]
    oi = [m.objs.index(o) for o in O]
    for kind in (list, set):
        t.eq({m.objs[i] for i in c.aprime_inds(kind(ai))}, m.down(A), 'aprime_inds')
        t.eq({m.atts[i] for i in c.oprime_inds(kind(oi))}, m.up(O), 'oprime_inds')
        t.eq({m.atts[i] for i in c.aclosure_inds(kind(ai))}, m.cl(A), 'aclosure_inds')
        t.eq({m.objs[i] for i in c.oclosure_inds(kind(oi))}, m.ocl(O), 'oclosure_inds')
        for n, got, num in (('aprime_inds', c.aprime_inds(kind(ai)), len(m.down(A))), ('oprime_inds', c.oprime_inds(kind(oi)), len(m.up(O)))):
            t.eq(len(list(got)), num, 'number of positions from ' + n)
        cnt = c.associative_aprime_inds(kind(ai))
        t.eq([cnt.get(i, 0) for i in range(len(m.objs))], [len(A & m.intent(o)) for o in m.objs], 'associative_aprime_inds')
        cnt = c.associative_oprime_inds(kind(oi))
        t.eq([cnt.get(j, 0) for j in range(len(m.atts))], [len(O & m.extent(a)) for a in m.atts], 'associative_oprime_inds')
        t.check(set(cnt) <= set(range(len(m.atts))), 'positions')
    cnt = c.associative_aprime(shape(t, A))
    t.eq({o: cnt.get(o, 0) for o in m.objs}, {o: len(A & m.intent(o)) for o in m.objs}, 'associative_aprime')
    t.check(set(cnt) <= set(m.objs), 'objects of associative_aprime')
    cnt, size = c.associative_aclosure(shape(t, A))
    ext = m.down(A)
    t.eq(size, len(ext), 'extent size of associative_aclosure')
    t.eq({a: cnt.get(a, 0) for a in m.atts}, {a: len(ext & m.extent(a)) for a in m.atts}, 'associative_aclosure')
    t.eq((A, O), (A0, O0), 'arguments')
    t.eq(hist.frozen(c), before, 'context')


def test_derivation(t):
    c, m = context(t, 6, 6)
    for _ in range(3):
        one(t, c, m)
    same(t, c, m)


def test_all_subsets(t):
    c, m = context(t, 4, 4)
    for A in subsets(m.atts):
        t.eq(c.aprime(A), m.down(A), 'aprime(%r)' % (A,))
        t.eq(c.aclosure(A), m.cl(A), 'aclosure(%r)' % (A,))
        t.eq(set(co.aprime(A, c)), m.down(A), 'function aprime(%r)' % (A,))
    for O in subsets(m.objs):
        t.eq(c.oprime(O), m.up(O), 'oprime(%r)' % (O,))
        t.eq(c.oclosure(O), m.ocl(O), 'oclosure(%r)' % (O,))
        t.eq(set(co.oprime(O, c)), m.up(O), 'function oprime(%r)' % (O,))


def test_wide(t):
    c, m = wide_context(t, t.rng.randint(1, 3), 300) if t.rng.random() < 0.2 else wide_context(t)
    if t.rng.random() < 0.3:
        t.eq(c.associative_aprime(m.atts), {o: len(m.intent(o)) for o in m.objs if m.intent(o)}, 'associative_aprime of all attributes')
    one(t, c, m)


def test_after_edits(t):
    c, m = context(t, 4, 4)
    for k in range(3):
        x = hist.apply(t, c, m, hist.pick_edit(t.rng), k)
        if x:
            m = hist.after_edit(t, c, *x, what='edit')
            if len({type(a) for a in m.atts}) <= 1 and len({type(o) for o in m.objs}) <= 1:
                one(t, c, m)


TESTS = [('derivation', test_derivation), ('all_subsets', test_all_subsets), ('wide', test_wide), ('after_edits', test_after_edits)]
