import fca
from . import hist
from .base import *


def rows_of(c):
    return {o: frozenset(c.get_object_intent(o)) for o in c.objects}


def judge_reduced(t, m, r, what):
    """r: reduced model; m: original model (rows = objects)"""
    t.eq(r.atts, m.atts, what + ': attributes')
    t.eq(len(set(r.objs)), len(r.objs), what + ': distinct objects')
    for o in r.objs:
        t.check(o in m.objs, what + ': new object', o)
        t.eq(r.intent(o), m.intent(o), what + ': row of %r' % (o,))
    kept = [frozenset(r.intent(o)) for o in r.objs]
    full = frozenset(m.atts)
    for o in m.objs:
        x = frozenset(m.intent(o))
        w = full
        for k in kept:
            if x <= k:
                w &= k
        t.check(w == x, what + ': row of %r is no longer an intersection of kept rows' % (o,))
    t.eq(len(kept), len(set(kept)), what + ': equal kept rows')
    for k in kept:
        if k == full:
            continue
        w = full
        for q in kept:
            if k < q:
                w &= q
        t.check(w != k, what + ': kept row %r is the intersection of the kept rows above it' % (set(k),))


def judge(t, c, m):
    before = hist.frozen(c)
    r = c.reduce_objects()
    judge_reduced(t, m, model_of(r), 'reduce_objects')
    same(t, r, model_of(r), 'reduced context')
    a = c.reduce_attributes()
    judge_reduced(t, m.transpose(), model_of(a).transpose(), 'reduce_attributes')
    t.eq(len(a.attributes) and len(a.objects), len(a.attributes) and len(m.objs), 'objects of reduce_attributes')
    k = c.clarify_objects()
    t.eq(list(k.attributes), m.atts, 'clarify_objects: attributes')
    km = model_of(k)
    rows = [frozenset(km.intent(o)) for o in km.objs]
    t.eq(len(rows), len(set(rows)), 'clarify_objects: equal rows')
    t.eq(set(rows), {frozenset(m.intent(o)) for o in m.objs}, 'clarify_objects: rows')
    for o in km.objs:
        t.check(o in m.objs and km.intent(o) == m.intent(o), 'clarify_objects: row of %r' % (o,))
    same(t, k, km, 'clarified context')
    t.eq(hist.frozen(c), before, 'context')
    t.check(r is not c and a is not c and k is not c, 'new contexts')


def test_small(t):
    c, m = context(t, 6, 6)
    judge(t, c, m)
    same(t, c, m)


def test_wide(t):
    c, m = wide_context(t)
    judge(t, c, m)


def test_meets(t):
    """many rows that are intersections of others"""
    rng = t.rng
    w = rng.choice([3, 4, 5, 6, 8, 65])
    base = [[rng.random() < 0.7 for _ in range(w)] for _ in range(rng.randint(1, 5))]
    rows = list(base)
    for _ in range(rng.randint(0, 6)):
        a = rng.sample(rows, rng.randint(1, min(3, len(rows))))
        rows.append([all(x[j] for x in a) for j in range(w)])
    rng.shuffle(rows)
    if rng.random() < 0.3:
        rows.append([True] * w)
    m = M(['g%d' % i for i in range(len(rows))], ['m%d' % j for j in range(w)], rows)
    if rng.random() < 0.5:
        m = m.transpose()
    t.note(context=m.show())
    judge(t, fca.Context(m.rows, m.objs[:], m.atts[:]), m)


def test_many(t):
    """many distinct rows, closed under intersection or nearly so"""
    rng = t.rng
    w = rng.choice([6, 7, 8, 10, 64, 70])
    rows = set()
    target = rng.randint(20, 90)
    for _ in range(1000):
        if len(rows) >= target:
            break
        if rows and rng.random() < 0.6:
            ls = sorted(rows)
            a = [rng.choice(ls) for _ in range(rng.randint(2, 3))]
            rows.add(tuple(all(x[j] for x in a) for j in range(w)))
        else:
            rows.add(tuple(rng.random() < 0.8 for _ in range(w)))
    rows = sorted(rows)
    rng.shuffle(rows)
    m = M(['g%d' % i for i in range(len(rows))], ['m%d' % j for j in range(w)], [list(r) for r in rows])
    if rng.random() < 0.3:
        m = m.transpose()
    t.note(context=m.show())
    c = fca.Context(m.rows, m.objs[:], m.atts[:])
    judge_reduced(t, m, model_of(c.reduce_objects()), 'reduce_objects')
    judge_reduced(t, m.transpose(), model_of(c.reduce_attributes()).transpose(), 'reduce_attributes')


def test_lattice(t):
    """the lattices correspond"""
    c, m = context(t, 5, 5)
    for what, r in (('reduce_objects', c.reduce_objects()), ('clarify_objects', c.clarify_objects())):
        if len(r.objects):
            t.eq({frozenset(x.intent) for x in r.concepts}, set(m.intents()), what + ': intents')
    r = c.reduce_attributes()
    t.eq({frozenset(m.up(x.extent)) for x in r.concepts}, set(m.intents()), 'reduce_attributes: extents')
    r = c.reduce_attributes().reduce_objects()
    t.eq(len(list(r.concepts)), len(m.intents()), 'fully reduced: number of concepts')


TESTS = [('small', test_small), ('wide', test_wide), ('meets', test_meets), ('many', test_many), ('lattice', test_lattice)]
