import copy
import fca
from fca.partial_context import PartialContext
from fca.compare_context import subseteq_table
from .base import *
from .c06 import random_imps


def partial(t, max_n=5, max_m=5, min_n=0):
    rng = t.rng
    while True:
        n, m, x = table(t, max_n, max_m)
        if n >= min_n:
            break
        t.i = 2 * t.rng.randrange(1000) + t.rng.randrange(2)
    d = rng.choice([0, 0.2, 0.5, 0.9])
    q = [[bool(c) or rng.random() < d for c in r] for r in x]
    objs, atts = names(t, n, 'g', True), names(t, m, 'm', True)
    mx, mq = M(objs, atts, x), M(objs, atts, q)
    t.note(certain=mx.show(), possible=mq.rows)
    return PartialContext([r[:] for r in x], [r[:] for r in q], objs[:], atts[:]), mx, mq


def same_partial(t, p, mx, mq, what='partial context'):
    t.eq(list(p.objects), mx.objs, what + ': objects')
    t.eq(list(p.attributes), mx.atts, what + ': attributes')
    same(t, p.x_context, mx, what + ': certain')
    same(t, p.q_context, mq, what + ': possible')
    t.eq([(set(a), set(b)) for a, b in p.intents()], [(mx.intent(o), mq.intent(o)) for o in mx.objs], what + ': intents')


def test_accept(t):
    """accepted iff certain is within possible"""
    rng = t.rng
    n, m, x = table(t, 4, 4)
    q = [[bool(c) or rng.random() < 0.5 for c in r] for r in x]
    ok = True
    if rng.random() < 0.6:
        for _ in range(rng.randint(1, 2)):
            if n and m:
                i, j = rng.randrange(n), rng.randrange(m)
                q[i][j] = not q[i][j]
    ok = all(a <= b for r, s in zip(x, q) for a, b in zip(r, s))
    t.note(certain=x, possible=q)
    x0, q0 = [r[:] for r in x], [r[:] for r in q]
    t.eq(bool(subseteq_table(x, q)), ok, 'subseteq_table')
    t.eq((x, q), (x0, q0), 'subseteq_table: its arguments')
    objs, atts = ['g%d' % i for i in range(n)], ['m%d' % i for i in range(m)]
    if ok:
        p = PartialContext(x, q, objs, atts)
        same_partial(t, p, M(objs, atts, x), M(objs, atts, q))
    else:
        t.raises((ValueError,), 'certain not within possible', PartialContext, x, q, objs, atts)


def test_sizes(t):
    rng = t.rng
    n, m = rng.randint(1, 4), rng.randint(1, 4)
    n2, m2 = rng.choice([(n + 1, m), (n, m + 1), (n - 1, m), (n, m - 1), (0, 0)])
    x = [[False] * m for _ in range(n)]
    q = [[True] * m2 for _ in range(n2)]
    t.note(certain=x, possible=q)
    t.raises((ValueError,), 'tables of different size', subseteq_table, x, q)
    t.raises((ValueError,), 'tables of different size', PartialContext, x, q, list(range(n)), list(range(m)))


def test_add(t):
    rng = t.rng
    p, mx, mq = partial(t)
    for k in range(rng.randint(1, 4)):
        a, b = random_subset(rng, mx.atts), random_subset(rng, mx.atts)
        if rng.random() < 0.6:
            b |= a
        name = 'new%d' % k
        t.note(**{'add%d' % k: (a, b, name)})
        a0, b0 = set(a), set(b)
        if a <= b:
            p.add_object_with_intent((a, b), name)
            mx.objs.append(name)
            mq.objs.append(name)
            mx.rows.append([y in a for y in mx.atts])
            mq.rows.append([y in b for y in mx.atts])
        else:
            t.raises((ValueError,), 'inconsistent example', p.add_object_with_intent, (a, b), name)
        t.eq((a, b), (a0, b0), 'the intents given')
        same_partial(t, p, mx, mq, 'after adding')


def test_closure(t):
    rng = t.rng
    p, mx, mq = partial(t, 5, 4)
    for s in subsets(mx.atts):
        s0 = set(s)
        want = {a for a in mq.atts if all(a in mq.intent(o) for o in mx.down(s))}
        t.eq(set(p.xq_aclosure(s)), want, 'xq_aclosure(%r)' % (s0,))
        t.eq(s, s0, 'the set given')
    same_partial(t, p, mx, mq, 'after closures')
    r = p.get_attribute_implications()
    for i in r:
        t.eq(set(i._conclusion) | set(i._premise), {a for a in mq.atts if all(a in mq.intent(o) for o in mx.down(i._premise))}, 'partial basis: conclusion of %s' % i)
    same_partial(t, p, mx, mq, 'after the basis')


def test_copies(t):
    rng = t.rng
    p, mx, mq = partial(t, 4, 4)
    d = copy.deepcopy(p)
    same_partial(t, d, mx, mq, 'deep copy')
    tr = p.transpose()
    same_partial(t, tr, mx.transpose(), mq.transpose(), 'transposed') if mx.objs else None
    d.add_object_with_intent((set(), set(mx.atts)), 'extra')
    same_partial(t, p, mx, mq, 'original after the copy changed')
    p.add_object_with_intent((set(mx.atts), set(mx.atts)), 'extra2')
    if mx.objs:
        same_partial(t, tr, mx.transpose(), mq.transpose(), 'transposed after the original changed')
    t.eq(len(d.objects), len(mx.objs) + 1, 'objects of the copy')


def test_complete(t):
    rng = t.rng
    p, mx, mq = partial(t, 4, 5, min_n=1)
    imps = random_imps(t, mx.atts, rng.randint(0, 4))
    if rng.random() < 0.6:
        # implications consistent with the examples
        imps = [fca.Implication(i._premise, i._conclusion & set.intersection(set(mx.atts), *[mq.intent(o) for o in mx.objs if i._premise <= mx.intent(o)])) for i in imps]
    prs = [(set(i._premise), set(i._conclusion)) for i in imps]
    t.note(implications=prs)
    snap = imp_snapshot(imps)
    ok = all(clos(prs, mx.intent(o)) <= mq.intent(o) for o in mx.objs)
    if not ok:
        t.raises((ValueError,), 'an object that cannot be completed', p.complete, imps)
        for a, b in zip(p.x_context.intents(), p.q_context.intents()):
            t.check(a <= b, 'certain within possible after the error', a, b)
    else:
        p.complete(imps)
        nx = [clos(prs, mx.intent(o)) for o in mx.objs]
        nq = [{a for a in mq.intent(o) if clos(prs, x | {a}) <= mq.intent(o)} for o, x in zip(mx.objs, nx)]
        same_partial(t, p, M(mx.objs, mx.atts, [[a in x for a in mx.atts] for x in nx]), M(mx.objs, mx.atts, [[a in x for a in mx.atts] for x in nq]), 'completed')
    t.eq(imp_snapshot(imps), snap, 'the implications')


def test_refines(t):
    """completing twice gives the same; partial examples respect the implications afterwards"""
    rng = t.rng
    p, mx, mq = partial(t, 4, 5, min_n=1)
    imps = random_imps(t, mx.atts, rng.randint(1, 4))
    try:
        p.complete(imps)
    except ValueError:
        return
    for x, q in p.intents():
        t.check(x <= q, 'certain within possible', x, q)
        for i in imps:
            t.check(i.is_respected((x, q)), 'completed examples respect the implications', x, q, str(i))
            t.check(not i._premise <= x or i._conclusion <= x, 'certain intents are closed', x, str(i))


TESTS = [('accept', test_accept), ('sizes', test_sizes), ('add', test_add), ('closure', test_closure), ('copies', test_copies), ('complete', test_complete), ('refines', test_refines)]
