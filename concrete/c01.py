import copy
import fca
from . import hist
from .base import *


def test_constructor(t):
    rng = t.rng
    n, m, tb = table(t)
    pool = ['a', 'b', 'a_0', 'a_1', 'a_2', 'b_1', 'a_0_', 1, '1', '1_0', '1_1', 2, 'a_1_', 'a_0__']
    objs = [rng.choice(pool) for _ in range(n)]
    atts = [rng.choice(pool) for _ in range(m)]
    if rng.random() < 0.2:
        objs, atts = ['x'] * n, ['x'] * m
    t.note(objects=objs, attributes=atts, table=tb)
    o2, a2, t2 = objs[:], atts[:], [r[:] for r in tb]
    c = fca.Context(t2, o2, a2)
    t.eq((o2, a2, t2), (objs, atts, tb), 'constructor arguments')
    t.eq(len(c.objects), n, 'number of objects')
    t.eq(len(c.attributes), m, 'number of attributes')
    t.eq(len(set(c.objects)), n, 'distinct objects')
    t.eq(len(set(c.attributes)), m, 'distinct attributes')
    for old, new in ((objs, c.objects), (atts, c.attributes)):
        for x, y in zip(old, new):
            if old.count(x) == 1:
                t.eq(y, x, 'a name that occurs once keeps its value')
    mod = M(c.objects, c.attributes, tb)
    same(t, c, mod)
    # the constructor copies its arguments
    for x in (o2, a2):
        x.append('later')
        x[0] = 'changed'
    for r in t2:
        for j in range(len(r)):
            r[j] = not r[j]
    same(t, c, mod, 'after the arguments change')


def test_rejects(t):
    rng = t.rng
    n, m = rng.randint(0, 5), rng.randint(0, 5)
    tb = [[rng.random() < 0.5 for _ in range(m)] for _ in range(n)]
    dn, dm = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1), (2, 0), (0, 2), (1, 1), (0, -2), (-2, 0)])
    if n + dn < 0 or m + dm < 0 or (n == 0 and dn == 0):
        return
    t.note(rows=n, columns=m, objects=n + dn, attributes=m + dm)
    t.raises((ValueError,), 'mismatched dimensions', fca.Context, tb, list(range(n + dn)), list(range(m + dm)))


def test_ragged(t):
    rng = t.rng
    n, m = rng.randint(2, 5), rng.randint(1, 5)
    tb = [[rng.random() < 0.5 for _ in range(m)] for _ in range(n)]
    i = rng.randrange(1, n)
    if rng.random() < 0.5:
        tb[i].append(True)
    else:
        tb[i].pop()
    t.note(table=tb)
    t.raises((ValueError,), 'ragged table', fca.Context, tb, list(range(n)), list(range(m)))


def test_history(t):
    rng = t.rng
    c, m = context(t, 5, 5)
    same(t, c, m)
    for k in range(rng.randint(1, 12)):
        if rng.random() < 0.15:
            hist.failing_edit(t, c, m)
            continue
        x = hist.apply(t, c, m, hist.pick_edit(rng), k)
        if x is None:
            continue
        m = hist.after_edit(t, c, *x, what='after edit %d' % k)


def test_shrink_grow(t):
    """down to nothing and up again"""
    rng = t.rng
    c, m = context(t, 3, 3)
    k = 0
    while (m.objs or m.atts) and k < 10:
        ops = (['delete_object'] if m.objs else []) + (['delete_attribute', 'delete_attributes'] if m.atts else [])
        x = hist.apply(t, c, m, rng.choice(ops), k)
        m = hist.after_edit(t, c, *x, what='after edit %d' % k)
        k += 1
    for k in range(k, k + 5):
        x = hist.apply(t, c, m, rng.choice(hist.EDITS[:4]), k)
        m = hist.after_edit(t, c, *x, what='after edit %d' % k)


def test_wide(t):
    c, m = wide_context(t)
    same(t, c, m)
    for k in range(2):
        x = hist.apply(t, c, m, hist.pick_edit(t.rng), k)
        if x:
            m = hist.after_edit(t, c, *x, what='after edit %d' % k)


TESTS = [('constructor', test_constructor), ('rejects', test_rejects), ('ragged', test_ragged), ('history', test_history), ('shrink_grow', test_shrink_grow), ('wide', test_wide)]
