import copy
import fca
from fca.context import MultiplicationException
from . import hist
from .base import *


def test_transpose(t):
    c, m = context(t)
    before = hist.frozen(c)
    x = c.transpose()
    same(t, x, m.transpose(), 'transpose')
    same(t, x.transpose(), m, 'double transpose')
    t.check(x.transpose() == c and c == x.transpose(), 'involution')
    t.eq(hist.frozen(c), before, 'context')


def test_complement(t):
    c, m = context(t, strings=True)
    before = hist.frozen(c)
    neg = [[not x for x in r] for r in m.rows]
    na = ['not ' + a for a in m.atts]
    same(t, c.complementary(), M(m.objs, na, neg), 'complementary')
    same(t, c.compound(), M(m.objs, m.atts + na, [a + b for a, b in zip(m.rows, neg)]), 'compound')
    t.eq(hist.frozen(c), before, 'context')


def test_product(t):
    rng = t.rng
    c, m = context(t, 5, 5)
    k = rng.randint(0, 5)
    d = rng.choice([0.2, 0.5, 0.8])
    rows = [[rng.random() < d for _ in range(k)] for _ in m.atts]
    r = M(m.atts, ['r%d' % j for j in range(k)], rows)
    t.note(right=r.show())
    cr = fca.Context(rows, r.objs[:], r.atts[:])
    b1, b2 = hist.frozen(c), hist.frozen(cr)
    p = c * cr
    want = [[any(m.rows[i][x] and rows[x][j] for x in range(len(m.atts))) for j in range(k)] for i in range(len(m.objs))]
    same(t, p, M(m.objs, r.atts, want), 'product')
    t.eq((hist.frozen(c), hist.frozen(cr)), (b1, b2), 'operands')
    if len(m.atts) > 1:
        q = m.atts[:]
        q[0], q[1] = q[1], q[0]
        bad = fca.Context(rows, q, r.atts[:])
        t.raises((MultiplicationException,), 'product with other middle names', lambda: c * bad)
    t.raises((MultiplicationException,), 'product with another number of middle names', lambda: c * fca.Context([[True]] * (len(m.atts) + 1), m.atts + ['*extra*'], ['z']))


def test_product_many(t):
    """more middle elements than a byte can count"""
    rng = t.rng
    k = rng.choice([254, 255, 256, 257, 300, 512])
    rows = [[True] * k, [False] * k, [rng.random() < 0.5 for _ in range(k)]]
    l = fca.Context(rows, ['a', 'b', 'c'], list(range(k)))
    cols = [[True, rng.random() < 0.5] for _ in range(k)]
    r = fca.Context(cols, list(range(k)), ['x', 'y'])
    want = [[any(rows[i][x] and cols[x][j] for x in range(k)) for j in range(2)] for i in range(3)]
    t.note(k=k)
    t.eq([[bool(x) for x in q] for q in (l * r).table], want, 'product')


def test_subcontext(t):
    rng = t.rng
    c, m = context(t)
    before = hist.frozen(c)
    sel = [a for a in m.atts if rng.random() < 0.6]
    rng.shuffle(sel)
    t.note(selected=sel)
    keep = sel[:]
    r = c.extract_subcontext(sel)
    t.eq(sel, keep, 'argument')
    same(t, r, M(m.objs, sel, [[row[m.atts.index(a)] for a in sel] for row in m.rows]), 'extract_subcontext')
    for mode, q in (('and', all), ('or', any), (None, all)):
        r = c.extract_subcontext_filtered_by_attributes(sel, mode) if mode else c.extract_subcontext_filtered_by_attributes(sel)
        idx = [i for i in range(len(m.objs)) if q(m.rows[i][m.atts.index(a)] for a in sel)]
        t.eq(sel, keep, 'argument')
        same(t, r, M([m.objs[i] for i in idx], m.atts, [m.rows[i] for i in idx]), 'filtered by attributes, mode %s' % mode)
    t.eq(hist.frozen(c), before, 'context')
    t.raises((ValueError,), 'unknown attribute', c.extract_subcontext, sel + ['*none*'])
    t.raises((ValueError,), 'unknown attribute', c.extract_subcontext_filtered_by_attributes, sel + ['*none*'])
    t.raises((ValueError,), 'unknown attribute', c.extract_subcontext, sel + [('no', 'name')])


def test_equality(t):
    rng = t.rng
    c, m = context(t, 4, 4)
    oi, ai = list(range(len(m.objs))), list(range(len(m.atts)))
    rng.shuffle(oi), rng.shuffle(ai)
    d = M([m.objs[i] for i in oi], [m.atts[j] for j in ai], [[m.rows[i][j] for j in ai] for i in oi])
    kind = rng.randrange(7)
    want = True
    if kind == 1 and oi and ai:
        i, j = rng.randrange(len(oi)), rng.randrange(len(ai))
        d.rows[i][j] = not d.rows[i][j]
        want = False
    elif kind == 2 and oi:
        d.objs[rng.randrange(len(oi))] = '*other*'
        want = False
    elif kind == 3 and ai:
        d.atts[rng.randrange(len(ai))] = '*other*'
        want = False
    elif kind == 4:
        d.objs.append('*more*')
        d.rows.append([False] * len(ai))
        want = False
    elif kind == 5:
        d.atts.append('*more*')
        for r in d.rows:
            r.append(False)
        want = False
    elif kind == 6 and len(oi) > 1:
        k = list(range(len(oi)))
        rng.shuffle(k)
        d.rows = [d.rows[x] for x in k]
        want = {(o, frozenset(d.intent(o))) for o in d.objs} == {(o, frozenset(m.intent(o))) for o in m.objs}
    t.note(other=d.show())
    x = fca.Context(d.rows, d.objs[:], d.atts[:])
    b1, b2 = hist.frozen(c), hist.frozen(x)
    t.eq(bool(c == x), want, 'equality')
    t.eq(bool(x == c), want, 'equality, swapped')
    t.eq(bool(c != x), not want, 'inequality')
    t.check(c == c, 'equal to itself')
    t.eq((hist.frozen(c), hist.frozen(x)), (b1, b2), 'operands')


def test_after_edits(t):
    c, m = context(t, 4, 4)
    for k in range(3):
        x = hist.apply(t, c, m, hist.pick_edit(t.rng), k)
        if x:
            m = hist.after_edit(t, c, *x, what='edit')
            same(t, c.transpose(), m.transpose(), 'transpose')
            t.check(c == fca.Context(m.rows, m.objs[:], m.atts[:]), 'equal to a fresh context')
            sel = [a for a in m.atts if t.rng.random() < 0.6]
            same(t, c.extract_subcontext(sel), M(m.objs, sel, [[row[m.atts.index(a)] for a in sel] for row in m.rows]), 'extract_subcontext')


TESTS = [('transpose', test_transpose), ('complement', test_complement), ('product', test_product), ('product_many', test_product_many), ('subcontext', test_subcontext),
         ('equality', test_equality), ('after_edits', test_after_edits)]
