import copy
import fca
from . import hist
from .base import *


def derive(t, c, m):
    """a context derived from c that must not follow later edits"""
    rng = t.rng
    k = rng.randrange(9)
    if k == 0:
        return 'deepcopy', copy.deepcopy(c)
    if k == 1:
        return 'transpose', c.transpose()
    if k == 2 and all(isinstance(a, str) for a in m.atts):
        return 'complementary', c.complementary()
    if k == 3 and all(isinstance(a, str) for a in m.atts):
        return 'compound', c.compound()
    if k == 4:
        return 'extract_subcontext', c.extract_subcontext([a for a in m.atts if rng.random() < 0.6])
    if k == 5 and m.atts:
        return 'filtered', c.extract_subcontext_filtered_by_attributes([rng.choice(m.atts)], rng.choice(['and', 'or']))
    if k == 6:
        return 'clarify', c.clarify_objects()
    if k == 7:
        return 'reduce', c.reduce_objects()
    if k == 8 and m.objs:
        return 'product', c * c.transpose() if False else c.__mul__(fca.Context([[True]] * len(m.atts), m.atts[:], ['z']))
    return 'copy', fca.Context(c.table, c.objects, c.attributes)


def test_edit(t):
    rng = t.rng
    c, m = context(t, 5, 5)
    for k in range(rng.randint(1, 4)):
        what, d = derive(t, c, m)
        t.note(**{'derived%d' % k: what})
        snap = hist.frozen(d)
        direction = rng.random() < 0.7
        x = hist.apply(t, c, m, hist.pick_edit(rng), k)
        if x is None:
            continue
        m = hist.after_edit(t, c, *x, what='after edit %d' % k)
        t.eq(hist.frozen(d), snap, '%s made before the edit' % what)
        # and the other way round
        md = model_of(d)
        own = hist.frozen(c)
        x = hist.apply(t, d, md, hist.pick_edit(rng), 100 + k)
        if x is not None:
            hist.after_edit(t, d, *x, what='edit of the %s' % what)
            t.eq(hist.frozen(c), own, 'context after an edit of its %s' % what)
            same(t, c, m, 'context after an edit of its %s' % what)


def test_each_edit(t):
    """every edit on every kind of context, with new names that do not collide"""
    rng = t.rng
    c, m = context(t, 4, 4)
    op = hist.EDITS[t.i % len(hist.EDITS)]
    x = hist.apply(t, c, m, op, 0, collide=False)
    if x is None:
        return
    lo, la, r = x
    t.check(not lo and not la, 'harness: no collision')
    same(t, c, r, 'after ' + op)


def test_unknown(t):
    c, m = context(t, 4, 4)
    for _ in range(4):
        hist.failing_edit(t, c, m)


def test_deepcopy(t):
    c, m = context(t, 4, 4)
    d = copy.deepcopy(c)
    same(t, d, m, 'deep copy')
    x = hist.apply(t, c, m, hist.pick_edit(t.rng), 0)
    same(t, d, m, 'deep copy after an edit of the original')
    c2, m2 = context(t, 4, 4)
    d2 = copy.deepcopy(c2)
    hist.apply(t, d2, m2.copy(), hist.pick_edit(t.rng), 1)
    same(t, c2, m2, 'original after an edit of the deep copy')


TESTS = [('edit', test_edit), ('each_edit', test_each_edit), ('unknown', test_unknown), ('deepcopy', test_deepcopy)]
