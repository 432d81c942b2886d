import fca
from fca.algorithms import patterns as pt
from .base import *


def build(t):
    rng = t.rng
    cp, mp = context(t, 5, 5, strings=True)
    n = rng.randint(0, 4)
    atts = list(mp.atts)
    if rng.random() < 0.5:
        rng.shuffle(atts)
    rows = [[rng.random() < rng.choice([0.2, 0.5, 0.8]) for _ in atts] for _ in range(n)]
    objs = ['n%d' % i for i in range(n)]
    mn = M(objs, atts, rows)
    t.note(negative=mn.show())
    cn = fca.Context([r[:] for r in rows], objs[:], atts[:])
    return cp, mp, cn, mn


def occurs(m, s):
    return any(set(s) <= m.intent(o) for o in m.objs)


def test_mismatch(t):
    rng = t.rng
    cp, mp = context(t, 3, 3, strings=True)
    other = [a for a in mp.atts if rng.random() < 0.6] + (['zz'] if rng.random() < 0.6 else [])
    cn = fca.Context([], [], other[:])
    t.note(negative_attributes=other)
    if set(other) == set(mp.atts):
        pt.BasicPatternExploration(cp, cn)
    else:
        t.raises((pt.AttributeMismatch,), 'different attributes', pt.BasicPatternExploration, cp, cn)


def test_history(t):
    rng = t.rng
    cp, mp, cn, mn = build(t)
    mp0, mn0 = mp.copy(), mn.copy()
    mp, mn = mp.copy(), mn.copy()
    e = pt.BasicPatternExploration(cp, cn)
    conf = []

    def judge(what):
        same(t, e.positive_cxt, mp, what + ': positive')
        same(t, e.negative_cxt, mn, what + ': negative')
        same(t, cp, mp0, what + ': positive context of the caller')
        same(t, cn, mn0, what + ': negative context of the caller')
        t.eq([set(p) for p in e.confirmed_patterns], [set(p) for p in conf], what + ': confirmed patterns')
        un = list(e.iterate_unexplained_examples())
        want = [(o, mp.intent(o)) for o in mp.objs if not any(p <= mp.intent(o) for p in conf)]
        t.eq([(o, set(i)) for o, i in un], want, what + ': unexplained examples')
        s = random_subset(rng, mp.atts)
        t.eq(bool(e.is_explained(rng.choice([set, frozenset, list])(s))), any(p <= s for p in conf), what + ': is_explained(%r)' % s)
        ex = list(e.iterate_examples(set(s)))
        t.eq(len(ex), len(mp.down(s)), what + ': number of examples of %r' % s)
        t.eq({(o, frozenset(i)) for o, i in ex}, {(o, frozenset(mp.intent(o))) for o in mp.down(s)}, what + ': examples of %r' % s)

    judge('at the start')
    for k in range(rng.randint(1, 6)):
        op = rng.choice(['confirm', 'confirm', 'neg', 'pos', 'unconfirmed'])
        what = 'after step %d (%s)' % (k, op)
        if op == 'confirm':
            s = random_subset(rng, mp.atts)
            if mp.objs and rng.random() < 0.5:
                s &= mp.intent(rng.choice(mp.objs))
            t.note(**{'op%d' % k: (op, set(s))})
            s0 = set(s)
            if not occurs(mp, s):
                t.raises((pt.NotAPositivePattern,), what, e.confirm_pattern, s)
            elif occurs(mn, s):
                t.raises((pt.NotANegativePattern,), what, e.confirm_pattern, s)
            else:
                t.check(e.confirm_pattern(s) is e, what + ': returns the exploration')
                conf.append(frozenset(s))
            t.eq(s, s0, what + ': the set given')
            if s and rng.random() < 0.3:
                s.clear()
        elif op == 'neg':
            s = random_subset(rng, mn.atts)
            p = random_subset(rng, mn.atts, 0.3) if rng.random() < 0.6 else None
            t.note(**{'op%d' % k: (op, set(s), p)})
            if p is not None and not p <= s:
                t.raises((pt.NotNegativeExample,), what, e.add_negative_example, 'neg%d' % k, s, p)
            else:
                e.add_negative_example('neg%d' % k, s, p) if p is not None else e.add_negative_example('neg%d' % k, s)
                mn.objs.append('neg%d' % k)
                mn.rows.append([a in s for a in mn.atts])
        elif op == 'pos':
            s = random_subset(rng, mp.atts)
            t.note(**{'op%d' % k: (op, set(s))})
            e.add_positive_example('pos%d' % k, s)
            mp.objs.append('pos%d' % k)
            mp.rows.append([a in s for a in mp.atts])
        else:
            got = e.get_unconfirmed_patterns_with_examples()
            pats = [(c.intent if isinstance(c, fca.Concept) else c[0]) for c in e.iterate_patterns_with_examples()]
            un = [mp.intent(o) for o in mp.objs if not any(p <= mp.intent(o) for p in conf)]
            want = [(frozenset(p), sum(set(p) <= i for i in un)) for p in pats if not any(q <= set(p) for q in conf)]
            t.eq(sorted((sorted(p), k) for p, k in got), sorted((sorted(p), k) for p, k in want), what + ': unconfirmed patterns')
            t.check(all(a[1] >= b[1] for a, b in zip(got, got[1:])), what + ': ordered by explained examples', got)
        judge(what)


def test_concepts(t):
    cp, mp, cn, mn = build(t)
    got = [(frozenset(c.extent), frozenset(c.intent)) for c in pt.iterate_positive_concepts(cp, cn)]
    red = model_of(cp.reduce_attributes().reduce_objects())
    want = {(e, i) for e, i in red.concepts() if not occurs(mn, i)}
    t.eq(len(got), len(set(got)), 'repeated concepts')
    t.eq(set(got), want, 'positive concepts')
    same(t, cp, mp, 'positive context')
    same(t, cn, mn, 'negative context')


def test_expert(t):
    rng = t.rng
    cp, mp, cn, mn = build(t)
    seen = []
    e = pt.BasicPatternExploration(cp, cn, expert=lambda p: seen.append(p) or [1, 2, 3])
    t.eq(list(e.iterate_new_objects({'q'})), [1, 2, 3], 'new objects')
    t.eq(seen, [{'q'}], 'the pattern the expert is asked about')
    gen = [({'x'}, 1), (frozenset(mp.atts[:1]), 2)]
    e = pt.BasicPatternExploration(cp, cn, pattern_generator=lambda p, n: gen)
    t.eq(list(e.iterate_patterns_with_examples()), gen, 'the generator given')
    got = e.get_unconfirmed_patterns_with_examples()
    t.eq(sorted((sorted(p), k) for p, k in got), sorted((sorted(p), sum(set(p) <= mp.intent(o) for o in mp.objs)) for p, _ in gen), 'unconfirmed patterns of the generator given')


TESTS = [('history', test_history), ('concepts', test_concepts), ('mismatch', test_mismatch), ('expert', test_expert)]
