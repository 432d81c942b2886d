import fca
from fca.algorithms import norris, iterative_norris
from . import hist
from .base import *


def judge(t, m, concepts, what):
    concepts = list(concepts)
    got = [(frozenset(c.extent), frozenset(c.intent)) for c in concepts]
    t.eq(len(got), len(set(got)), what + ': a concept occurs twice')
    want = m.concepts()
    for e, i in got:
        t.check(m.up(e) == set(i) and m.down(i) == set(e), what + ': not a concept', set(e), set(i))
    t.eq(set(got), want, what)
    t.eq(len({id(c.extent) for c in concepts} | {id(c.intent) for c in concepts}), 2 * len(concepts), what + ': concepts share sets')


def test_concepts(t):
    c, m = context(t, 6, 6)
    before = hist.frozen(c)
    judge(t, m, c.concepts, 'concepts')
    judge(t, m, c.iterate_concepts(), 'iterate_concepts')
    judge(t, m, norris(c, False), 'norris')
    cs, parents = norris(c)
    judge(t, m, cs, 'norris with parents')
    judge(t, m, iterative_norris(c), 'iterative_norris')
    judge(t, m, fca.ConceptLattice(c).concepts, 'lattice')
    t.eq(hist.frozen(c), before, 'context')
    same(t, c, m)


def test_larger(t):
    rng = t.rng
    n, k = rng.randint(5, 9), rng.randint(3, 8)
    tb = [[rng.random() < 0.6 for _ in range(k)] for _ in range(n)]
    m = M(['g%d' % i for i in range(n)], ['m%d' % i for i in range(k)], tb)
    t.note(context=m.show())
    c = fca.Context(tb, m.objs[:], m.atts[:])
    judge(t, m, c.concepts, 'concepts')
    judge(t, m, c.iterate_concepts(), 'iterate_concepts')


def test_wide(t):
    c, m = wide_context(t, n=t.rng.randint(2, 5))
    if len(m.intents()) > 200:
        return
    judge(t, m, c.concepts, 'concepts')


def test_after_edits(t):
    c, m = context(t, 4, 4)
    judge(t, m, c.concepts, 'concepts')
    for k in range(3):
        x = hist.apply(t, c, m, hist.pick_edit(t.rng), k)
        if x:
            m = hist.after_edit(t, c, *x, what='edit')
            judge(t, m, c.concepts, 'concepts')
            judge(t, m, fca.ConceptLattice(c).concepts, 'lattice')


TESTS = [('concepts', test_concepts), ('larger', test_larger), ('wide', test_wide), ('after_edits', test_after_edits)]
