import fca
from fca.algorithms import norris, compute_covering_relation
from .base import *


def covers(concepts):
    up = {}
    for c in concepts:
        bigger = [d for d in concepts if d.intent < c.intent]
        up[id(c)] = {id(d) for d in bigger if not any(d.intent < e.intent < c.intent for e in concepts)}
    return up


def ids(t, concepts, got, what):
    by = {}
    for c in concepts:
        by[(frozenset(c.extent), frozenset(c.intent))] = id(c)
    got = list(got)
    out = [by.get((frozenset(g.extent), frozenset(g.intent))) for g in got]
    t.check(None not in out, what + ': unknown concept')
    t.eq(len(out), len(set(out)), what + ': repeated concept')
    return set(out)


def judge(t, cs, concepts, what, lattice=False):
    """cs: the object under test, concepts: its concepts"""
    up = covers(concepts)
    t.eq(len(cs), len(concepts), what + ': len')
    t.eq([id(c) for c in cs], [id(c) for c in concepts], what + ': iteration order')
    for c in concepts:
        copy = fca.Concept(set(c.extent), set(c.intent))
        for q in (c, copy):
            t.eq(ids(t, concepts, cs.parents(q), what), up[id(c)], what + ': parents of %s' % c)
            t.eq(ids(t, concepts, cs.children(q), what), {id(d) for d in concepts if id(c) in up[id(d)]}, what + ': children of %s' % c)
            t.eq(ids(t, concepts, cs.filter(q), what), {id(d) for d in concepts if d.intent < c.intent}, what + ': filter of %s' % c)
            t.eq(ids(t, concepts, cs.ideal(q), what), {id(d) for d in concepts if d.intent > c.intent}, what + ': ideal of %s' % c)
            t.check(q in cs, what + ': membership')
            t.check(concepts[cs.index(q)] == c, what + ': index')
    if concepts:
        tops = [c for c in concepts if all(c.intent <= d.intent for d in concepts)]
        bots = [c for c in concepts if all(c.intent >= d.intent for d in concepts)]
        if lattice:
            t.check(len(tops) == len(bots) == 1, what + ': bounded')
        if tops:
            t.check(cs.top_concept in tops, what + ': top', cs.top_concept)
        if bots:
            t.check(cs.bottom_concept in bots, what + ': bottom', cs.bottom_concept)
    t.check(fca.Concept({'*nothing*'}, {'*nothing*'}) not in cs, what + ': membership of a foreign concept')


def test_lattice(t):
    c, m = context(t, 5, 5)
    l = fca.ConceptLattice(c)
    judge(t, l, list(l.concepts), 'lattice', True)
    t.check(l.context is c, 'context of the lattice')
    f = t.rng.choice([fca.algorithms.filtering.compute_estability, fca.compute_istability, fca.compute_separation_index])
    fca.compute_index(l, f, 'index')
    if t.rng.random() < 0.5:
        for x in l:
            x.meta['n'] = len(x.extent)
    judge(t, l, list(l.concepts), 'lattice after annotation', True)


def random_concepts(t):
    rng = t.rng
    out, seen = [], set()
    style = rng.randrange(3)
    for _ in range(rng.randint(0, 9)):
        i = frozenset(random_subset(rng, 'abcd'))
        e = frozenset(random_subset(rng, range(4))) if style == 0 else frozenset(range(5 - len(i)))
        if (style and i in {y for _, y in seen}) or (e, i) in seen:
            continue
        seen.add((e, i))
        out.append(fca.Concept(e, i))
    t.note(concepts=[(set(c.extent), set(c.intent)) for c in out])
    return out


def test_cover_function(t):
    cs = random_concepts(t)
    for f in (compute_covering_relation, lambda x: fca.ConceptSystem(x).compute_covering_relation(), lambda x: compute_covering_relation(fca.ConceptSystem(x))):
        p = f(list(cs))
        t.eq(len(p), len(cs), 'keys of the covering relation')
        up = covers(cs)
        for c in cs:
            t.eq(ids(t, cs, p[c], 'parents'), up[id(c)], 'parents of %s' % c)


def test_system(t):
    rng = t.rng
    if rng.random() < 0.5:
        c, m = context(t, 4, 4)
        cur = list(c.concepts)
        rng.shuffle(cur)
    else:
        cur = random_concepts(t)
    given = list(cur)
    cs = fca.ConceptSystem(given)
    judge(t, cs, cur, 'system')
    pool = [fca.Concept(x.extent, x.intent) for x in random_concepts(t)]
    for k in range(rng.randint(1, 6)):
        op = rng.randrange(3)
        if op == 0 and pool:
            x = pool.pop()
            if x in cur:
                continue
            t.note(**{'append%d' % k: x})
            cs.append(x)
            cur.append(x)
        elif op == 1 and cur:
            x = rng.choice(cur)
            t.note(**{'remove%d' % k: x})
            cs.remove(fca.Concept(x.extent, x.intent) if rng.random() < 0.5 else x)
            cur.remove(x)
        elif op == 2:
            t.note(**{'annotate%d' % k: 1})
            for x in cur:
                x.meta['v'] = rng.random()
        if rng.random() < 0.7:
            judge(t, cs, cur, 'system after step %d' % k)
        elif cur:
            cs.parents(rng.choice(cur))
            cs.children(rng.choice(cur))
    judge(t, cs, cur, 'system at the end')
    t.eq([id(x) for x in given], [id(x) for x in given], 'caller list')
    t.check(len(given) == len(list(given)), 'caller list')
    t.raises((TypeError,), 'appending something else', cs.append, 'x')


def test_caller_list(t):
    cs = random_concepts(t)
    given = list(cs)
    s = fca.ConceptSystem(given)
    x = fca.Concept({'q'}, {'q'})
    s.append(x)
    t.eq(len(given), len(cs), 'the list given by the caller after append')
    if cs:
        s.remove(cs[0])
        t.eq(len(given), len(cs), 'the list given by the caller after remove')
    e1, e2 = fca.ConceptSystem(), fca.ConceptSystem()
    e1.append(x)
    t.eq(len(e2), 0, 'another empty system')
    t.eq(len(fca.ConceptSystem()), 0, 'a new empty system')


TESTS = [('lattice', test_lattice), ('cover_function', test_cover_function), ('system', test_system), ('caller_list', test_caller_list)]
