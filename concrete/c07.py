import copy
import fca
from fca import Implication, NegativeImplication, UnitImplication, Concept
from .base import *


def rset(t, xs='abcd'):
    return random_subset(t.rng, xs)


def kinds(s):
    return [set(s), list(s), tuple(s), frozenset(s)]


def test_store(t):
    p, c = rset(t), rset(t)
    t.note(premise=p, conclusion=c)
    for cls in (Implication, NegativeImplication):
        for k in range(4):
            a, b = kinds(p)[k], kinds(c)[k]
            i = cls(a, b)
            if k == 0:
                a.add('later'), b.add('later')
            elif k == 1:
                a.append('later'), b.append('later')
            t.eq(i.premise, p, 'premise')
            t.eq(i.get_premise(), p, 'get_premise')
            t.eq(i.conclusion, c - p, 'conclusion')
            t.eq(i.get_conclusion(), c, 'get_conclusion')
            t.eq(i.get_reduced_conclusion(), c - p, 'reduced conclusion')
            x = i.conclusion
            x.add('mine')
            t.eq(i.conclusion, c - p, 'conclusion after changing the returned set')
            t.check(type(i.premise) is set and type(i._conclusion) is set, 'stored as sets')
    s = set(p)
    i = Implication(s, s)
    i._premise.add('q')
    t.check('q' not in i._conclusion and 'q' not in s, 'premise and conclusion are separate copies')
    d = copy.deepcopy(i)
    d._premise.add('z'), d._conclusion.add('z')
    t.check('z' not in i._premise and 'z' not in i._conclusion, 'deep copy is separate')
    e = Implication()
    e._premise.add('z'), e._conclusion.add('y')
    t.eq((Implication().premise, Implication()._conclusion), (set(), set()), 'defaults')


def test_respected(t):
    p, c, s, q = rset(t), rset(t), rset(t), rset(t)
    q |= s
    t.note(premise=p, conclusion=c, set=s, possible=q)
    snap = (set(s), set(q))
    i, n = Implication(p, c), NegativeImplication(p, c)
    t.eq(bool(i.is_respected(s)), not p <= s or c <= s, 'is_respected by a set')
    t.eq(bool(i.is_respected((s, q))), not p <= s or (c - p) <= q, 'is_respected by a partial example')
    r = c - p
    t.eq(bool(n.is_respected(s)), not p <= s or not (r & s), 'negative: is_respected by a set')
    t.eq(bool(n.is_respected((s, q))), not p <= s or not (r & q), 'negative: is_respected by a partial example')
    t.eq((s, q), snap, 'arguments')
    t.eq((i._premise, i._conclusion, n._premise, n._conclusion), (p, c, p, c), 'implication after the test')
    x = t.rng.choice('abcd')
    if x not in p:
        u = UnitImplication(p, x)
        t.eq(u.conclusion, {x}, 'unit conclusion')
        t.eq(u.premise, p, 'unit premise')
        t.eq(bool(u.is_respected(s)), not p <= s or x in s, 'unit: is_respected')


def test_equal(t):
    rng = t.rng
    xs = rng.choice(['ab', 'abc', 'abcd'])
    p, c, p2, c2 = rset(t, xs), rset(t, xs), rset(t, xs), rset(t, xs)
    if rng.random() < 0.5:
        p2 = set(p)
        if rng.random() < 0.6:
            c2 = (c - p) | rset(t, sorted(p))
    if rng.random() < 0.2:
        p2, c2 = c, p
    t.note(first=(p, c), second=(p2, c2))
    a, b = Implication(p, c), Implication(p2, c2)
    w = p == p2 and c - p == c2 - p2
    t.eq(bool(a == b), w, 'implication equality')
    t.eq(bool(a != b), not w, 'implication inequality')
    t.eq(bool(b == a), w, 'implication equality')
    if w:
        t.eq(hash(a), hash(b), 'hash of equal implications')
    t.eq(len({a, b}), 1 if w else 2, 'set of implications')
    t.eq(b in [a], w, 'list membership')
    t.eq({a: 1}.get(b), 1 if w else None, 'dictionary lookup')
    n = NegativeImplication(p2, c2)
    a, b = Concept(p, c), Concept(p2, c2)
    w = p == p2 and c == c2
    b.meta = {'x': 1}
    t.eq(bool(a == b), w, 'concept equality')
    t.eq(bool(a != b), not w, 'concept inequality')
    if w:
        t.eq(hash(a), hash(b), 'hash of equal concepts')
    t.eq(len({a, b}), 1 if w else 2, 'set of concepts')
    t.check(not (a == (p, c)), 'a concept is not a tuple')


def test_concept(t):
    e, i = rset(t), rset(t)
    t.note(extent=e, intent=i)
    for k in range(4):
        a, b = kinds(e)[k], kinds(i)[k]
        c = Concept(a, b)
        if k == 0:
            a.add('later'), b.add('later')
        t.eq((c.extent, c.intent), (e, i), 'stored')
        ps = list(c.pairs())
        t.eq(len(ps), len(e) * len(i), 'number of pairs')
        t.eq(set(ps), {(x, y) for x in e for y in i}, 'pairs')
        t.eq(c.meta, {}, 'meta')
    c1, c2 = Concept(e, i), Concept(e, i)
    c1.meta['x'] = 1
    t.eq(c2.meta, {}, 'meta is not shared')
    s = set(e)
    c = Concept(s, s)
    c.extent.add('q')
    t.check('q' not in c.intent and 'q' not in s, 'extent and intent are separate copies')


TESTS = [('store', test_store), ('respected', test_respected), ('equal', test_equal), ('concept', test_concept)]
