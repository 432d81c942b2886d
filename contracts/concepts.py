"""Concepts, their order and covers (C05)."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem, card
from engine.contract import Contract, Lemma, LoopC, Fn, Lit, Inst, Either, Opaque, Opt
from engine.core import *
from engine.views import SHAPES, ListView, view, HeapMixin
from .ctxdef import SV
from .ctxnew import INT2, within, all_i

CON = ('ref', 'Concept')
CK = L.key_sort(CON)
LA = ArraySort(IntSort(), IntSort())
HS = ArraySort(IntSort(), SV)
CKS = Function('ConceptKeys', HS, HS, LA, IntSort(), ArraySort(CK, BoolSort()))   # the values of the concepts in a list


def _axioms():
    E, N = Consts('E N', HS)
    a, q = Const('a', LA), Const('q', CK)
    n, i = Ints('n i')
    s = CKS(E, N, a, n)
    key = lambda r: L.mk_tuple([E[r], N[r]])
    L.axiom('ConceptKeys', 'concepts of a list: in', ForAll([E, N, a, n, i], Implies(And(0 <= i, i < n), s[key(a[i])]), patterns=[MultiPattern(s, a[i])]))
    w = Function('ckw', HS, HS, LA, IntSort(), CK, IntSort())(E, N, a, n, q)
    L.axiom('ConceptKeys', 'concepts of a list: witness', ForAll([E, N, a, n, q], Implies(s[q], And(0 <= w, w < n, q == key(a[w]))), patterns=[s[q]]))


_axioms()


def ckey(S, r):
    return L.mk_tuple([S.ext(r), S.int(r)])


def keys(S, lst, n=None):
    E, N = S.hc()
    assert is_int_value(lst.off) and lst.off.as_long() == 0
    return CKS(E, N, lst.arr, lst.n if n is None else n)


def ki(q):
    return L.proj(q, 1)


def less(a, b):
    return And(sub(a, b), a != b)


def between(S, lst, x, q, n=None):
    """no concept of the list lies strictly between"""
    return Not(S.exists([CK], lambda z: And(keys(S, lst, n)[z], less(ki(x), ki(z)), less(ki(z), ki(q)))))


def cover(S, lst, x, q):
    return And(less(ki(x), ki(q)), between(S, lst, x, q))


def covers_are(S, lst, P, f):
    return [('an entry for every concept', P.dom == keys(S, lst)), ('parents', S.forall([CK, CK], lambda q, x: Implies(keys(S, lst)[q], P[q][x] == f(q, x)), lambda q, x: P[q][x]))]


def outer(lst):
    def inv(S):
        cs, P = lst(S), S.parents
        return covers_are(S, cs, P, lambda q, x: And(keys(S, cs, S.k)[x], cover(S, cs, x, q)))
    return LoopC(inv, at_end=lambda S: [next_key(S, lst(S), S.k)])


def next_key(S, cs, k):
    x = ckey(S, cs[k])
    return ('one concept more', keys(S, cs, k + 1) == L.add(keys(S, cs, k), x))


def middle(lst):
    def inv(S):
        cs, P = lst(S), S.parents
        e = ckey(S, cs[S.i])
        return covers_are(S, cs, P, lambda q, x: Or(And(keys(S, cs, S.i)[x], cover(S, cs, x, q)), And(x == e, keys(S, cs, S.k)[q], cover(S, cs, x, q))))
    return LoopC(inv, at_end=lambda S: [next_key(S, lst(S), S.k)])


def inner(lst):
    def inv(S):
        cs, P = lst(S), S.parents
        e, f = ckey(S, cs[S.i]), ckey(S, cs[S.j])
        return covers_are(S, cs, P, lambda q, x: Or(And(x == e, q == f), And(keys(S, cs, S.i)[x], cover(S, cs, x, q)), And(x == e, keys(S, cs, S.j)[q], cover(S, cs, x, q)))) + \
            [('none between so far', Not(S.exists([CK], lambda z: And(keys(S, cs, S.k)[z], less(ki(e), ki(z)), less(ki(z), ki(f))))))]
    return LoopC(inv, at_end=lambda S: [next_key(S, lst(S), S.k)])


LC = ('list', CON)
DP = ('dict', CON, ('set', CON))


def covering(q, params, lst):
    return Contract(q, params, returns=DP, empties={'set': CON}, props=('C05', 'C13'), ensures=lambda S: covers_are(S, lst(S), S.result, lambda q, x: And(keys(S, lst(S))[x], cover(S, lst(S), x, q))),
                    loops={0: outer(lst), 1: middle(lst), 2: inner(lst)})


contracts = [covering('fca/algorithms/norris.py:compute_covering_relation', {'cs': LC}, lambda S: S.cs)]


# ---- a set of concepts
def known_parents(w):
    """the table of parents, when there is one, belongs to the concepts"""
    P = w._parents
    if P is None:
        return []
    return covers_are(w_state(w), w._concepts, P, lambda q, x: And(keys(w_state(w), w._concepts)[x], cover(w_state(w), w._concepts, x, q)))


class w_state(HeapMixin):
    def __init__(self, w):
        self._it, self._state = w._it, w._st


SHAPES['ConceptSystem'] = {'fields': {'_concepts': LC, '_parents': Opt(DP), '_bottom_concept': Lit(None), '_top_concept': Lit(None)}, 'inv': known_parents}
CSY = Inst('ConceptSystem', fields={'_parents': DP})
NOPAR = Inst('ConceptSystem', fields={'_parents': Lit(None)})
C = 'fca/concept_system.py:ConceptSystem.'


def smaller(S):
    """concepts with properly fewer attributes"""
    cs = S.self._concepts
    return S.forall([IntSort()], lambda r: S.result.set[r] == And(cs.set[r], less(S.int(r), S.int(S.concept))), lambda r: S.result.set[r])


def emptiness(S, f):
    cs, r = S.self._concepts, S.result
    return [('not empty when there is one', S.forall([IntSort()], lambda i: Implies(And(within(i, cs.n), f(cs[i])), r.n >= 1), lambda i: [[cs[i], r.n]])), ('the first of them', Implies(r.n >= 1, And(cs.set[r[0]], f(r[0]))))]


def larger(S):
    cs = S.self._concepts
    return S.forall([IntSort()], lambda r: S.result.set[r] == And(cs.set[r], less(S.int(S.concept), S.int(r))), lambda r: S.result.set[r])


for ty, v in ((CSY, ''), (NOPAR, 'no parents yet')):
    contracts += [
        Contract(C + 'filter', {'self': ty, 'concept': CON}, returns=LC, variant=v, props=('C05',), ensures=lambda S: [('smaller intents', smaller(S))] + emptiness(S, lambda r: less(S.int(r), S.int(S.concept)))),
        Contract(C + 'ideal', {'self': ty, 'concept': CON}, returns=LC, variant=v, props=('C05',), ensures=lambda S: [('larger intents', larger(S))] + emptiness(S, lambda r: less(S.int(S.concept), S.int(r)))),
        Contract(C + '__len__', {'self': ty}, returns='int', variant=v, nocall=True, props=('C05',), ensures=lambda S: [('number of concepts', S.result == S.self._concepts.n)]),
        Contract(C + '__contains__', {'self': ty, 'value': CON}, returns='bool', variant=v, props=('C05',), ensures=lambda S: [('by value', S.result == keys(S, S.self._concepts)[ckey(S, S.value)])]),
    ]
contracts += [covering(C + 'compute_covering_relation', {'self': NOPAR}, lambda S: S.self._concepts)]
for ty, v in ((CSY, ''), (NOPAR, 'no parents yet')):
    contracts += [
        Contract(C + '__getitem__', {'self': ty, 'key': 'int'}, returns=CON, variant=v, nocall=True, props=('C05',), requires=lambda S: [And(0 <= S.key, S.key < S.self._concepts.n)],
                 ensures=lambda S: [('the concept there', S.result == S.self._concepts[S.key])]),
        Contract(C + 'append', {'self': ty, 'concept': CON}, variant=v, props=('C05',), modifies=('self',), ensures=lambda S: [
            ('one more', S.self._concepts.n == S.old.self._concepts.n + 1), ('at the end', S.self._concepts[S.old.self._concepts.n] == S.concept),
            ('the others stay', all_i(S, S.old.self._concepts.n, lambda i: S.self._concepts[i] == S.old.self._concepts[i], S.self._concepts))]),
        Contract(C + 'parents', {'self': ty, 'concept': CON}, returns=('set', CON), shared=True, variant=v, props=('C05',), modifies=('self',),
                 requires=lambda S: [keys(S, S.self._concepts)[ckey(S, S.concept)]],
                 ensures=lambda S: [('the concepts stay', And(S.self._concepts.n == S.old.self._concepts.n, S.self._concepts.arr == S.old.self._concepts.arr)),
                                    ('parents', S.forall([CK], lambda x: S.result[x] == And(keys(S, S.self._concepts)[x], cover(S, S.self._concepts, x, ckey(S, S.concept))), lambda x: S.result[x]))]),
    ]
contracts += [Contract(C + '__init__', {'self': Inst('ConceptSystem', empty=True), 'concepts': LC}, props=('C05',), modifies=('self',), ensures=lambda S: [
    ('a copy of the list', And(S.self._concepts.n == S.concepts.n, all_i(S, S.concepts.n, lambda i: S.self._concepts[i] == S.concepts[i], S.self._concepts)))])]

def parents_are(S):
    return ('parents', S.forall([CK], lambda x: S.result[x] == And(keys(S, S.self._concepts)[x], cover(S, S.self._concepts, x, ckey(S, S.concept))), lambda x: S.result[x]))


contracts.insert(0, Contract(C + 'parents', {'self': CSY, 'concept': CON}, returns=('set', CON), shared=True, variant='table at hand', props=('C05',),
                             requires=lambda S: [keys(S, S.self._concepts)[ckey(S, S.concept)]], ensures=lambda S: [parents_are(S)]))
def children_lemmas(S):
    cs, me = S.self._concepts, ckey(S, S.concept)
    return [('concepts only', S.forall([CK], lambda x: Implies(S.result[x], keys(S, cs)[x]), lambda x: S.result[x])),
            ('children are below', S.forall([CK], lambda x: Implies(S.result[x], And(keys(S, cs)[me], cover(S, cs, me, x))), lambda x: S.result[x])),
            ('by position', S.forall([IntSort()], lambda i: Implies(And(within(i, cs.n), keys(S, cs)[me], cover(S, cs, me, ckey(S, cs[i]))), S.result[ckey(S, cs[i])]), lambda i: cs[i]))]


def children_are(S):
    cs, me = S.self._concepts, ckey(S, S.concept)
    return [('children', S.forall([CK], lambda x: S.result[x] == And(keys(S, cs)[x], keys(S, cs)[me], cover(S, cs, me, x)), lambda x: S.result[x]))]


contracts += [Contract(C + 'children', {'self': CSY, 'concept': CON}, returns=('set', CON), props=('C05',),
                       exit_lemmas=children_lemmas, ensures=children_are)]

# ---- least and greatest: a nonempty list has a concept no other is properly below (above)
LEAST = Function('LeastAt', HS, LA, IntSort(), IntSort())
MOST = Function('MostAt', HS, LA, IntSort(), IntSort())


def _least():
    N, a, n, m, i = Const('N', HS), Const('a', LA), Int('n'), Int('m'), Int('i')
    out = []
    for f, sym, lt, lab in ((LEAST, 'LeastAt', lambda x, y: less(x, y), 'least'), (MOST, 'MostAt', lambda x, y: less(y, x), 'greatest')):
        L.axiom(sym, 'a %s intent among one' % lab, ForAll([N, a], f(N, a, I(1)) == 0, patterns=[f(N, a, I(1))]))
        L.axiom(sym, 'a %s intent among one more' % lab, ForAll([N, a, n, m], Implies(And(n >= 1, m == n + 1), f(N, a, m) == If(lt(N[a[n]], N[a[f(N, a, n)]]), n, f(N, a, n))), patterns=[MultiPattern(f(N, a, n), f(N, a, m))]))
        out.append(Lemma('a %s intent' % lab, sym, [N, a, n], lambda N, a, n, f=f, lt=lt: And(0 <= f(N, a, n), f(N, a, n) < n, ForAll([i], Implies(And(0 <= i, i < n), Not(lt(N[a[i]], N[a[f(N, a, n)]]))), patterns=[a[i]])),
                         lambda N, a, n, f=f: f(N, a, n), ('C05',), induct=(2, 1)))
    return out


contracts += _least()


def extreme(lt):
    return lambda S: [('one of the concepts', S.self._concepts.set[S.result]), ('no other beyond', all_i(S, S.self._concepts.n, lambda i: Not(lt(S.int(S.self._concepts[i]), S.int(S.result))), S.self._concepts))]


for f, name, lt in ((LEAST, 'get_top_concept', less), (MOST, 'get_bottom_concept', lambda x, y: less(y, x))):
    contracts.append(Contract(C + name, {'self': Inst('ConceptSystem')}, returns=CON, props=('C05',), requires=lambda S, f=f: [S.self._concepts.n >= 1, f(S.hc()[1], S.self._concepts.arr, S.self._concepts.n) >= 0],
                              ensures=extreme(lt)))
contracts.append(Contract(C + 'index', {'self': Inst('ConceptSystem'), 'concept': CON}, returns='int', props=('C05',), raises=[('ValueError', lambda S: Not(keys(S, S.self._concepts)[ckey(S, S.concept)]))],
                          ensures=lambda S: [('a position', within(S.result, S.self._concepts.n)), ('of an equal concept', ckey(S, S.self._concepts[S.result]) == ckey(S, S.concept)),
                                             ('the first', all_i(S, S.result, lambda i: ckey(S, S.self._concepts[i]) != ckey(S, S.concept), S.self._concepts))]))


def first(S, p):
    a = S.old.self._concepts
    return And(within(p, a.n), ckey(S, a[p]) == ckey(S, S.concept), all_i(S, p, lambda i: ckey(S, a[i]) != ckey(S, S.concept), a))


contracts.append(Contract(C + 'remove', {'self': Inst('ConceptSystem'), 'concept': CON}, modifies=('self',), props=('C05',), raises=[('ValueError', lambda S: Not(keys(S, S.self._concepts)[ckey(S, S.concept)]))],
                          ensures=lambda S: [('no table of parents', BoolVal(S.self._parents is None)), ('one less', S.self._concepts.n == S.old.self._concepts.n - 1),
                                             ('without the first equal one', S.forall([IntSort(), IntSort()], lambda p, i: Implies(And(first(S, p), within(i, S.self._concepts.n)), S.self._concepts[i] == If(i < p, S.old.self._concepts[i], S.old.self._concepts[i + 1])), lambda p, i: [[S.old.self._concepts[p], S.self._concepts[i]]]))]))


# ---- a lattice: the same reading, from a table of parents made once
def lattice(w):
    S = w_state(w)
    cs = w._concepts
    return covers_are(S, cs, w._parents, lambda q, x: And(keys(S, cs)[x], cover(S, cs, x, q))) + [
        ('bottom', And(cs.set[w._bottom_concept], all_i(w._it, cs.n, lambda i: Not(less(S.int(w._bottom_concept), S.int(cs[i]))), cs))),
        ('top', And(cs.set[w._top_concept], all_i(w._it, cs.n, lambda i: Not(less(S.int(cs[i]), S.int(w._top_concept))), cs)))]


SHAPES['ConceptLattice'] = {'fields': {'_concepts': LC, '_parents': DP, '_bottom_concept': CON, '_top_concept': CON, '_context': None}, 'inv': lattice, 'share': ('_context',)}
CL = 'fca/concept_lattice.py:ConceptLattice.'
LAT = Inst('ConceptLattice')


def member(S):
    return keys(S, S.self._concepts)[ckey(S, S.concept)]


contracts += [
    Contract(CL + 'filter', {'self': Inst('ConceptLattice', raw=True, fields={'_bottom_concept': None, '_top_concept': None, '_parents': None}), 'concept': CON}, returns=LC, props=('C05',), ensures=lambda S: [('smaller intents', smaller(S))] + emptiness(S, lambda r: less(S.int(r), S.int(S.concept)))),
    Contract(CL + 'ideal', {'self': Inst('ConceptLattice', raw=True, fields={'_bottom_concept': None, '_top_concept': None, '_parents': None}), 'concept': CON}, returns=LC, props=('C05',), ensures=lambda S: [('larger intents', larger(S))] + emptiness(S, lambda r: less(S.int(S.concept), S.int(r)))),
    Contract(CL + '__len__', {'self': LAT}, returns='int', nocall=True, props=('C05',), ensures=lambda S: [('number of concepts', S.result == S.self._concepts.n)]),
    Contract(CL + '__contains__', {'self': LAT, 'value': CON}, returns='bool', props=('C05',), ensures=lambda S: [('by value', S.result == keys(S, S.self._concepts)[ckey(S, S.value)])]),
    Contract(CL + '__getitem__', {'self': LAT, 'key': 'int'}, returns=CON, nocall=True, props=('C05',), requires=lambda S: [And(0 <= S.key, S.key < S.self._concepts.n)],
             ensures=lambda S: [('the concept there', S.result == S.self._concepts[S.key])]),
    Contract(CL + 'index', {'self': LAT, 'concept': CON}, returns='int', props=('C05',), raises=[('ValueError', lambda S: Not(member(S)))],
             ensures=lambda S: [('a position', within(S.result, S.self._concepts.n)), ('of an equal concept', ckey(S, S.self._concepts[S.result]) == ckey(S, S.concept))]),
    Contract(CL + 'parents', {'self': LAT, 'concept': CON}, returns=('set', CON), shared=True, props=('C05',), raises=[('KeyError', lambda S: Not(member(S)))], ensures=lambda S: [parents_are(S)]),
    Contract(CL + 'get_top_concept', {'self': LAT}, returns=CON, props=('C05',), ensures=extreme(less)),
    Contract(CL + 'get_bottom_concept', {'self': LAT}, returns=CON, props=('C05',), ensures=extreme(lambda x, y: less(y, x))),
    Contract(CL + 'children', {'self': LAT, 'concept': CON}, returns=('set', CON), props=('C05',), ensures=children_are, exit_lemmas=children_lemmas)]
