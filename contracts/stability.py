"""Stability of concepts (C13): how many subsets of the extent (intent) have the intent (extent) as derivation."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem, card
from engine.contract import Contract, Lemma, LoopC, Inst
from engine.core import *
from .ctxdef import *
from .ctxnew import within, all_i
from .concepts import CON, CK, CKS, HS, LA, LEAST, keys, ckey, ki, less, next_key
from .filtering import LATC, INDEX, IDX, WHERE, lctx, ke, set_algebra, index_is

P13 = ('C13',)
SNM = L.sub_f(V)
KS = ArraySort(CK, BoolSort())
FS = ArraySort(SV, BoolSort())
CUP, CAP = set_algebra(SV, 'Families')
ISC = Function('IsConcept', Ctx, CK, BoolSort())
ONCE = Function('ConceptsOnce', HS, HS, LA, IntSort(), BoolSort())       # the concepts of a list are pairwise different
POW = Function('PowerSet', SV, FS)
ALLC = Function('AllConcepts', Ctx, KS, BoolSort())                      # the concepts of the context, exactly
SOMEC = Function('SomeConcepts', Ctx, KS, BoolSort())                    # concepts of the context


def _axioms():
    c, q, K, X, S = Const('c', Ctx), Const('q', CK), Const('K', KS), Const('X', SV), Const('S', SV)
    E, N, a = Const('E', HS), Const('N', HS), Const('a', LA)
    n, i, j = Ints('n i j')
    L.axiom('IsConcept', 'concept', ForAll([c, q], ISC(c, q) == And(SNM(ke(q), objs(c)), SNM(ki(q), atts(c)), ke(q) == APRIME(c, ki(q)), ki(q) == OPRIME(c, ke(q))), patterns=[ISC(c, q)]))
    w, v = Function('alike1', HS, HS, LA, IntSort(), IntSort())(E, N, a, n), Function('alike2', HS, HS, LA, IntSort(), IntSort())(E, N, a, n)
    o = ONCE(E, N, a, n)
    key = lambda i: L.mk_tuple([E[a[i]], N[a[i]]])
    L.axiom('ConceptsOnce', 'each once: in', ForAll([E, N, a, n, i, j], Implies(And(o, 0 <= i, i < j, j < n), key(i) != key(j)), patterns=[MultiPattern(o, a[i], a[j])]))
    L.axiom('ConceptsOnce', 'each once: witness', ForAll([E, N, a, n], Or(o, And(0 <= w, w < v, v < n, key(w) == key(v))), patterns=[o]))
    L.axiom('ConceptsOnce', 'each once: number of concepts (pigeonhole)', ForAll([E, N, a, n], Implies(n >= 0, o == (card(CKS(E, N, a, n)) == n)), patterns=[o]))
    L.axiom('PowerSet', 'subsets', ForAll([X, S], POW(X)[S] == SNM(S, X), patterns=[POW(X)[S]]))
    L.axiom('PowerSet', 'number of subsets', ForAll([X], card(POW(X)) == L.pow2(card(X)), patterns=[POW(X)]))
    z = Function('otherconcept', Ctx, KS, CK)(c, K)
    L.axiom('AllConcepts', 'all concepts: in', ForAll([c, K, q], Implies(ALLC(c, K), K[q] == ISC(c, q)), patterns=[MultiPattern(ALLC(c, K), K[q]), MultiPattern(ALLC(c, K), ISC(c, q))]))
    L.axiom('AllConcepts', 'all concepts: witness', ForAll([c, K], Or(ALLC(c, K), K[z] != ISC(c, z)), patterns=[ALLC(c, K)]))
    y = Function('noconcept', Ctx, KS, CK)(c, K)
    L.axiom('SomeConcepts', 'concepts: in', ForAll([c, K, q], Implies(And(SOMEC(c, K), K[q]), ISC(c, q)), patterns=[MultiPattern(SOMEC(c, K), K[q])]))
    L.axiom('SomeConcepts', 'concepts: witness', ForAll([c, K], Or(SOMEC(c, K), And(K[y], Not(ISC(c, y)))), patterns=[SOMEC(c, K)]))


_axioms()


class Side:
    """extents and their subsets, or intents and their subsets"""
    def __init__(self, nm, part, other, base, der, cl, heap):
        self.part, self.other, self.base, self.der, self.heap = part, other, base, der, heap
        self.CP = Function('ConceptOf' + nm, Ctx, SV, CK)                # the concept a set generates
        self.UN = Function('Generating' + nm, Ctx, SV, KS, FS)           # subsets that generate one of the concepts
        self.ST = Function('Stable' + nm, Ctx, CK, FS)                   # subsets of the part whose derivation is the other part
        self.BEL = Function('Below' + nm, KS, CK, KS)                    # concepts with a properly smaller part
        c, q, K, X, S, z, b = Const('c', Ctx), Const('q', CK), Const('K', KS), Const('X', SV), Const('S', SV), Const('z', CK), Const('b', CK)
        CP, UN, ST, BEL = self.CP, self.UN, self.ST, self.BEL
        L.axiom(CP.name(), 'generated concept', ForAll([c, S], And(part(CP(c, S)) == cl(c, S), other(CP(c, S)) == der(c, S)), patterns=[CP(c, S)]))
        L.axiom(UN.name(), 'generating sets', ForAll([c, X, K, S], UN(c, X, K)[S] == And(SNM(S, X), K[CP(c, S)]), patterns=[UN(c, X, K)[S]]))
        L.axiom(ST.name(), 'stable sets', ForAll([c, q, S], ST(c, q)[S] == And(SNM(S, part(q)), der(c, S) == other(q)), patterns=[ST(c, q)[S]]))
        L.axiom(BEL.name(), 'concepts below', ForAll([K, q, z], BEL(K, q)[z] == And(K[z], less(part(z), part(q))), patterns=[BEL(K, q)[z], MultiPattern(BEL(K, q), K[z])]))
        lem = lambda name, syms, vs, body, pats, **k: Lemma(name + ' (%s)' % nm.lower(), syms, vs, body, pats, P13, **k)
        none = L.empty(CK)
        out = lambda K, b: L.remove(K, b)
        first = lambda c, K, q: And(SOMEC(c, K), K[q], BEL(K, q) == none)
        gone = lambda c, K, b, q: And(first(c, K, b), K[q], less(part(b), part(q)))
        self.lemmas = [
            lem('generated concepts are concepts', (CP.name(), 'IsConcept'), [c, S], lambda c, S: Implies(SNM(S, base(c)), And(ISC(c, CP(c, S)), SNM(S, part(CP(c, S))))), lambda c, S: CP(c, S),
                by=lambda c, S: [('closed', Implies(SNM(S, base(c)), SNM(S, cl(c, S))))]),
            lem('generated concepts are least', (CP.name(), 'IsConcept'), [c, S, q], lambda c, S, q: Implies(And(ISC(c, q), SNM(S, part(q))), SNM(part(CP(c, S)), part(q))), lambda c, S, q: MultiPattern(CP(c, S), ISC(c, q)),
                by=lambda c, S, q: [('derivation', Implies(And(ISC(c, q), SNM(S, part(q))), SNM(other(q), der(c, S))))]),
            lem('concepts with the same part', ('IsConcept',), [c, q, z], lambda c, q, z: Implies(And(ISC(c, q), ISC(c, z), part(q) == part(z)), q == z), lambda c, q, z: MultiPattern(ISC(c, q), ISC(c, z))),
            lem('generating a concept', (CP.name(), ST.name()), [c, q, S], lambda c, q, S: Implies(And(ISC(c, q), SNM(S, part(q))), (CP(c, S) == q) == (der(c, S) == other(q))), lambda c, q, S: MultiPattern(ISC(c, q), CP(c, S))),
            lem('all subsets generate', (UN.name(), 'PowerSet', 'AllConcepts'), [c, K, q], lambda c, K, q: Implies(And(ALLC(c, K), K[q]), UN(c, part(q), K) == POW(part(q))), lambda c, K, q: MultiPattern(ALLC(c, K), UN(c, part(q), K), K[q])),
            lem('stable sets of a first concept', (UN.name(), ST.name(), BEL.name(), 'SomeConcepts'), [c, K, q], lambda c, K, q: Implies(first(c, K, q), UN(c, part(q), K) == ST(c, q)), lambda c, K, q: MultiPattern(SOMEC(c, K), UN(c, part(q), K), BEL(K, q)),
                by=lambda c, K, q: [('one set', ForAll([S], Implies(And(first(c, K, q), SNM(S, part(q))), K[CP(c, S)] == (CP(c, S) == q)), patterns=[CP(c, S)]))]),
            lem('without a concept below', (UN.name(), ST.name(), BEL.name(), 'SomeConcepts'), [c, K, b, q], lambda c, K, b, q: Implies(And(first(c, K, b), K[q], less(part(b), part(q))), card(UN(c, part(q), out(K, b))) == card(UN(c, part(q), K)) - card(ST(c, b))),
                lambda c, K, b, q: MultiPattern(SOMEC(c, K), UN(c, part(q), out(K, b))),
                by=lambda c, K, b, q: [('those of the concept', Implies(gone(c, K, b, q), L.sub_f(SV)(ST(c, b), UN(c, part(q), K)))),
                                       ('together', Implies(gone(c, K, b, q), UN(c, part(q), K) == CUP(UN(c, part(q), out(K, b)), ST(c, b)))),
                                       ('disjoint', Implies(gone(c, K, b, q), CAP(UN(c, part(q), out(K, b)), ST(c, b)) == L.empty(SV)))]),
            lem('without a concept not below', (UN.name(), BEL.name(), 'SomeConcepts'), [c, K, b, q], lambda c, K, b, q: Implies(And(SOMEC(c, K), K[b], K[q], q != b, Not(less(part(b), part(q)))), UN(c, part(q), out(K, b)) == UN(c, part(q), K)),
                lambda c, K, b, q: MultiPattern(SOMEC(c, K), UN(c, part(q), out(K, b)))),
            lem('fewer concepts below', (BEL.name(),), [K, b, q], lambda K, b, q: Implies(K[b], BEL(out(K, b), q) == If(less(part(b), part(q)), L.remove(BEL(K, q), b), BEL(K, q))), lambda K, b, q: BEL(out(K, b), q)),
            lem('order of concepts', ('IsConcept',), [c, q, z], lambda c, q, z: Implies(And(ISC(c, q), ISC(c, z)), less(part(q), part(z)) == less(other(z), other(q))), lambda c, q, z: MultiPattern(ISC(c, q), ISC(c, z))),
        ]


EXT = Side('Objects', ke, ki, objs, OPRIME, OCL, 0)
INT_ = Side('Attributes', ki, ke, atts, APRIME, ACL, 1)
contracts = EXT.lemmas + INT_.lemmas
Z = L.empty(CK)


def lconcepts(S):
    """the concepts of the lattice, as they were given"""
    return keys(S, S.old.lattice._concepts)


def value(side, c):
    return lambda q: ToReal(card(side.ST(c, q))) / ToReal(L.pow2(card(side.part(q))))


def now(S):
    return keys(S, S.concepts._concepts)


def of_lattice(S):
    cs = S.lattice._concepts
    E, N = S.hc()
    return [('all concepts of the context', ALLC(lctx(S), keys(S, cs))), ('each once', ONCE(E, N, cs.arr, cs.n)), ('there is one', cs.n >= 1)]


def counting(side):
    def inv(S):
        K0, K = now(S), keys(S, S.concepts._concepts, S.k)
        E, N = S.hc()
        return [('the concepts', And(K0 == lconcepts(S), ONCE(E, N, S.concepts._concepts.arr, S.concepts._concepts.n))),
                ('counted', And(S.count.dom == K, S.subsets.dom == K)),
                ('concepts below', S.forall([CK], lambda q: Implies(K[q], S.count[q] == card(side.BEL(K0, q))), lambda q: S.count[q])),
                ('subsets', S.forall([CK], lambda q: Implies(K[q], S.subsets[q] == L.pow2(card(side.part(q)))), lambda q: S.subsets[q]))]

    def one(S):
        x = S.comp
        E, N = S.hc()
        q = ckey(S, S.concepts._concepts[S.k])
        return [next_key(S, S.concepts._concepts, S.k), ('those below', CKS(E, N, x.arr, x.n) == side.BEL(now(S), q)), ('those below once', ONCE(E, N, x.arr, x.n))]
    return LoopC(inv, at_end=one, types={'count': ('dict', CON, 'int'), 'subsets': ('dict', CON, 'int')})


def first_ones(S, side, K):
    return ('the first ones', S.forall([CK], lambda q: S.bottom_concepts[q] == And(K[q], side.BEL(K, q) == Z), lambda q: S.bottom_concepts[q]))


def choosing(side):
    def inv(S):
        c, K, K0 = ctx(S.old.lattice._context), now(S), lconcepts(S)
        E, N = S.hc()
        R = S.concepts._concepts
        return [('no table of parents', BoolVal(S.concepts._parents is None)), ('some concepts', And(SOMEC(c, K), ONCE(E, N, R.arr, R.n), L.sub_f(CK)(K, K0))), ('tables', And(S.count.dom == K0, S.subsets.dom == K0)),
                ('done', S.forall([CK], lambda q: S.stability.dom[q] == And(K0[q], Not(K[q])), lambda q: S.stability.dom[q])),
                ('values', S.forall([CK], lambda q: Implies(And(K0[q], Not(K[q])), S.stability[q] == value(side, c)(q)), lambda q: S.stability[q])),
                ('concepts below', S.forall([CK], lambda q: Implies(K[q], S.count[q] == card(side.BEL(K, q))), lambda q: S.count[q])),
                ('sets left', S.forall([CK], lambda q: Implies(K[q], S.subsets[q] == card(side.UN(c, side.part(q), K))), lambda q: S.subsets[q])),
                first_ones(S, side, K)]

    def entry(S):
        c, K = ctx(S.old.lattice._context), now(S)
        least = side.CP(c, L.empty(V))
        return [('the least one', And(K[least], side.BEL(K, least) == Z)), ('no other', S.forall([CK], lambda q: Implies(K[q], (side.BEL(K, q) == Z) == (q == least)), lambda q: K[q])),
                ('chosen', S.forall([CK], lambda q: S.bottom_concepts[q] == (q == least), lambda q: S.bottom_concepts[q]))]

    def body(S):
        R = S.concepts._concepts
        q = ckey(S, R[LEAST(S.hc()[side.heap], R.arr, R.n)])
        return [('one has none below', And(now(S)[q], side.BEL(now(S), q) == Z)), ('one is there', S.bottom_concepts[q])]
    return LoopC(inv, at_entry=entry, at_body=body, types={'stability': ('dict', CON, 'real')})


def removing(side):
    def inv(S):
        c, K, K0 = ctx(S.old.lattice._context), now(S), lconcepts(S)
        before = now(S.outer_head())
        b = ckey(S, S.bottom_concept)
        seen = keys(S, S.concepts._concepts, S.k)
        E, N = S.hc()
        R = S.concepts._concepts
        return [('without the concept', And(K == L.remove(before, b), before[b], side.BEL(before, b) == Z, ONCE(E, N, R.arr, R.n))), ('tables', And(S.count.dom == K0, S.subsets.dom == K0)),
                ('its stable sets', S.subsets[b] == card(side.ST(c, b))),
                ('concepts below, changed', S.forall([CK], lambda q: Implies(seen[q], S.count[q] == card(side.BEL(K, q))), lambda q: S.count[q])),
                ('concepts below, not yet', S.forall([CK], lambda q: Implies(And(K[q], Not(seen[q])), S.count[q] == card(side.BEL(before, q))), lambda q: S.count[q])),
                ('sets left, changed', S.forall([CK], lambda q: Implies(seen[q], S.subsets[q] == card(side.UN(c, side.part(q), K))), lambda q: S.subsets[q])),
                ('sets left, not yet', S.forall([CK], lambda q: Implies(And(K[q], Not(seen[q])), S.subsets[q] == card(side.UN(c, side.part(q), before))), lambda q: S.subsets[q])),
                ('the first ones', S.forall([CK], lambda q: S.bottom_concepts[q] == And(K[q], Or(side.BEL(before, q) == Z, And(seen[q], side.BEL(K, q) == Z))), lambda q: S.bottom_concepts[q]))]

    def entry(S):
        R, K, h = S.concepts._concepts, now(S), S.outer_head()
        T, before = h.concepts._concepts, now(h)
        E, N = S.hc()
        b = ckey(S, S.bottom_concept)
        p = WHERE(E, N, T.arr, T.n, b)
        return [('one of the concepts', before[b]), ('where it was', And(within(p, T.n), ckey(S, T[p]) == b)), ('nowhere else', all_i(S, T.n, lambda i: (ckey(S, T[i]) == b) == (i == p), T)),
                ('the others moved', all_i(S, R.n, lambda i: R[i] == If(i < p, T[i], T[i + 1]), R)), ('the others stay', all_i(S, R.n, lambda i: And(before[ckey(S, R[i])], ckey(S, R[i]) != b), R)),
                ('still there', all_i(S, R.n, lambda i: K[ckey(S, R[i])], R)), ('moved', all_i(S, T.n, lambda i: Implies(i > p, R[i - 1] == T[i]), T)), ('stay', all_i(S, T.n, lambda i: Implies(i < p, R[i] == T[i]), T)),
                ('where they are now', all_i(S, T.n, lambda i: Implies(i != p, And(T[i] == If(i < p, R[i], R[i - 1]), K[ckey(S, T[i])])), T)), ('concepts left', K == L.remove(before, b)),
                ('each once', ONCE(E, N, R.arr, R.n))]
    return LoopC(inv, at_entry=entry, at_end=lambda S: [next_key(S, S.concepts._concepts, S.k)])


for name, side in (('compute_istability', EXT), ('compute_estability', INT_)):
    contracts.append(Contract('fca/algorithms/filtering/stability.py:' + name, {'lattice': LATC}, returns=('dict', CON, 'real'), props=P13, requires=of_lattice,
                              loops={0: counting(side), 1: choosing(side), 2: removing(side)},
                              ensures=lambda S, side=side: index_is(S, S.result, value(side, lctx(S)))))


# ---- values stored on the concepts
def annotated(S, D0, W0, done):
    """exactly the concepts done have the value under the name, everything else is as before"""
    D, W = S._h('Concept', 'meta')
    nm, R = S.old.raw('name').t, IntSort()
    return [('names', S.forall([R, V], lambda r, x: D[r][x] == Or(D0[r][x], And(x == nm, done(r))), lambda r, x: D[r][x])),
            ('values', S.forall([R, V], lambda r, x: Implies(D[r][x], W[r][x] == If(And(x == nm, done(r)), IDX[ckey(S, r)], W0[r][x])), lambda r, x: W[r][x]))]


def annotating(S):
    D0, W0 = S.old._h('Concept', 'meta')
    return annotated(S, D0, W0, lambda r: S.seen[L.mk_tuple([r, IDX[ckey(S, r)]])])


def pairs(S):
    cs, src = S.old.lattice._concepts, S._seq.src
    E, N = S.hc()
    ref, val = lambda i: L.proj(src_(S)[i], 0), lambda i: L.proj(src_(S)[i], 1)
    return [('positions', all_i(S, cs.n, lambda i: WHERE(E, N, cs.arr, cs.n, ckey(S, cs[i])) == i, cs)),
            ('pairs', all_i(S, S.n, lambda i: And(cs.set[ref(i)], val(i) == IDX[ckey(S, ref(i))]), src_(S)))]


def src_(S):
    from engine.views import view
    return view(S._it, S._seq.src)


def every_pair(S):
    cs, src = S.old.lattice._concepts, src_(S)
    return [('every concept has a pair', all_i(S, cs.n, lambda i: src.set[L.mk_tuple([cs[i], IDX[ckey(S, cs[i])]])], cs)), ('exactly the concepts', S.forall([IntSort()], lambda r: S.seen[L.mk_tuple([r, IDX[ckey(S, r)]])] == cs.set[r], lambda r: cs.set[r]))]


contracts.append(Contract('fca/algorithms/filtering/filter.py:compute_index', {'lattice': LATC, 'function': INDEX, 'name': 'V'}, props=P13 + ('C05',), modifies=[('heap', 'Concept', 'meta')], nocall=True,
                          requires=lambda S: [('each once', ONCE(*S.hc(), S.lattice._concepts.arr, S.lattice._concepts.n))],
                          loops={0: LoopC(annotating, at_entry=pairs, after=every_pair)},
                          ensures=lambda S: annotated(S, *S.old._h('Concept', 'meta'), lambda r: S.lattice._concepts.set[r])))
