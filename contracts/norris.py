"""Norris' algorithm: all concepts of a context, one object after the other (C04, C05)."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem
from engine.contract import Contract, Lemma, LoopC, Lit, Inst
from engine.core import *
from .ctxdef import *
from .ctxnew import within, all_i
from .context import me, cme
from .concepts import CON, HS, LA, LC, DP, LEAST, MOST, covers_are, keys, cover

SS = ArraySort(SV, BoolSort())
CX = Inst('Context')
PXI = Function('FirstWith', Ctx, IntSort(), SV, IS)          # positions below i of the objects having all attributes of a set
CLI = Function('ClosedBy', Ctx, IntSort(), SV, SV)           # attributes common to those objects
INTS = Function('IntentsIn', HS, LA, IntSort(), SS)          # intents of the concepts in a list
SNM = L.sub_f(V)


def _axioms():
    c, i, j, m = Const('c', Ctx), Int('i'), Int('j'), Const('m', V)
    X, Y = Consts('X Y', SV)
    N, a, n = Const('N', HS), Const('a', LA), Int('n')
    L.axiom('FirstWith', 'positions of the objects having attributes', ForAll([c, i, X, j], PXI(c, i, X)[j] == And(0 <= j, j < i, SNM(X, ROW(c, j))), patterns=[PXI(c, i, X)[j], MultiPattern(PXI(c, i, X), SNM(X, ROW(c, j)))]))
    w = Function('cliw', Ctx, IntSort(), SV, V, IntSort())(c, i, X, m)
    L.axiom('ClosedBy', 'closure among the first objects: in', ForAll([c, i, X, m, j], Implies(And(CLI(c, i, X)[m], PXI(c, i, X)[j]), And(atts(c)[m], ROW(c, j)[m])), patterns=[MultiPattern(CLI(c, i, X)[m], PXI(c, i, X)[j])]))
    L.axiom('ClosedBy', 'closure among the first objects: attributes', ForAll([c, i, X], SNM(CLI(c, i, X), atts(c)), patterns=[CLI(c, i, X)]))
    L.axiom('ClosedBy', 'closure among the first objects: witness', ForAll([c, i, X, m], Or(CLI(c, i, X)[m], Not(atts(c)[m]), And(PXI(c, i, X)[w], Not(ROW(c, w)[m]))), patterns=[CLI(c, i, X)[m]]))
    L.axiom('IntentsIn', 'intents of a list: in', ForAll([N, a, n, i], Implies(And(0 <= i, i < n), INTS(N, a, n)[N[a[i]]]), patterns=[MultiPattern(INTS(N, a, n), a[i])]))
    p = Function('intsw', HS, LA, IntSort(), SV, IntSort())(N, a, n, X)
    L.axiom('IntentsIn', 'intents of a list: witness', ForAll([N, a, n, X], Implies(INTS(N, a, n)[X], And(0 <= p, p < n, X == N[a[p]])), patterns=[INTS(N, a, n)[X]]))


_axioms()


def _lemmas():
    c, i, j = Const('c', Ctx), Int('i'), Int('j')
    X, Y = Consts('X Y', SV)
    P = ('C04',)
    K = ('ClosedBy', 'FirstWith')
    lem = lambda name, vs, body, pats, **k: Lemma(name, 'ClosedBy', vs, body, pats, P, **k)
    i1 = Int('i1')
    add1 = lambda S, x: L.add(S, x)
    return [
        Lemma('one object more: positions', 'FirstWith', [c, i, i1, X], lambda c, i, i1, X: Implies(And(0 <= i, i1 == i + 1), PXI(c, i1, X) == If(SNM(X, ROW(c, i)), add1(PXI(c, i, X), i), PXI(c, i, X))),
              lambda c, i, i1, X: [(PXI(c, i, X), PXI(c, i1, X))], P),
        lem('one object more: closure', [c, i, i1, X], lambda c, i, i1, X: Implies(And(0 <= i, i1 == i + 1), CLI(c, i1, X) == If(SNM(X, ROW(c, i)), L.inter(CLI(c, i, X), ROW(c, i)), CLI(c, i, X))),
            lambda c, i, i1, X: [(CLI(c, i, X), CLI(c, i1, X))]),
        lem('a set is in its closure', [c, i, X], lambda c, i, X: Implies(SNM(X, atts(c)), SNM(X, CLI(c, i, X))), lambda c, i, X: CLI(c, i, X)),
        lem('same objects of the closure', [c, i, X], lambda c, i, X: Implies(SNM(X, atts(c)), PXI(c, i, CLI(c, i, X)) == PXI(c, i, X)), lambda c, i, X: PXI(c, i, CLI(c, i, X))),
        lem('same objects, same closure', [c, i, X, Y], lambda c, i, X, Y: Implies(PXI(c, i, X) == PXI(c, i, Y), CLI(c, i, X) == CLI(c, i, Y)), lambda c, i, X, Y: [(CLI(c, i, X), CLI(c, i, Y))]),
        lem('closure is monotone', [c, i, X, Y], lambda c, i, X, Y: Implies(SNM(X, Y), SNM(CLI(c, i, X), CLI(c, i, Y))), lambda c, i, X, Y: [(CLI(c, i, X), CLI(c, i, Y))]),
        lem('a closure is closed', [c, i, X], lambda c, i, X: Implies(SNM(X, atts(c)), CLI(c, i, CLI(c, i, X)) == CLI(c, i, X)), lambda c, i, X: CLI(c, i, CLI(c, i, X)),
            by=lambda c, i, X: [('same objects', Implies(SNM(X, atts(c)), PXI(c, i, CLI(c, i, X)) == PXI(c, i, X)))]),
        lem('closure of a part of the closure', [c, i, X, Y], lambda c, i, X, Y: Implies(And(SNM(X, atts(c)), SNM(X, Y)), CLI(c, i, L.inter(CLI(c, i, X), Y)) == CLI(c, i, X)), lambda c, i, X, Y: CLI(c, i, L.inter(CLI(c, i, X), Y)),
            by=lambda c, i, X, Y: [('between', Implies(And(SNM(X, atts(c)), SNM(X, Y)), And(SNM(X, L.inter(CLI(c, i, X), Y)), SNM(L.inter(CLI(c, i, X), Y), CLI(c, i, X))))),
                                   ('at least', Implies(And(SNM(X, atts(c)), SNM(X, Y)), SNM(CLI(c, i, X), CLI(c, i, L.inter(CLI(c, i, X), Y))))),
                                   ('at most', Implies(And(SNM(X, atts(c)), SNM(X, Y)), SNM(CLI(c, i, L.inter(CLI(c, i, X), Y)), CLI(c, i, CLI(c, i, X)))))]),
    ]


contracts = _lemmas()
contracts.append(Contract('fca/context.py:Context.examples', {'self': CX}, returns=('list', ('set', 'V')), props=('C04', 'C20'),
                          loops={0: LoopC(lambda S: [('rows so far', And(S.yielded.n == S.k, all_i(S, S.k, lambda i: S.yielded[i] == ROW(ctx(S.self), i), S.yielded)))])},
                          ensures=lambda S: [('one set per object', S.result.n == S.self._objects.n), ('its attributes', all_i(S, S.result.n, lambda i: S.result[i] == ROW(me(S), i), S.result))]))


def ints(S, lst, n=None):
    return INTS(S.hc()[1], lst.arr, lst.n if n is None else n)


def concepts_at(S, i):
    """what the list holds when i objects have been considered"""
    c, cs, o = cme(S), S.cs, S.context._objects
    N = lambda p: S.int(cs[p])
    return [('at least one', cs.n >= 1),
            ('new concepts', all_i(S, cs.n, lambda p: S.isnew(cs[p]), cs)),
            ('intents are attributes', all_i(S, cs.n, lambda p: sub(N(p), atts(c)), cs)),
            ('intents are closed', all_i(S, cs.n, lambda p: CLI(c, i, N(p)) == N(p), cs)),
            ('extents', all_i(S, cs.n, lambda p: S.ext(cs[p]) == NM(o.arr, PXI(c, i, N(p))), cs)),
            ('no intent twice', S.forall([IntSort(), IntSort()], lambda p, q: Implies(And(within(p, cs.n), within(q, cs.n), N(p) == N(q)), p == q), lambda p, q: [[cs[p], cs[q]]])),
            ('every closure', S.forall([SV], lambda X: Implies(sub(X, atts(c)), ints(S, cs)[CLI(c, i, X)]), lambda X: CLI(c, i, X))),
            ('what has been yielded', And(S.yielded.n == cs.n, all_i(S, cs.n, lambda p: S.yielded[p] == cs[p], cs)))]


def outer(S):
    return [('examples', And(S.examples.n == S.context._objects.n, all_i(S, S.examples.n, lambda i: S.examples[i] == ROW(cme(S), i), S.examples)))] + concepts_at(S, S.k)


def inner(S):
    c, cs, old, o = cme(S), S.cs, S.cs_for_loop, S.context._objects
    i = S.i
    R = ROW(c, i)
    N = lambda p: S.int(cs[p])
    N0 = lambda p: S.outer_head().int(old[p])
    n0 = old.n
    return [('the others follow', cs.n >= n0),
            ('the old ones', all_i(S, n0, lambda p: cs[p] == old[p], cs)),
            ('new concepts', all_i(S, cs.n, lambda p: S.isnew(cs[p]), cs)),
            ('old intents', all_i(S, n0, lambda p: S.int(old[p]) == N0(p), old)),
            ('extents, done', all_i(S, S.k, lambda p: S.ext(old[p]) == NM(o.arr, PXI(c, i + 1, N0(p))), old)),
            ('extents, to come', all_i(S, n0, lambda p: Implies(p >= S.k, S.ext(old[p]) == NM(o.arr, PXI(c, i, N0(p)))), old)),
            ('extents, added', all_i(S, cs.n, lambda p: Implies(p >= n0, S.ext(cs[p]) == NM(o.arr, PXI(c, i + 1, N(p)))), cs)),
            ('added: attributes', all_i(S, cs.n, lambda p: Implies(p >= n0, sub(N(p), atts(c))), cs)),
            ('added: origin', all_i(S, cs.n, lambda p: Implies(p >= n0, And(N(p) == L.inter(CLI(c, i, N(p)), R), Not(sub(CLI(c, i, N(p)), R)), ints(S, old, S.k)[CLI(c, i, N(p))])), cs)),
            ('added: no intent twice', S.forall([IntSort(), IntSort()], lambda p, q: Implies(And(n0 <= p, p < cs.n, n0 <= q, q < cs.n, N(p) == N(q)), p == q), lambda p, q: [[cs[p], cs[q]]])),
            ('nothing left out', all_i(S, S.k, lambda p: Implies(And(Not(sub(N0(p), R)), CLI(c, i, L.inter(N0(p), R)) == N0(p)), ints(S, cs)[L.inter(N0(p), R)]), old)),
            ('what has been yielded', And(S.yielded.n == cs.n, all_i(S, cs.n, lambda p: S.yielded[p] == cs[p], cs)))]


def test(S):
    c, i, o = cme(S), S.i, S.context._objects
    ok = lambda j: Implies(sub(S.new_intent, ROW(c, j)), S.ext(S.raw('c').t)[o[j]])
    return [('new so far', S.new), ('tested so far', all_i(S, S.k, ok, o))]


def found(S):
    """another object has the new attributes: their closure is another one"""
    c, i, Z = cme(S), S.i, S.new_intent
    Y = S.int(S.raw('c').t)
    return [('one with the attributes', PXI(c, i, Z)[S.k]), ('and not with all of them', Not(PXI(c, i, Y)[S.k])), ('the objects differ', PXI(c, i, Z) != PXI(c, i, Y)), ('so do the closures', CLI(c, i, Z) != Y)]


def kept(S, a, old, n):
    was, cs, now = INTS(a.hc()[1], old.arr, n), S.cs, ints(S, S.cs)
    at = lambda p: a.int(old[p])
    return [('same concepts', all_i(S, n, lambda p: And(p < cs.n, cs[p] == old[p]), old)), ('same intents', all_i(S, n, lambda p: S.int(cs[p]) == at(p), old)), ('still there', all_i(S, n, lambda p: now[S.int(cs[p])], old)), ('still there (2)', all_i(S, n, lambda p: now[at(p)], old)), ('intents are kept', S.forall([SV], lambda X: Implies(was[X], now[X]), lambda X: was[X]))]


def considered(S):
    c, cs, old, i = cme(S), S.cs, S.cs_for_loop, S.i
    R, Y = ROW(c, i), S.outer_head().int(old[S.k])
    Z = L.inter(Y, R)
    return kept(S, S.head, S.head.cs, S.head.cs.n) + [('this one', Implies(And(Not(sub(Y, R)), CLI(c, i, Z) == Y), ints(S, cs)[Z]))]


def all_considered(S):
    c, cs, old, i = cme(S), S.cs, S.cs_for_loop, S.i
    R, h = ROW(c, i), S.head
    X0 = lambda f: S.forall([SV], lambda X: Implies(sub(X, atts(c)), f(X, CLI(c, i, X))), lambda X: CLI(c, i, X))
    was, now = INTS(h.hc()[1], old.arr, old.n), ints(S, cs)
    return kept(S, h, old, old.n) + [
            ('closures so far', X0(lambda X, Y: And(was[Y], now[Y]))),
            ('parts', S.forall([SV], lambda Y: Implies(And(was[Y], Not(sub(Y, R)), CLI(c, i, L.inter(Y, R)) == Y), now[L.inter(Y, R)]), lambda Y: was[Y])),
            ('parts of closures', X0(lambda X, Y: Implies(sub(X, R), And(CLI(c, i, L.inter(Y, R)) == Y, now[L.inter(Y, R)])))),
            ('the next closures', X0(lambda X, Y: CLI(c, i + 1, X) == If(sub(X, R), L.inter(Y, R), Y))),
            ('every next closure', S.forall([SV], lambda X: Implies(sub(X, atts(c)), now[CLI(c, i + 1, X)]), lambda X: [CLI(c, i, X), CLI(c, i + 1, X)]))]


def in_the_end(S):
    c, n = cme(S), S.context._objects.n
    o = S.context._objects
    X0 = lambda f, pat: S.forall([SV], lambda X: Implies(sub(X, atts(c)), f(X)), lambda X: pat(X))
    P = lambda X: NM(o.arr, PXI(c, n, X))
    return [('rows are intents', all_i(S, n, lambda j: ROW(c, j) == INTENT(c, o[j]), o)),
            ('objects found', S.forall([SV], lambda X: sub(P(X), APRIME(c, X)), lambda X: P(X))),
            ('by position', S.forall([SV, IntSort()], lambda X, j: Implies(And(within(j, n), APRIME(c, X)[o[j]]), P(X)[o[j]]), lambda X, j: [[P(X), o[j]]])),
            ('objects', S.forall([SV], lambda X: P(X) == APRIME(c, X), lambda X: [P(X), APRIME(c, X)])),
            ('closure: at most', X0(lambda X: sub(CLI(c, n, X), ACL(c, X)), lambda X: [CLI(c, n, X), ACL(c, X)])),
            ('closure: at least', X0(lambda X: sub(ACL(c, X), CLI(c, n, X)), lambda X: [CLI(c, n, X), ACL(c, X)])),
            ('closure', X0(lambda X: ACL(c, X) == CLI(c, n, X), lambda X: [CLI(c, n, X), ACL(c, X)])),
            ('extents', all_i(S, S.cs.n, lambda p: P(S.int(S.cs[p])) == APRIME(c, S.int(S.cs[p])), S.cs)),
            ('closed', all_i(S, S.cs.n, lambda p: ACL(c, S.int(S.cs[p])) == S.int(S.cs[p]), S.cs))]


def all_concepts(S, lst, c):
    """the list holds every concept of the context, once"""
    N = lambda p: S.int(lst[p])
    return [('at least one', lst.n >= 1), ('new concepts', all_i(S, lst.n, lambda p: lst[p] >= 0, lst)),
            ('intents are attributes', all_i(S, lst.n, lambda p: sub(N(p), atts(c)), lst)),
            ('intents', all_i(S, lst.n, lambda p: OPRIME(c, S.ext(lst[p])) == N(p), lst)),
            ('extents', all_i(S, lst.n, lambda p: S.ext(lst[p]) == APRIME(c, N(p)), lst)),
            ('no intent twice', S.forall([IntSort(), IntSort()], lambda p, q: Implies(And(within(p, lst.n), within(q, lst.n), N(p) == N(q)), p == q), lambda p, q: [[lst[p], lst[q]]])),
            ('every closure is an intent', S.forall([SV], lambda X: Implies(sub(X, atts(c)), ints(S, lst)[ACL(c, X)]), lambda X: ACL(c, X)))]


contracts.append(Contract('fca/algorithms/norris.py:iterative_norris', {'context': CX}, returns=LC, props=('C04', 'C05'), heap_mod=('new', ('Concept', 'extent'), ('Concept', 'intent')),
                          loops={0: LoopC(lambda S: [('examples so far', And(S.examples.n == S.k, all_i(S, S.k, lambda i: S.examples[i] == ROW(cme(S), i), S.examples)))], types={'examples': ('list', ('set', 'V'))}),
                                 1: LoopC(outer, at_end=all_considered, after=in_the_end), 2: LoopC(inner, at_end=considered), 3: LoopC(test, on_break=found)},
                          ensures=lambda S: all_concepts(S, S.result, cme(S))))

def ends(S, lst):
    N = S.hc()[1]
    return [('extreme ones', And(lst.set[lst[LEAST(N, lst.arr, lst.n)]], lst.set[lst[MOST(N, lst.arr, lst.n)]]))]


NW = ('new', ('Concept', 'extent'), ('Concept', 'intent'))
contracts += [
    Contract('fca/algorithms/norris.py:norris', {'context': CX, 'with_parents': Lit(False)}, returns=LC, variant='concepts', props=('C04',), heap_mod=NW, ensures=lambda S: all_concepts(S, S.result, cme(S))),
    Contract('fca/algorithms/norris.py:norris', {'context': CX, 'with_parents': Lit(True)}, returns=('tup', LC, DP), variant='with parents', props=('C04', 'C05'), heap_mod=NW,
             ensures=lambda S: all_concepts(S, S.result[0], cme(S)) + covers_are(S, S.result[0], S.result[1], lambda q, x: And(keys(S, S.result[0])[x], cover(S, S.result[0], x, q))) + ends(S, S.result[0])),
    Contract('fca/concept_lattice.py:ConceptLattice.__init__', {'self': Inst('ConceptLattice', empty=True), 'context': CX}, props=('C04', 'C05'), modifies=('self',), heap_mod=NW,
             ensures=lambda S: all_concepts(S, S.self._concepts, cme(S))),
]
XC = 'fca/context.py:Context.'
contracts += [
    Contract(XC + 'get_concepts', {'self': CX}, returns=LC, props=('C04',), heap_mod=NW, ensures=lambda S: all_concepts(S, S.result, ctx(S.self))),
    Contract(XC + 'iterate_concepts', {'self': CX}, returns=LC, props=('C04',), heap_mod=NW, ensures=lambda S: all_concepts(S, S.result, ctx(S.self))),
    Contract(XC + 'get_concept_lattice', {'self': CX}, returns=Inst('ConceptLattice'), props=('C04', 'C05'), heap_mod=NW, ensures=lambda S: all_concepts(S, S.result._concepts, ctx(S.self))),
    Contract(XC + 'intents', {'self': CX}, returns=('list', ('set', 'V')), props=('C20',),
             ensures=lambda S: [('one set per object', S.result.n == S.self._objects.n), ('its attributes', all_i(S, S.result.n, lambda i: S.result[i] == ROW(me(S), i), S.result))]),
]
