"""Factors of a context (C12): concepts whose rectangles cover the crosses."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem, card
from engine.contract import Contract, Lemma, LoopC, Lit, Inst
from engine.core import *
from .ctxdef import *
from .ctxnew import INT2, within, all_i
from .concepts import CON, HS, LA

X = 'fca/algorithms/factors.py:'
CX = Inst('Context')
PAIR = ('tuple', 'V', 'V')
PS = L.key_sort(PAIR)
SP = ArraySort(PS, BoolSort())
P = ('C12',)
RECT = Function('Rectangle', SV, SV, SP)
CROSS = Function('Crosses', Ctx, SP)
g_, m_ = (lambda p: L.proj(p, 0)), (lambda p: L.proj(p, 1))


def _axioms():
    A, B_ = Consts('A B', SV)
    c, p = Const('c', Ctx), Const('p', PS)
    L.axiom('Rectangle', 'pairs of a rectangle', ForAll([A, B_, p], RECT(A, B_)[p] == And(A[g_(p)], B_[m_(p)]), patterns=[RECT(A, B_)[p]]))
    L.axiom('Crosses', 'crosses of a context', ForAll([c, p], CROSS(c)[p] == And(objs(c)[g_(p)], atts(c)[m_(p)], inc(c, g_(p), m_(p))), patterns=[CROSS(c)[p]]))


_axioms()


def me(S):
    return ctx(S.cxt)


def one_more(S):
    """the objects that have the attribute too"""
    return L.inter(S.D_objs, EXTENT(me(S), S.y))


def _lemmas():
    c, B_, j = Const('c', Ctx), Const('B', SV), Const('j', V)
    X, Y = Consts('X Y', SV)
    one = L.union(B_, L.add(L.empty(V), j))
    return [Lemma('one attribute more: the objects', 'APrime', [c, B_, j], lambda c, B, j: Implies(atts(c)[j], APRIME(c, L.union(B, L.add(L.empty(V), j))) == L.inter(APRIME(c, B), EXTENT(c, j))), lambda c, B, j: APRIME(c, L.union(B, L.add(L.empty(V), j))), P),
            Lemma('attributes of derived objects: the objects', 'APrime', [c, B_], lambda c, B: Implies(sub(B, atts(c)), APRIME(c, OPRIME(c, APRIME(c, B))) == APRIME(c, B)), lambda c, B: OPRIME(c, APRIME(c, B)), P,
                  by=lambda c, B: [('closure', ACL(c, B) == OPRIME(c, APRIME(c, B))), ('its objects', Implies(sub(B, atts(c)), APRIME(c, ACL(c, B)) == APRIME(c, B)))])]


contracts = _lemmas() + [
    Contract(X + '_oplus', {'D_objs': ('set', 'V'), 'y': 'V', 'cxt': CX, 'U': ('set', PAIR)}, returns=('set', PAIR), props=P,
             requires=lambda S: [('objects of the context', sub(S.D_objs, objs(me(S)))), ('an attribute of the context', atts(me(S))[S.y])],
             ensures=lambda S: [('what the concept would cover', S.result == L.inter(RECT(one_more(S), OPRIME(me(S), one_more(S))), S.U))]),
]

COV = Function('CoveredBy', HS, HS, ArraySort(IntSort(), L.key_sort(('tuple', CON, 'real'))), IntSort(), SP)   # pairs in the rectangles of the first factors


def _more():
    E, N = Consts('E N', HS)
    Y = Const('Y', COV.domain(2))
    k, i = Ints('k i')
    p = Const('p', PS)
    r = lambda i: L.proj(Y[i], 0)
    L.axiom('CoveredBy', 'covered pairs: in', ForAll([E, N, Y, k, i, p], Implies(And(0 <= i, i < k, E[r(i)][g_(p)], N[r(i)][m_(p)]), COV(E, N, Y, k)[p]), patterns=[MultiPattern(COV(E, N, Y, k)[p], Y[i])]))
    w = Function('covw', HS, HS, COV.domain(2), IntSort(), PS, IntSort())(E, N, Y, k, p)
    L.axiom('CoveredBy', 'covered pairs: witness', ForAll([E, N, Y, k, p], Implies(COV(E, N, Y, k)[p], And(0 <= w, w < k, E[r(w)][g_(p)], N[r(w)][m_(p)])), patterns=[COV(E, N, Y, k)[p]]))


_more()


def rect(S, r):
    return RECT(S.ext(r), S.int(r))


def real(x):
    return ToReal(x) if x.is_int() else x


def cov(S, ys, k):
    E, N = S.hc()
    return COV(E, N, ys.arr, k)


def factors_so_far(S, ys, shares=True):
    c = me(S)
    r = lambda i: L.proj(ys[i], 0)
    return [('factors: new concepts', all_i(S, ys.n, lambda i: S.isnew(r(i)), ys)),
            ('factors: attributes', all_i(S, ys.n, lambda i: S.int(r(i)) == OPRIME(c, S.ext(r(i))), ys)),
            ('factors: objects', all_i(S, ys.n, lambda i: S.ext(r(i)) == APRIME(c, S.int(r(i))), ys)),
            ] + ([] if not shares else [('factors: reported coverage', all_i(S, ys.n, lambda i: L.proj(ys[i], 1) == real(card(L.inter(rect(S, r(i)), L.diff(CROSS(c), cov(S, ys, i))))) / real(card(CROSS(c))), ys))])


def outer(S, shares=True):
    c = me(S)
    return [('crosses', S.len_initial == card(CROSS(c))), ('there are crosses', S.len_initial > 0),
            ('what is left', setof(S.U) == L.diff(CROSS(c), cov(S, S.yielded, S.yielded.n)))] + factors_so_far(S, S.yielded, shares)


def chosen(S, plain=True):
    c, h = me(S), S.head
    return [('attributes', sub(S.Dj, atts(c))), ('objects of the new concept', S.C == L.inter(APRIME(c, h.D), EXTENT(c, S.j))), ('its attributes', S.D == OPRIME(c, APRIME(c, S.Dj))), ('its objects', APRIME(c, S.D) == S.C), ('pairs covered', S.to_remove == L.inter(RECT(S.C, S.D), S.U))] + \
        ([('as many as expected', S.maxDj[0] == card(S.to_remove))] if plain else [('something is covered', S.to_remove != L.empty(PS))]) + \
        [('one attribute more at least', And(sub(h.D, S.D), S.D[S.j], Not(h.D[S.j]))), ('ends: more attributes', And(card(S.D) > card(h.D), sub(S.D, atts(c)))), ('part of the rest', sub(S.to_remove, S.U)), ('at most what is left', S.V <= card(S.U))]


def extended(S):
    """one factor more"""
    c, h = me(S), S.head
    k = h.yielded.n
    ys = S.yielded
    was = lambda i: COV(h.hc()[0], h.hc()[1], h.yielded.arr, i)
    now = lambda i: cov(S, ys, i)
    R = RECT(S.C, S.D)
    before = lambda lab, f: ('factors before: ' + lab, S.forall([IntSort()], lambda i: Implies(within(i, k), f(i)), lambda i: [ys[i], h.yielded[i]]))
    return [('the factor', And(ys.n == k + 1, S.ext(L.proj(ys[k], 0)) == S.C, S.int(L.proj(ys[k], 0)) == S.D)),
            before('values', lambda i: ys[i] == h.yielded[i]), before('objects', lambda i: S.ext(L.proj(ys[i], 0)) == h.ext(L.proj(ys[i], 0))), before('attributes', lambda i: S.int(L.proj(ys[i], 0)) == h.int(L.proj(ys[i], 0))),
            ('covered before', S.forall([IntSort()], lambda i: Implies(And(0 <= i, i <= k), now(i) == was(i)), lambda i: [now(i), was(i)])),
            ('covered now', now(k + 1) == L.union(was(k), R)),
            ('covered by the factor', S.to_remove == L.inter(R, L.diff(CROSS(c), was(k)))),
            ('left', setof(S.U) == L.diff(setof(h.U), R)),
            ('covered and left', And(sub(S.to_remove, setof(h.U)), sub(setof(S.U), setof(h.U)), L.inter(setof(S.U), S.to_remove) == L.empty(PS))), ('something is covered', card(S.to_remove) > 0), ('not the same', setof(S.U) != setof(h.U)),
            ('ends: less is left', card(setof(S.U)) < card(setof(h.U)))]


def setof(x):
    return x if isinstance(x, ArrayRef) else x.set


def scores(S, U, fresh):
    if '_weighted' not in S._it.target:
        return []
    ls = S.ls_measures
    n = L.mul(S.len_objs_initial, S.len_atts_initial)
    return [('something to cover', Implies(fresh, S.V == 0)), ('a table', And(S.len_objs_initial > 0, S.len_atts_initial > 0, n > 0)),
            ('scores: not negative', all_i(S, ls.n, lambda i: L.proj(ls[i], 0) >= 0, ls)),
            ('score of a cross', S.forall([IntSort(), PS], lambda i, p: Implies(And(fresh, within(i, ls.n), U[p], m_(p) == L.proj(ls[i], 1)), L.proj(ls[i], 0) > 0), lambda i, p: [[ls[i], U[p]]])),
            ('a score for every cross', S.forall([PS], lambda p: Implies(And(fresh, U[p]), S.exists([IntSort()], lambda i: And(within(i, ls.n), m_(p) == L.proj(ls[i], 1)))), lambda p: U[p]))]


def nothing_more(S):
    """some attribute covers something at first"""
    c, U = me(S), setof(S.U)
    X = lambda p: L.inter(APRIME(c, S.D), EXTENT(c, m_(p)))
    fresh = S.D == L.empty(V)
    return [('all objects at first', Implies(fresh, APRIME(c, S.D) == objs(c))),
            ('crosses left', S.forall([PS], lambda p: Implies(U[p], And(atts(c)[m_(p)], EXTENT(c, m_(p))[g_(p)])), lambda p: U[p])),
            ('covered by their attribute', S.forall([PS], lambda p: Implies(And(fresh, U[p]), And(X(p)[g_(p)], OPRIME(c, X(p))[m_(p)])), lambda p: U[p])),
            ] + scores(S, U, fresh) + [('not at first', Not(fresh))]


def inner(S):
    return inner0(S) + [('something is left', card(setof(S.U)) > 0)]


def inner0(S):
    c = me(S)
    start = And(S.D == L.empty(V), S.V == 0, S.to_remove == L.empty(PS))
    b = S.bound('C')
    if is_false(b):
        return [('a concept or nothing yet', start)]
    if '_weighted' in S._it.target:
        b = And(b, S.bound('j_score'))
    return [('a concept or nothing yet', Or(start, And(b, S.C == APRIME(c, S.D), S.D == OPRIME(c, S.C), S.V > 0, S.to_remove == L.inter(RECT(S.C, S.D), S.U), S.V == card(S.to_remove))))]


def covered_share(S):
    c, ys = me(S), S.result
    n, left = card(CROSS(c)), card(L.diff(CROSS(c), cov(S, ys, ys.n)))
    return [('covered share', Implies(n > 0, (real(n) - real(left)) / real(n) >= S.fidelity)),
            ('full fidelity: everything is covered', Implies(S.fidelity == 1, sub(CROSS(c), cov(S, ys, ys.n)))),
            ('nothing else is covered', sub(cov(S, ys, ys.n), CROSS(c)))]


def rectangles(S):
    c, ys = me(S), S.result
    r = lambda i: L.proj(ys[i], 0)
    n, left = card(CROSS(c)), card(L.diff(CROSS(c), cov(S, ys, ys.n)))
    return [('parts', all_i(S, ys.n, lambda i: And(sub(S.ext(r(i)), objs(c)), sub(S.int(r(i)), atts(c))), ys)),
            ('crosses only', S.forall([IntSort(), PS], lambda i, p: Implies(And(within(i, ys.n), S.ext(r(i))[g_(p)], S.int(r(i))[m_(p)]), CROSS(c)[p]), lambda i, p: [[ys[i], CROSS(c)[p]]])),
            ('full fidelity: nothing is left', Implies(And(S.fidelity == 1, n > 0), left == 0)), ('nothing to cover', Implies(n == 0, CROSS(c) == L.empty(PS))), ('nothing left', Implies(left == 0, L.diff(CROSS(c), cov(S, ys, ys.n)) == L.empty(PS)))]


def greedy(name, plain):
    return Contract(X + name, {'cxt': CX, 'fidelity': 'real'}, returns=('list', ('tuple', CON, 'real')), props=P, heap_mod=('new', ('Concept', 'extent'), ('Concept', 'intent')),
                    requires=lambda S: [('fidelity', And(0 < S.fidelity, S.fidelity <= 1))],
                    loops={0: LoopC(lambda S: outer(S, plain), at_end=extended), 1: LoopC(inner, at_end=lambda S: chosen(S, plain), on_break=nothing_more, types={'D': ('set', 'V'), 'to_remove': ('set', PAIR), 'C': ('set', 'V'), 'j_score': 'real'})},
                    exit_lemmas=rectangles, ensures=lambda S: factors_so_far(S, S.result, plain) + covered_share(S))


contracts += [greedy('algorithm2', True), greedy('algorithm2_weighted', False)]


# ---- the variant with conditions on the factors
def good(S, A, B_):
    n, m, k = card(A), card(B_), S.min_atts_and_objs
    return And(If(S.objs_ge_atts, And(n >= m, m >= k), And(n >= k, m >= k)))


def found_so_far(S, ys):
    c = me(S)
    r = lambda i: L.proj(ys[i], 0)
    return [('factors: new concepts', all_i(S, ys.n, lambda i: S.isnew(r(i)), ys)),
            ('factors: attributes', all_i(S, ys.n, lambda i: S.int(r(i)) == OPRIME(c, S.ext(r(i))), ys)),
            ('factors: objects', all_i(S, ys.n, lambda i: S.ext(r(i)) == APRIME(c, S.int(r(i))), ys)),
            ('factors: sizes', all_i(S, ys.n, lambda i: good(S, S.ext(r(i)), S.int(r(i))), ys))]


def outer_c(S):
    return [('crosses', S.len_initial == card(CROSS(me(S)))), ('there are crosses', S.len_initial > 0), ('crosses left', sub(setof(S.U), CROSS(me(S))))] + found_so_far(S, S.yielded)


def inner_c(S):
    c = me(S)
    D, C, R = setof(S.D), setof(S.C), setof(S.to_remove)
    fresh = And(D == L.empty(V), C == objs(c), S.V == 0, R == L.empty(PS))
    return [('nothing yet or a concept', Or(fresh, And(C == APRIME(c, D), D == OPRIME(c, C), S.exists([V], lambda m: And(setof(S.available_atts)[m], D[m]))))),
            ('what is removed', sub(R, setof(S.U))),
            ('columns', S.forall([V], lambda m: Implies(setof(S.available_atts)[m], S.exists([V], lambda g: setof(S.U)[L.mk_tuple([g, m])])), lambda m: setof(S.available_atts)[m])),
            ('same crosses left', setof(S.U) == setof(S.outer_head().U)),
            ('attributes', And(sub(D, atts(c)), sub(setof(S.available_atts), atts(c))))] + found_so_far(S, S.yielded)


def shrinks(S):
    h = S.head
    return [('part of what was left', sub(setof(S.U), setof(h.U))), ('not all of it', setof(S.U) != setof(h.U)), ('ends: less is left', card(setof(S.U)) < card(setof(h.U)))]


def grows(S):
    h = S.head
    return [('one attribute more at least', And(sub(h.D, S.D), S.D[S.j], Not(h.D[S.j]))), ('ends: more attributes', card(S.D) > card(h.D))]


contracts.append(Contract(X + 'algorithm2_w_condition', {'cxt': CX, 'fidelity': 'real', 'allow_repeatitions': 'bool', 'min_atts_and_objs': 'int', 'objs_ge_atts': 'bool'},
                          returns=('list', ('tuple', CON, 'real', 'real')), props=P, heap_mod=('new', ('Concept', 'extent'), ('Concept', 'intent')), requires=lambda S: [('fidelity', And(0 < S.fidelity, S.fidelity <= 1))],
                          loops={0: LoopC(outer_c, at_end=shrinks, types={'U': ('set', PAIR), 'removed_atts': ('set', 'V')}), 1: LoopC(inner_c, at_end=grows, types={'D': ('set', 'V'), 'to_remove': ('set', PAIR), 'C': ('set', 'V'), 'U': ('set', PAIR), 'removed_atts': ('set', 'V')})},
                          ensures=lambda S: found_so_far(S, S.result)))
