"""The object-incremental implication cover and its minimisation (C19)."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem
from engine.contract import Contract, Lemma, LoopC, Fn, Lit, Inst
from engine.core import *
from .ctxdef import *
from .ctxnew import within, all_i
from .context import me, cme
from .closure import CL, HP, LA, LI
from .norris import PXI, CLI, CX
from .dgbasis import MOD, SNM, CLO, F, function_named

P19 = ('C19',)
IMP = ('ref', 'Implication')
KS = L.key_sort(IMP)
KSET = ArraySort(KS, BoolSort())
IK = Function('ImplicationKeys', HP, HP, LA, IntSort(), KSET)      # values (premise, reduced conclusion) of the first implications of a list
SB = Function('Subsumed', KSET, SV, SV, BoolSort())                # one of them has a premise within the first set and a conclusion containing the second
CK = Function('ClosureBy', KSET, SV, SV)                           # least superset respecting them
p0 = lambda q: L.proj(q, 0)
p1 = lambda q: L.proj(q, 1)
NONE = L.empty(V)


def key(P, C, r):
    return L.mk_tuple([P[r], L.diff(C[r], P[r])])


def below(q, r):
    """q is subsumed by r"""
    return And(SNM(p0(r), p0(q)), SNM(p1(q), p1(r)))


def _axioms():
    P, C = Consts('P C', HP)
    a = Const('a', LA)
    n, k = Ints('n k')
    q = Const('q', KS)
    K = Const('K', KSET)
    p, c, s, X = Consts('p c s X', SV)
    S = IK(P, C, a, n)
    L.axiom('ImplicationKeys', 'values of implications: in', ForAll([P, C, a, n, k], Implies(And(0 <= k, k < n), S[key(P, C, a[k])]), patterns=[MultiPattern(S, a[k])]))
    w = Function('ikw', HP, HP, LA, IntSort(), KS, IntSort())(P, C, a, n, q)
    L.axiom('ImplicationKeys', 'values of implications: witness', ForAll([P, C, a, n, q], Implies(S[q], And(0 <= w, w < n, q == key(P, C, a[w]))), patterns=[S[q]]))
    b = SB(K, p, c)
    L.axiom('Subsumed', 'subsumed: in', ForAll([K, p, c, q], Implies(And(K[q], SNM(p0(q), p), SNM(c, p1(q))), b), patterns=[MultiPattern(b, K[q])]))
    w = Function('sbw', KSET, SV, SV, KS)(K, p, c)
    L.axiom('Subsumed', 'subsumed: witness', ForAll([K, p, c], Implies(b, And(K[w], SNM(p0(w), p), SNM(c, p1(w)))), patterns=[b]))
    x = CK(K, s)
    L.axiom('ClosureBy', 'closure: contains the set', ForAll([K, s], SNM(s, x), patterns=[x]))
    L.axiom('ClosureBy', 'closure: respects', ForAll([K, s, q], Implies(And(K[q], SNM(p0(q), x)), SNM(p1(q), x)), patterns=[MultiPattern(x, K[q])]))
    w = Function('ckbad', KSET, SV, KS)(K, X)
    L.axiom('ClosureBy', 'closure: least', ForAll([K, s, X], Or(Not(SNM(s, X)), SNM(x, X), And(K[w], SNM(p0(w), X), Not(SNM(p1(w), X)))), patterns=[MultiPattern(x, SNM(s, X))]))


_axioms()


# ---- sets of values, and what the algorithm maintains about them
FREE = Function('NoneSubsumed', KSET, BoolSort())                  # none of them is subsumed by another
DIR = Function('Direct', KSET, SV, BoolSort())                     # every closure comes from the set and one of them
FLT = Function('Without', KSET, KS, KSET)                          # those not subsumed by one
ADDK = Function('WithInstead', KSET, KS, KSET)                     # the same, and that one
UN = Function('EitherSet', KSET, KSET, KSET)
GROW = Function('SaysAsMuch', KSET, KSET, BoolSort())              # whatever the first subsumes the second does, too
SOUND = Function('SoundFor', KSET, SV, SV, KSET, BoolSort())       # the last follow from the first and hold for the new object
COV1 = Function('CoversOld', KSET, SV, KSET, BoolSort())
SAID = Function('CoversMore', KSET, KS, SV, BoolSort())
COV2 = Function('CoversAllMore', KSET, SV, KSET, BoolSort())


def fits(q, x):
    """the implication holds for the new object"""
    return Or(Not(SNM(p0(q), x)), SNM(p1(q), x))


def more(q, b):
    """with one attribute more in the premise"""
    return L.mk_tuple([L.add(p0(q), b), L.remove(p1(q), b)])


def said(U, r):
    return Or(p1(r) == NONE, SB(U, p0(r), p1(r)))


def meets(q, x):
    return L.mk_tuple([p0(q), L.inter(p1(q), x)])


def sound(K, x, A, q):
    return And(SNM(p0(q), A), SNM(p1(q), A), L.inter(p1(q), p0(q)) == NONE, SNM(p1(q), CK(K, p0(q))), fits(q, x))


def old_said(U, x, q):
    return If(fits(q, x), SB(U, p0(q), p1(q)), said(U, meets(q, x)))


def _axioms2():
    J, K, U = Consts('J K U', KSET)
    q, r, k = Consts('q r k', KS)
    A, X, x, p, c, D = Consts('A X x p c D', SV)
    b = Const('b', V)
    def every(sym, pred, vs, dom, body, w):
        """pred(*vs) says body for all q in dom"""
        L.axiom(sym, sym + ': in', ForAll(vs + [q], Implies(And(pred, dom[q]), body(q)), patterns=[MultiPattern(pred, dom[q])]))
        u = Function(w, *[v.sort() for v in vs], KS)(*vs)
        L.axiom(sym, sym + ': witness', ForAll(vs, Or(pred, And(dom[u], Not(body(u)))), patterns=[pred]))
    f = FREE(K)
    L.axiom('NoneSubsumed', 'none subsumed: in', ForAll([K, q, r], Implies(And(f, K[q], K[r], below(q, r)), q == r), patterns=[MultiPattern(f, K[q], K[r])]))
    u, v = Function('freew1', KSET, KS)(K), Function('freew2', KSET, KS)(K)
    L.axiom('NoneSubsumed', 'none subsumed: witness', ForAll([K], Or(f, And(K[u], K[v], below(u, v), u != v)), patterns=[f]))
    d = DIR(K, A)
    one = lambda X: Or(CK(K, X) == X, SB(K, X, L.diff(CK(K, X), X)))
    L.axiom('Direct', 'direct: in', ForAll([K, A, X], Implies(And(d, SNM(X, A)), one(X)), patterns=[MultiPattern(d, CK(K, X))]))
    w = Function('dirw', KSET, SV, SV)(K, A)
    L.axiom('Direct', 'direct: witness', ForAll([K, A], Or(d, And(SNM(w, A), Not(one(w)))), patterns=[d]))
    L.axiom('Without', 'without those subsumed', ForAll([K, k, q], FLT(K, k)[q] == And(K[q], Not(below(q, k))), patterns=[FLT(K, k)[q], MultiPattern(FLT(K, k), K[q])]))
    L.axiom('WithInstead', 'with one instead', ForAll([K, k, q], ADDK(K, k)[q] == Or(q == k, And(K[q], Not(below(q, k)))), patterns=[ADDK(K, k)[q], MultiPattern(ADDK(K, k), K[q])]))
    L.axiom('WithInstead', 'with one instead: that one', ForAll([K, k], ADDK(K, k)[k], patterns=[ADDK(K, k)]))
    u = UN(J, K)
    L.axiom('EitherSet', 'either set', ForAll([J, K, q], u[q] == Or(J[q], K[q]), patterns=[u[q], MultiPattern(u, J[q]), MultiPattern(u, K[q])]))
    g = GROW(J, K)
    L.axiom('SaysAsMuch', 'says as much: in', ForAll([J, K, p, c], Implies(And(g, SB(J, p, c)), SB(K, p, c)), patterns=[MultiPattern(g, SB(J, p, c)), MultiPattern(g, SB(K, p, c))]))
    p_, c_ = Function('groww1', KSET, KSET, SV)(J, K), Function('groww2', KSET, KSET, SV)(J, K)
    L.axiom('SaysAsMuch', 'says as much: witness', ForAll([J, K], Or(g, And(SB(J, p_, c_), Not(SB(K, p_, c_)))), patterns=[g]))
    every('SoundFor', SOUND(K, x, A, U), [K, x, A, U], U, lambda q: sound(K, x, A, q), 'soundw')
    every('CoversOld', COV1(K, x, U), [K, x, U], K, lambda q: old_said(U, x, q), 'cov1w')
    every('CoversAllMore', COV2(K, D, U), [K, D, U], K, lambda q: SAID(U, q, D), 'cov2w')
    m = SAID(U, q, D)
    L.axiom('CoversMore', 'covers more: in', ForAll([U, q, D, b], Implies(And(m, D[b]), said(U, more(q, b))), patterns=[MultiPattern(m, D[b])]))
    w = Function('saidw', KSET, KS, SV, V)(U, q, D)
    L.axiom('CoversMore', 'covers more: witness', ForAll([U, q, D], Or(m, And(D[w], Not(said(U, more(q, w))))), patterns=[m]))


_axioms2()


def T(K, x, X):
    """closure after the set x has become closed as well"""
    return If(SNM(X, x), L.inter(CK(K, X), x), CK(K, X))


def _step():
    J, K, U, U1 = Consts('J K U U1', KSET)
    q, r, k = Consts('q r k', KS)
    A, X, x, D = Consts('A X x D', SV)
    b = Const('b', V)
    lem = lambda name, syms, vs, body, pats, **kw: Lemma(name, syms, vs, body, pats, P19, **kw)
    hyp = lambda K, x, A, U: And(SNM(x, A), DIR(K, A), SOUND(K, x, A, U), COV1(K, x, U), COV2(K, L.diff(A, x), U))
    both = lambda K, x, A, U, X: And(hyp(K, x, A, U), SNM(X, A))
    base = lambda K, X: Or(CK(K, X) == X, SB(K, X, L.diff(CK(K, X), X)))
    W = lambda K, X: Function('sbw', KSET, SV, SV, KS)(K, X, L.diff(CK(K, X), X))
    S2 = lambda U, r: Or(p1(r) == NONE, SB(U, p0(r), p1(r)))
    return [
        lem('conclusions of a direct cover', ('NoneSubsumed', 'Direct'), [K, A, q], lambda K, A, q: Implies(And(FREE(K), DIR(K, A), K[q], SNM(p0(q), A), L.inter(p1(q), p0(q)) == NONE), p1(q) == L.diff(CK(K, p0(q)), p0(q))),
            lambda K, A, q: [(FREE(K), DIR(K, A), K[q])], by=lambda K, A, q: [('the closure of the premise', Or(base(K, p0(q)), Not(DIR(K, A)), Not(SNM(p0(q), A))))]),
        lem('fewer are not subsumed', 'NoneSubsumed', [J, K], lambda J, K: Implies(And(FREE(K), L.sub_f(KS)(J, K)), FREE(J)), lambda J, K: [(FREE(J), FREE(K))]),
        lem('parts are not subsumed', ('NoneSubsumed', 'EitherSet'), [J, K], lambda J, K: Implies(FREE(UN(J, K)), And(FREE(J), FREE(K))), lambda J, K: FREE(UN(J, K))),
        lem('not subsumed after adding', ('NoneSubsumed', 'WithInstead'), [K, k], lambda K, k: Implies(And(FREE(K), Not(SB(K, p0(k), p1(k)))), FREE(ADDK(K, k))), lambda K, k: FREE(ADDK(K, k))),
        lem('not subsumed after leaving out', ('NoneSubsumed', 'Without'), [K, k], lambda K, k: Implies(FREE(K), FREE(FLT(K, k))), lambda K, k: FREE(FLT(K, k))),
        lem('adding says as much', ('SaysAsMuch', 'WithInstead'), [K, k], lambda K, k: GROW(K, ADDK(K, k)), lambda K, k: ADDK(K, k)),
        lem('more says as much', ('SaysAsMuch', 'EitherSet'), [J, K], lambda J, K: And(GROW(J, UN(J, K)), GROW(K, UN(J, K))), lambda J, K: UN(J, K)),
        lem('as much is transitive', 'SaysAsMuch', [J, K, U], lambda J, K, U: Implies(And(GROW(J, K), GROW(K, U)), GROW(J, U)), lambda J, K, U: [(GROW(J, K), GROW(K, U))]),
        lem('adding to the second', ('WithInstead', 'Without', 'EitherSet'), [J, K, k], lambda J, K, k: UN(FLT(J, k), ADDK(K, k)) == ADDK(UN(J, K), k), lambda J, K, k: UN(FLT(J, k), ADDK(K, k))),
        lem('what was covered', ('CoversOld', 'SaysAsMuch'), [K, x, U, U1], lambda K, x, U, U1: Implies(And(COV1(K, x, U), GROW(U, U1)), COV1(K, x, U1)), lambda K, x, U, U1: [(COV1(K, x, U), GROW(U, U1))]),
        lem('what was covered, larger set', ('CoversOld', 'Subsumed'), [K, x, U, U1], lambda K, x, U, U1: Implies(And(COV1(K, x, U), L.sub_f(KS)(U, U1)), COV1(K, x, U1)), lambda K, x, U, U1: [(COV1(K, x, U), COV1(K, x, U1))]),
        lem('more that was covered', ('CoversMore', 'SaysAsMuch'), [q, D, U, U1], lambda q, D, U, U1: Implies(And(SAID(U, q, D), GROW(U, U1)), SAID(U1, q, D)), lambda q, D, U, U1: [(SAID(U, q, D), GROW(U, U1))]),
        lem('all that was covered', ('CoversAllMore', 'SaysAsMuch'), [K, D, U, U1], lambda K, D, U, U1: Implies(And(COV2(K, D, U), GROW(U, U1)), COV2(K, D, U1)), lambda K, D, U, U1: [(COV2(K, D, U), GROW(U, U1))]),
        lem('one more is covered', 'CoversMore', [U, q, D, b], lambda U, q, D, b: Implies(And(SAID(U, q, D), said(U, more(q, b))), SAID(U, q, L.add(D, b))), lambda U, q, D, b: [(SAID(U, q, D), SAID(U, q, L.add(D, b)))]),
        lem('all of one more are covered', 'CoversAllMore', [K, q, D, U], lambda K, q, D, U: Implies(And(COV2(K, D, U), SAID(U, q, D)), COV2(L.add(K, q), D, U)), lambda K, q, D, U: COV2(L.add(K, q), D, U)),
        lem('step: sound within', ('SoundFor', 'CoversOld'), [K, x, A, U, X], lambda K, x, A, U, X: Implies(And(both(K, x, A, U, X), SNM(X, x)), SNM(CK(U, X), L.inter(CK(K, X), x))), lambda K, x, A, U, X: [(SOUND(K, x, A, U), CK(U, X))],
            by=lambda K, x, A, U, X: [('start', Implies(SNM(X, x), SNM(X, L.inter(CK(K, X), x))))]),
        lem('step: sound', ('SoundFor', 'CoversOld'), [K, x, A, U, X], lambda K, x, A, U, X: Implies(both(K, x, A, U, X), SNM(CK(U, X), CK(K, X))), lambda K, x, A, U, X: [(SOUND(K, x, A, U), CK(U, X))]),
        lem('step: complete within', ('CoversOld', 'SoundFor'), [K, x, A, U, X], lambda K, x, A, U, X: Implies(And(both(K, x, A, U, X), SNM(X, x)), Or(L.inter(CK(K, X), x) == X, SB(U, X, L.diff(L.inter(CK(K, X), x), X)))), lambda K, x, A, U, X: [(SOUND(K, x, A, U), CK(U, X))],
            by=lambda K, x, A, U, X: [('before', Implies(both(K, x, A, U, X), base(K, X))), ('the implication', Implies(And(both(K, x, A, U, X), CK(K, X) != X), And(K[W(K, X)], old_said(U, x, W(K, X)), SNM(p0(W(K, X)), X), SNM(L.diff(CK(K, X), X), p1(W(K, X)))))),
                                      ('covered', Implies(And(both(K, x, A, U, X), SNM(X, x), CK(K, X) != X), Or(SB(U, p0(W(K, X)), L.inter(p1(W(K, X)), x)), L.inter(p1(W(K, X)), x) == NONE)))]),
        lem('step: complete', ('CoversOld', 'SoundFor', 'CoversMore', 'CoversAllMore'), [K, x, A, U, X], lambda K, x, A, U, X: Implies(And(both(K, x, A, U, X), Not(SNM(X, x))), Or(CK(K, X) == X, SB(U, X, L.diff(CK(K, X), X)))), lambda K, x, A, U, X: [(SOUND(K, x, A, U), CK(U, X))],
            by=lambda K, x, A, U, X: [('before', Implies(both(K, x, A, U, X), base(K, X))), ('the implication', Implies(And(both(K, x, A, U, X), CK(K, X) != X), And(K[W(K, X)], SAID(U, W(K, X), L.diff(A, x)), old_said(U, x, W(K, X)), SNM(p0(W(K, X)), X), SNM(L.diff(CK(K, X), X), p1(W(K, X)))))),
                                      ('another attribute', Implies(And(both(K, x, A, U, X), Not(SNM(X, x)), CK(K, X) != X), Exists([b], And(X[b], A[b], Not(x[b]), said(U, more(W(K, X), b)), SNM(p0(more(W(K, X), b)), X), SNM(L.diff(CK(K, X), X), p1(more(W(K, X), b)))))))]),
        lem('step: closures', ('SoundFor', 'CoversOld'), [K, x, A, U, X], lambda K, x, A, U, X: Implies(both(K, x, A, U, X), CK(U, X) == T(K, x, X)), lambda K, x, A, U, X: [(SOUND(K, x, A, U), COV1(K, x, U), CK(U, X))],
            by=lambda K, x, A, U, X: [('within', Implies(And(both(K, x, A, U, X), SNM(X, x)), SNM(L.inter(CK(K, X), x), CK(U, X)))), ('otherwise', Implies(And(both(K, x, A, U, X), Not(SNM(X, x))), SNM(CK(K, X), CK(U, X))))]),
        lem('step: direct', ('SoundFor', 'CoversOld'), [K, x, A, U], lambda K, x, A, U: Implies(hyp(K, x, A, U), DIR(U, A)), lambda K, x, A, U: [(SOUND(K, x, A, U), COV1(K, x, U), DIR(U, A))]),
    ]


def _lemmas():
    K, K2 = Consts('K K2', KSET)
    s, t, X, p, c, A, x = Consts('s t X p c A x', SV)
    P, C = Consts('P C', HP)
    a = Const('a', LA)
    n, n1, k, i = Ints('n n1 k i')
    q, r = Consts('q r', KS)
    return [
        Lemma('closure under values', ('ImplicationKeys', 'CL', 'ClosureBy'), [P, C, a, n, s], lambda P, C, a, n, s: CL(P, C, a, n, s) == CK(IK(P, C, a, n), s), lambda P, C, a, n, s: [(CL(P, C, a, n, s), IK(P, C, a, n))], P19,
              by=lambda P, C, a, n, s: [('at most', SNM(CL(P, C, a, n, s), CK(IK(P, C, a, n), s))), ('at least', SNM(CK(IK(P, C, a, n), s), CL(P, C, a, n, s)))]),
        Lemma('values of one more', 'ImplicationKeys', [P, C, a, n, n1], lambda P, C, a, n, n1: Implies(And(0 <= n, n1 == n + 1), IK(P, C, a, n1) == L.add(IK(P, C, a, n), key(P, C, a[n]))), lambda P, C, a, n, n1: [(IK(P, C, a, n), IK(P, C, a, n1))], P19),
        Lemma('values of an extended list', 'ImplicationKeys', [P, C, a, n, n1, k], lambda P, C, a, n, n1, k: Implies(And(0 <= n, n1 == n + 1), IK(P, C, Store(a, n, k), n1) == L.add(IK(P, C, a, n), key(P, C, k))), lambda P, C, a, n, n1, k: IK(P, C, Store(a, n, k), n1), P19,
              by=lambda P, C, a, n, n1, k: [('the same', ForAll([i], Implies(And(0 <= i, i < n), Store(a, n, k)[i] == a[i]), patterns=[a[i]])),
                                            ('the old ones', ForAll([i], Implies(And(0 <= i, i < n, n1 == n + 1), IK(P, C, Store(a, n, k), n1)[key(P, C, a[i])]), patterns=[a[i]])),
                                            ('the new one', Implies(And(0 <= n, n1 == n + 1), And(Store(a, n, k)[n] == k, IK(P, C, Store(a, n, k), n1)[key(P, C, k)]))),
                                            ('no others', ForAll([i], Implies(And(0 <= i, i < n1, n1 == n + 1), L.add(IK(P, C, a, n), key(P, C, k))[key(P, C, Store(a, n, k)[i])]), patterns=[Store(a, n, k)[i]]))]),
        Lemma('values of none', 'ImplicationKeys', [P, C, a], lambda P, C, a: IK(P, C, a, I(0)) == L.empty(KS), lambda P, C, a: IK(P, C, a, I(0)), P19),
        Lemma('subsumed by a larger premise', 'Subsumed', [K, p, c, s, t], lambda K, p, c, s, t: Implies(And(SB(K, p, c), SNM(p, s), SNM(t, c)), SB(K, s, t)), lambda K, p, c, s, t: [(SB(K, p, c), SB(K, s, t))], P19),
        Lemma('closure of less', 'ClosureBy', [K, s, t], lambda K, s, t: Implies(SNM(s, CK(K, t)), SNM(CK(K, s), CK(K, t))), lambda K, s, t: [(CK(K, s), CK(K, t))], P19),
        Lemma('what is subsumed is in the closure', ('Subsumed', 'ClosureBy'), [K, p, c, X], lambda K, p, c, X: Implies(And(SB(K, p, c), SNM(p, CK(K, X))), SNM(c, CK(K, X))), lambda K, p, c, X: [(SB(K, p, c), CK(K, X))], P19),
    ]


contracts = _lemmas() + _step()
IC = F + 'implication_covers.py:'
def ik(S, lst, n=None):
    P, C = S.hp()
    assert is_int_value(lst.off) and lst.off.as_long() == 0
    return IK(P, C, lst.arr, lst.n if n is None else n)


def k_(S, r):
    return key(*S.hp(), r)


def distinct(S, lst, g=None):
    """no two positions with equal values"""
    return S.forall([IntSort(), IntSort()], lambda i, j: Implies(And(0 <= i, i < j, j < lst.n), k_(S, lst[i]) != k_(S, lst[j])), lambda i, j: [[lst[i], lst[j]]])


def is_free(S, K):
    return S.forall([KS, KS], lambda q, r: Implies(And(K[q], K[r], q != r), Not(below(q, r))), lambda q, r: [[K[q], K[r]]])


def kinds(f):
    return [(v, function_named(F + 'closure_operators.py', v)) for v in ('simple_closure', 'lin_closure')]


for v, spec in kinds(None):
    contracts.append(Contract(IC + 'is_redundant', {'imp': IMP, 'basis': LI, 'close': spec}, returns='bool', variant=v, props=P19, ensures=lambda S: [
        ('the conclusion follows', S.result == sub(p1(k_(S, S.imp)), CL(*S.hp(), S.basis.arr, S.basis.n, S.prem(S.imp))))]))
contracts += [
    Contract(IC + 'is_subsumed_simply', {'imp': IMP, 'by_imp': IMP}, returns='bool', props=P19, nocall=True, ensures=lambda S: [('subsumed', S.result == below(k_(S, S.imp), k_(S, S.by_imp)))]),
    Contract(IC + 'is_subsumed', {'imp': IMP, 'by_imp': IMP}, returns='bool', props=P19, nocall=True, ensures=lambda S: [('subsumed', S.result == below(k_(S, S.imp), k_(S, S.by_imp)))]),
    Contract(IC + 'is_new', {'imp': IMP, 'implications': LI}, returns='bool', props=P19,
             requires=lambda S: [('none of them is subsumed', all_i(S, S.implications.n, lambda j: Not(below(k_(S, S.implications[j]), k_(S, S.imp))), S.implications))],
             loops={0: LoopC(lambda S: [('none subsumes it so far', all_i(S, S.k, lambda j: Not(below(k_(S, S.imp), k_(S, S.implications[j]))), S.implications))])},
             ensures=lambda S: [('not subsumed', S.result == And(p1(k_(S, S.imp)) != NONE, Not(SB(ik(S, S.implications), p0(k_(S, S.imp)), p1(k_(S, S.imp))))))]),
]




def removal(plus):
    def requires(S):
        l, k = S.implications, k_(S, S.imp)
        K = ik(S, l)
        out = [('different values', distinct(S, l)), ('none subsumes another', FREE(K))]
        if plus:
            out.append(('same premise, at least the conclusion', all_i(S, l.n, lambda i: Implies(p0(k_(S, l[i])) == p0(k), SNM(p1(k), p1(k_(S, l[i])))), l)))
        return out
    return requires


def removed_ok(S):
    o, k = S.old, k_(S.old, S.old.imp)
    K, K1 = ik(o, o.implications), ik(S, S.implications)
    return [('different values', distinct(S, S.implications)),
            ('from the list', S.forall([IntSort()], lambda i: Implies(within(i, S.implications.n), o.implications.set[S.implications[i]]), lambda i: S.implications[i])),
            ('nothing happens to a subsumed one', Implies(Not(S.result), And(K1 == K, Or(p1(k) == NONE, SB(K, p0(k), p1(k)))))),
            ('the subsumed ones go', Implies(S.result, K1 == FLT(K, k))),
            ('it is new', Implies(S.result, And(p1(k) != NONE, Not(SB(K, p0(k), p1(k))))))]


def removing(flag):
    def inv(S):
        l, l0, k = S.implications, S.old.implications, k_(S, S.imp)
        kk = lambda i: k_(S, l0[i])
        gone = lambda i: below(kk(i), k)
        out = [('different values', distinct(S, l)), ('from the list', all_i(S, l.n, lambda i: l0.set[l[i]], l)),
               ('the others stay', all_i(S, l0.n, lambda i: Implies(Or(i >= S.k, Not(gone(i))), l.set[l0[i]]), l0)),
               ('the subsumed ones go', all_i(S, S.k, lambda i: Implies(gone(i), Not(l.set[l0[i]])), l0)),
               ('something to do', p1(k) != NONE)]
        can = S.can_be_subsumed if flag else None
        none = And(l.n == l0.n, all_i(S, S.k, lambda i: And(Not(gone(i)), Not(below(k, kk(i)))), l0))
        some = S.exists([IntSort()], lambda i: And(within(i, S.k), gone(i), Not(below(k, kk(i)))))
        if flag:
            out += [('none so far', Implies(can, none)), ('one so far', Implies(Not(can), some))]
        else:
            out += [('so far', Or(none, some))]
        return out
    return LoopC(inv)


def bodies(S, K, f, pats=None):
    return S.forall([KS], lambda q: Implies(K[q], f(q)), lambda q: K[q])


for name, plus, flag in (('remove_subsumed_simply', False, True), ('remove_subsumed', True, True), ('remove_subsumed_plus', True, False)):
    contracts.append(Contract(IC + name, {'imp': IMP, 'implications': LI}, returns='bool', props=P19, modifies=('implications',), requires=removal(plus), ensures=removed_ok, loops={0: removing(flag)}))


def add_ok(S):
    o, k = S.old, k_(S.old, S.old.imp)
    Kv, K, K1 = ik(o, o.valid), ik(o, o.new_valid), ik(S, S.new_valid)
    skip = Or(p1(k) == NONE, SB(Kv, p0(k), p1(k)), SB(K, p0(k), p1(k)))
    return [('different values', distinct(S, S.new_valid)),
            ('from the list', S.forall([IntSort()], lambda i: Implies(within(i, S.new_valid.n), Or(S.new_valid[i] == S.imp, o.new_valid.set[S.new_valid[i]])), lambda i: S.new_valid[i])),
            ('nothing happens to a subsumed one', Implies(skip, K1 == K)),
            ('it takes the place of those it subsumes', Implies(Not(skip), K1 == ADDK(K, k)))]


contracts.append(Contract(IC + 'add_smartly', {'imp': IMP, 'new_valid': LI, 'valid': LI}, props=P19, modifies=('new_valid',),
                          requires=lambda S: [('different values', distinct(S, S.new_valid)), ('none subsumes another', FREE(ik(S, S.new_valid))),
                                              ('none of the valid ones is subsumed', all_i(S, S.valid.n, lambda j: Not(below(k_(S, S.valid[j]), k_(S, S.imp))), S.valid))], ensures=add_ok))


# ---- one object more
def sorting(S):
    b, x, g = S.basis, S.intent, S.old
    K = ik(S, b, S.k)
    out = []
    for nm, l, f in (('valid', S.valid, lambda q: fits(q, x)), ('invalid', S.invalid, lambda q: Not(fits(q, x)))):
        out += [(nm + ': different values', distinct(S, l)), (nm + ': from the list', all_i(S, l.n, lambda i: b.set[l[i]], l)),
                (nm + ': those so far', S.forall([KS], lambda q: ik(S, l)[q] == And(K[q], f(q)), lambda q: ik(S, l)[q]))]
    return out


def given_ok(S):
    K, A = ik(S, S.basis), S.attributes
    return [('different values', distinct(S, S.basis)), ('none subsumes another', FREE(K)), ('direct', DIR(K, A)), ('the intent consists of attributes', sub(S.intent, A)),
            ('attributes', bodies(S, K, lambda q: And(SNM(p0(q), A), SNM(p1(q), A))))]


def old_keys(S):
    o = S.old
    return ik(o, o.basis)


def covering(S):
    o, x, A = S.old, S.old.intent, S.old.attributes
    Kb, Kv, Kn = old_keys(S), ik(S, S.valid), ik(S, S.new_valid)
    return Kb, Kv, Kn, UN(Kv, Kn), x, A


def restricting(S):
    Kb, Kv, Kn, U, x, A = covering(S)
    Ki = ik(S, S.invalid, S.k)
    return [('valid ones stay', Kv == ik(S.entry, S.entry.valid)), ('invalid ones stay', ik(S, S.invalid) == ik(S.entry, S.entry.invalid)), ('valid: different values', distinct(S, S.valid)),
            ('different values', distinct(S, S.new_valid)), ('none subsumes another', FREE(UN(Kv, Kn))), ('old and new', bodies(S, Kn, lambda q: Not(Kv[q]))), ('sound', SOUND(Kb, x, A, UN(Kv, Kn))),
            ('consequences', bodies(S, Kn, lambda q: And(SB(Kb, p0(q), p1(q)), SNM(p0(q), x)))),
            ('nothing left out', bodies(S, Ki, lambda q: said(UN(Kv, Kn), meets(q, x))))]


def new_parts(S):
    Kb, Kv, Kn, U, x, A = covering(S)
    nk = meets(k_(S, S.invalid[S.k]), x)
    return [('this one', And(L.inter(p1(nk), p0(nk)) == NONE, SB(Kb, p0(nk), p1(nk)))), ('valid ones are not below', bodies(S, Kv, lambda q: Not(below(q, nk)))), ('sound', sound(Kb, x, A, nk))]


def stay(S, *names):
    h = S.head
    return [('values stay (%s)' % nm, all_i(S, getattr(h, nm).n, lambda i: k_(S, getattr(h, nm)[i]) == k_(h, getattr(h, nm)[i]), getattr(h, nm))) for nm in names] + \
        [('values (%s)' % nm, ik(S, getattr(h, nm)) == ik(h, getattr(h, nm))) for nm in names]


def restricted(S):
    Kb, Kv, Kn, U, x, A = covering(S)
    h = S.head
    q = k_(h, h.invalid[S.k])
    nk = meets(q, x)
    V0, N0, I0 = ik(h, h.valid), ik(h, h.new_valid), ik(h, h.invalid, S.k)
    U0 = UN(V0, N0)
    return stay(S, 'valid', 'new_valid', 'invalid') + [('this one', k_(S, S.new_imp) == nk), ('valid ones stay', Kv == V0), ('one more', ik(S, S.invalid, S.k + 1) == L.add(I0, q)),
            ('with it', Or(And(Kn == N0, said(U0, nk)), And(Kn == ADDK(N0, nk), Not(SB(V0, p0(nk), p1(nk))), Not(SB(N0, p0(nk), p1(nk)))))),
            ('all', Or(Kn == N0, UN(Kv, Kn) == ADDK(U0, nk))), ('as much', GROW(U0, UN(Kv, Kn))), ('it is covered', said(UN(Kv, Kn), nk))]


def state(S):
    """the covers found so far, old and new part"""
    Kb, Kv, Kn, U, x, A = covering(S)
    return [('unfit ones', S.forall([KS], lambda q: ik(S, S.invalid)[q] == And(Kb[q], Not(fits(q, x))), lambda q: [ik(S, S.invalid)[q], Kb[q]])),
            ('old: different values', distinct(S, S.valid)), ('new: different values', distinct(S, S.new_valid)),
            ('old and new', bodies(S, Kn, lambda q: Not(Kv[q]))), ('none subsumes another', FREE(U)), ('sound', SOUND(Kb, x, A, U)), ('covered', COV1(Kb, x, U)),
            ('new premises', bodies(S, Kn, lambda q: Not(SNM(p0(q), x)))),
            ('new conclusions', bodies(S, Kn, lambda q: p1(q) == L.diff(CK(Kb, L.inter(p0(q), x)), p0(q)))),
            ('old premises', bodies(S, Kv, lambda q: Or(SNM(p0(q), x), Kb[q])))]


def objects(inner):
    def inv(S):
        Kb, Kv, Kn, U, x, A = covering(S)
        k = S.outer()[0] if inner else S.k
        out = state(S)
        out.append(('attributes added: other implications', COV2(ik(S, S.invalid, k), L.diff(A, x), U)))
        if inner:
            out.append(('attributes added: this one', SAID(U, k_(S, S.invalid[k]), S.done)))
        return out
    return inv


def next_pair(S):
    Kb, Kv, Kn, U, x, A = covering(S)
    q = k_(S, S.invalid[S.outer()[0]])
    nk = more(q, S.a)
    return [('the implication', And(Kb[q], SNM(p0(q), x), Not(x[S.a]), A[S.a])), ('its conclusion', p1(q) == L.diff(CK(Kb, p0(q)), p0(q))), ('attributes', And(SNM(p0(nk), A), SNM(p1(nk), A))), ('disjoint', L.inter(p1(nk), p0(nk)) == NONE), ('larger', SNM(p0(q), p0(nk))), ('larger closure', SNM(CK(Kb, p0(q)), CK(Kb, p0(nk)))),
            ('follows', SNM(p1(nk), CK(Kb, p0(nk)))), ('another premise', Not(SNM(p0(nk), x))), ('sound', sound(Kb, x, A, nk)), ('the closure', p1(nk) == L.diff(CK(Kb, p0(q)), p0(nk))), ('the old part', L.inter(p0(nk), x) == p0(q)),
            ('same premise, old', bodies(S, Kv, lambda r: Implies(p0(r) == p0(nk), SNM(p1(nk), p1(r))))),
            ('same premise, new', bodies(S, Kn, lambda r: Implies(p0(r) == p0(nk), SNM(p1(nk), p1(r))))),
            ('same premise, old ones', all_i(S, S.valid.n, lambda i: Implies(p0(k_(S, S.valid[i])) == p0(nk), SNM(p1(nk), p1(k_(S, S.valid[i])))), S.valid)),
            ('same premise, new ones', all_i(S, S.new_valid.n, lambda i: Implies(p0(k_(S, S.new_valid[i])) == p0(nk), SNM(p1(nk), p1(k_(S, S.new_valid[i])))), S.new_valid))]


def pair_done(S):
    Kb, Kv, Kn, U, x, A = covering(S)
    h = S.head
    q = k_(h, h.invalid[S.outer()[0]])
    nk = more(q, S.a)
    V0, N0 = ik(h, h.valid), ik(h, h.new_valid)
    U0 = UN(V0, N0)
    return stay(S, 'valid', 'new_valid', 'invalid') + [
        ('this one', k_(S, S.new_imp) == nk),
        ('with it', Or(And(Kv == V0, Kn == N0, said(V0, nk)), And(Kv == FLT(V0, nk), Kn == N0, SB(N0, p0(nk), p1(nk))), And(Kv == FLT(V0, nk), Kn == ADDK(N0, nk), Not(SB(V0, p0(nk), p1(nk))), Not(SB(N0, p0(nk), p1(nk)))))),
        ('all', Or(U == U0, U == ADDK(U0, nk), And(SNS(U, U0), GROW(U0, U)))), ('as much', GROW(U0, U)), ('it is covered', said(U, nk))]


SNS = L.sub_f(KS)


def cover_step(S):
    o = S.old
    Kb, A, x = old_keys(S), o.attributes, o.intent
    U = ik(S, S.result)
    return [('different values', distinct(S, S.result)), ('none subsumes another', FREE(U)), ('direct', DIR(U, A)),
            ('attributes', bodies(S, U, lambda q: And(SNM(p0(q), A), SNM(p1(q), A)))),
            ('closures', S.forall([SV], lambda X: Implies(SNM(X, A), CK(U, X) == T(Kb, x, X)), lambda X: CK(U, X)))]


def step_done(S):
    Kb, Kv, Kn, U, x, A = covering(S)
    return [('all invalid ones', COV2(ik(S, S.invalid), L.diff(A, x), U)), ('the others', bodies(S, Kb, lambda q: Or(ik(S, S.invalid)[q], SB(U, p0(q), p1(q))))),
            ('the others, too', bodies(S, Kb, lambda q: Or(ik(S, S.invalid)[q], SAID(U, q, L.diff(A, x))))), ('all', COV2(Kb, L.diff(A, x), U)), ('direct', DIR(U, A)),
            ('closures', S.forall([SV], lambda X: Implies(SNM(X, A), CK(U, X) == T(Kb, x, X)), lambda X: CK(U, X)))]


def all_restricted(S):
    Kb, Kv, Kn, U, x, A = covering(S)
    return [('fitting', bodies(S, Kb, lambda q: Implies(fits(q, x), And(Kv[q], U[q])))), ('fitting ones are subsumed', bodies(S, Kb, lambda q: Implies(fits(q, x), SB(U, p0(q), p1(q))))),
            ('not fitting', bodies(S, Kb, lambda q: Implies(Not(fits(q, x)), ik(S, S.invalid)[q]))), ('not fitting ones are subsumed', bodies(S, Kb, lambda q: Implies(Not(fits(q, x)), said(U, meets(q, x))))), ('covered', COV1(Kb, x, U))]


def both_lists(S):
    v, w = S.local('valid'), S.local('new_valid')
    R, V0, N0 = ik(S, S.result), ik(S, v), ik(S, w)
    r = S.result
    return [('first list', S.forall([IntSort()], lambda i: Implies(within(i, v.n), R[k_(S, v[i])]), lambda i: v[i])), ('second list', S.forall([IntSort()], lambda i: Implies(within(i, w.n), R[k_(S, w[i])]), lambda i: w[i])),
            ('no others', S.forall([IntSort()], lambda i: Implies(within(i, r.n), Or(V0[k_(S, r[i])], N0[k_(S, r[i])])), lambda i: r[i])), ('both lists', R == UN(V0, N0))]


NEWI = ('new', ('Implication', '_premise'), ('Implication', '_conclusion'))
contracts.append(Contract(IC + 'updated_basis', {'intent': ('set', 'V'), 'basis': LI, 'attributes': ('set', 'V')}, returns=LI, props=P19, requires=given_ok, ensures=cover_step, exit_lemmas=both_lists, heap_mod=NEWI,
                          loops={0: LoopC(sorting, types={'valid': LI, 'invalid': LI}), 1: LoopC(restricting, at_body=new_parts, at_end=restricted, after=all_restricted, types={'new_valid': LI}),
                                 2: LoopC(objects(False), after=step_done, types={'new_valid': LI}), 3: LoopC(objects(True), at_body=next_pair, at_end=pair_done)}))


# ---- the whole cover
def cover_ok(S, K, A, c, i):
    return [('none subsumes another', FREE(K)), ('direct', DIR(K, A)), ('attributes', bodies(S, K, lambda q: And(SNM(p0(q), A), SNM(p1(q), A)))),
            ('closures', S.forall([SV], lambda X: Implies(SNM(X, A), CK(K, X) == CLI(c, i, X)), lambda X: CK(K, X)))]


def cover_so_far(S):
    c = cme19(S)
    return [('different values', distinct(S, S.basis)), ('attributes', S.attributes == atts(c)), ('objects so far', S.k == S.i)] + cover_ok(S, ik(S, S.basis), S.attributes, c, S.k)


def first_implication(S):
    c, A = cme19(S), S.attributes
    K = ik(S, S.basis)
    q = L.mk_tuple([NONE, A])
    return [('the implication', And(S.basis.n == 1, k_(S, S.basis[0]) == q)), ('its value', K == L.add(L.empty(KS), q)), ('closures', S.forall([SV], lambda X: Implies(SNM(X, A), CK(K, X) == A), lambda X: CK(K, X))),
            ('of no objects', S.forall([SV], lambda X: Implies(SNM(X, A), CLI(c, I(0), X) == A), lambda X: CLI(c, I(0), X)))]


def next_object(S):
    c = cme19(S)
    return [('the row', And(S.intent == ROW(c, S.k), SNM(S.intent, atts(c))))]


def added_object(S):
    c, h = cme19(S), S.head
    A = S.attributes
    K0, K = ik(h, h.basis), ik(S, S.basis)
    return [('the step', S.forall([SV], lambda X: Implies(SNM(X, A), CK(K, X) == T(K0, ROW(c, S.k), X)), lambda X: CK(K, X))),
            ('closures before', S.forall([SV], lambda X: Implies(SNM(X, A), CK(K0, X) == CLI(c, S.k, X)), lambda X: CK(K, X))),
            ('closures', S.forall([SV], lambda X: Implies(SNM(X, A), CK(K, X) == CLI(c, S.k + 1, X)), lambda X: CK(K, X)))]


def cme19(S):
    return ctx(S.cxt)


def cover_done(S):
    c = cme19(S)
    n = S.cxt._objects.n
    o = S.cxt._objects
    X0 = lambda f: S.forall([SV], lambda X: Implies(sub(X, atts(c)), f(X)), lambda X: [CLI(c, n, X), ACL(c, X)])
    P = lambda X: NM(o.arr, PXI(c, n, X))
    return [('rows are intents', all_i(S, n, lambda j: ROW(c, j) == INTENT(c, o[j]), o)),
            ('objects found', S.forall([SV], lambda X: sub(P(X), APRIME(c, X)), lambda X: P(X))),
            ('by position', S.forall([SV, IntSort()], lambda X, j: Implies(And(within(j, n), APRIME(c, X)[o[j]]), P(X)[o[j]]), lambda X, j: [[P(X), o[j]]])),
            ('objects', S.forall([SV], lambda X: P(X) == APRIME(c, X), lambda X: [P(X), APRIME(c, X)])),
            ('closure: at most', X0(lambda X: sub(CLI(c, n, X), ACL(c, X)))), ('closure: at least', X0(lambda X: sub(ACL(c, X), CLI(c, n, X)))), ('closure', X0(lambda X: ACL(c, X) == CLI(c, n, X)))]


def the_cover(S):
    c = cme19(S)
    A, U = atts(c), ik(S, S.result)
    return [('different values', distinct(S, S.result)), ('none subsumes another', FREE(U)), ('direct', DIR(U, A)), ('attributes', bodies(S, U, lambda q: And(SNM(p0(q), A), SNM(p1(q), A)))),
            ('closures', S.forall([SV], lambda X: Implies(SNM(X, A), CL(*S.hp(), S.result.arr, S.result.n, X) == ACL(c, X)), lambda X: CL(*S.hp(), S.result.arr, S.result.n, X)))]


contracts.append(Contract(IC + 'compute_implication_cover', {'cxt': CX, 'close': function_named(F + 'closure_operators.py', 'closure')}, returns=LI, props=P19, ensures=the_cover, exit_lemmas=cover_done, heap_mod=NEWI,
                          loops={0: LoopC(cover_so_far, at_entry=first_implication, at_body=next_object, at_end=added_object)}))


# ---- minimisation
RES = Function('Respects', KSET, SV, BoolSort())                   # the set respects all of them
EQV = Function('SameClosures', KSET, KSET, BoolSort())             # the same sets respect them


def holds_in(q, X):
    return Or(Not(SNM(p0(q), X)), SNM(p1(q), X))


def _axioms3():
    J, K = Consts('J K', KSET)
    q = Const('q', KS)
    X = Const('X', SV)
    b, e = RES(K, X), EQV(J, K)
    L.axiom('Respects', 'respects: in', ForAll([K, X, q], Implies(And(b, K[q]), holds_in(q, X)), patterns=[MultiPattern(b, K[q])]))
    w = Function('resw', KSET, SV, KS)(K, X)
    L.axiom('Respects', 'respects: witness', ForAll([K, X], Or(b, And(K[w], Not(holds_in(w, X)))), patterns=[b]))
    L.axiom('SameClosures', 'same closures: in', ForAll([J, K, X], Implies(e, RES(J, X) == RES(K, X)), patterns=[MultiPattern(e, RES(J, X)), MultiPattern(e, RES(K, X))]))
    w = Function('eqvw', KSET, KSET, SV)(J, K)
    L.axiom('SameClosures', 'same closures: witness', ForAll([J, K], Or(e, RES(J, w) != RES(K, w)), patterns=[e]))


_axioms3()


def maximised(K, q):
    """the implication with the closure of its premise as its premise"""
    m = CK(K, p0(q))
    return L.mk_tuple([m, L.diff(p1(q), m)])


def _min_lemmas():
    J, K, U = Consts('J K U', KSET)
    q = Const('q', KS)
    X, s = Consts('X s', SV)
    lem = lambda name, syms, vs, body, pats, **kw: Lemma(name, syms, vs, body, pats, P19, **kw)
    M = lambda K, q: L.add(K, maximised(K, q))
    return [
        lem('same closures: itself', 'SameClosures', [K], lambda K: EQV(K, K), lambda K: EQV(K, K)),
        lem('same closures: transitive', 'SameClosures', [J, K, U], lambda J, K, U: Implies(And(EQV(J, K), EQV(K, U)), EQV(J, U)), lambda J, K, U: [(EQV(J, K), EQV(K, U))],
            by=lambda J, K, U: [('respecting', ForAll([X], Implies(And(EQV(J, K), EQV(K, U)), And(RES(J, X) == RES(K, X), RES(K, X) == RES(U, X))), patterns=[RES(J, X), RES(U, X)]))]),
        lem('closures respect', ('Respects', 'ClosureBy'), [K, s], lambda K, s: RES(K, CK(K, s)), lambda K, s: CK(K, s)),
        lem('closures are least', ('Respects', 'ClosureBy'), [K, s, X], lambda K, s, X: Implies(And(RES(K, X), SNM(s, X)), SNM(CK(K, s), X)), lambda K, s, X: [(RES(K, X), CK(K, s))]),
        lem('same closures', ('Respects', 'ClosureBy', 'SameClosures'), [J, K, s], lambda J, K, s: Implies(EQV(J, K), CK(J, s) == CK(K, s)), lambda J, K, s: [(EQV(J, K), CK(J, s), CK(K, s))],
            by=lambda J, K, s: [('respected', Implies(EQV(J, K), And(RES(J, CK(K, s)), RES(K, CK(J, s))))), ('at most', Implies(EQV(J, K), SNM(CK(J, s), CK(K, s)))), ('at least', Implies(EQV(J, K), SNM(CK(K, s), CK(J, s))))]),
        lem('respects fewer', 'Respects', [J, K, X], lambda J, K, X: Implies(And(RES(J, X), L.sub_f(KS)(K, J)), RES(K, X)), lambda J, K, X: [(RES(J, X), L.sub_f(KS)(K, J))]),
        lem('respects all but one', 'Respects', [J, K, q, X], lambda J, K, q, X: Implies(And(RES(K, X), holds_in(q, X), L.sub_f(KS)(J, L.add(K, q))), RES(J, X)), lambda J, K, q, X: [(RES(J, X), RES(K, X), L.sub_f(KS)(J, L.add(K, q)))]),
        lem('respects one more', 'Respects', [K, q, X], lambda K, q, X: RES(L.add(K, q), X) == And(RES(K, X), holds_in(q, X)), lambda K, q, X: RES(L.add(K, q), X),
            by=lambda K, q, X: [('fewer', Or(L.sub_f(KS)(K, L.add(K, q)))), ('the others', Implies(RES(L.add(K, q), X), RES(K, X))), ('the one', Implies(RES(L.add(K, q), X), holds_in(q, X))),
                                ('all', L.sub_f(KS)(L.add(K, q), L.add(K, q))), ('together', Implies(And(RES(K, X), holds_in(q, X)), RES(L.add(K, q), X)))]),
        lem('larger premise: one set', ('Respects', 'ClosureBy'), [K, q, X], lambda K, q, X: Implies(RES(K, X), holds_in(q, X) == holds_in(maximised(K, q), X)), lambda K, q, X: [(RES(K, X), maximised(K, q))],
            by=lambda K, q, X: [('premise', Implies(RES(K, X), SNM(p0(q), X) == SNM(CK(K, p0(q)), X)))]),
        lem('larger premise', ('Respects', 'SameClosures'), [K, q], lambda K, q: EQV(L.add(K, q), M(K, q)), lambda K, q: M(K, q)),
        lem('redundant', ('Respects', 'SameClosures'), [K, q], lambda K, q: Implies(SNM(p1(q), CK(K, p0(q))), EQV(L.add(K, q), K)), lambda K, q: EQV(L.add(K, q), K)),
    ]


contracts += _min_lemmas()


def min_lists(S):
    o, c = S.old.cover, S.cover
    n0 = o.n
    return o, c, n0, n0 - S.k


def respected(S, lst, m):
    """the premises from position m on respect all other implications"""
    kk = lambda i: k_(S, lst[i])
    return S.forall([IntSort(), IntSort()], lambda i, j: Implies(And(within(i, lst.n), m <= j, j < lst.n, i != j), holds_in(kk(i), p0(kk(j)))), lambda i, j: [[lst[i], lst[j]]])


def minimised_so_far(S):
    o, c, n0, m = min_lists(S)
    kk = lambda i: k_(S, c[i])
    return [('to come, from there', S.forall([IntSort()], lambda j: Implies(And(S.k <= j, j < n0), c[j - S.k] == o[j]), lambda j: o[j])), ('as many', And(0 <= m, m <= c.n, S.i == S.k)), ('to come', S.forall([IntSort()], lambda i: Implies(within(i, m), c[i] == o[i + S.k]), lambda i: c[i])),
            ('same closures', EQV(ik(S, o), ik(S, c))), ('not trivial', S.forall([IntSort()], lambda i: Implies(And(m <= i, i < c.n), p1(kk(i)) != NONE), lambda i: c[i])), ('respected', respected(S, c, m))]


def minimising_one(S):
    o, c, n0, m = min_lists(S)
    return [('there is one', And(S.k < n0, m >= 1)), ('the first one', And(c[0] == o[S.k], S.imp == o[S.k], c[0] == S.imp)), ('it is in the list', c.set[S.imp])]


def minimised_one(S):
    o, c, n0, m = min_lists(S)
    h = S.head
    c0, n = h.cover, h.cover.n
    q = k_(h, c0[0])
    K0, K = ik(h, c0), ik(S, c)
    call = S.call(*[F + 'closure_operators.py:' + v for v in ('simple_closure', 'lin_closure')])
    R0 = ik(call, call.implications)
    new = k_(S, S.imp)
    return [('values stay', all_i(S, c0.n, lambda i: k_(S, c0[i]) == k_(h, c0[i]), c0)),
            ('shifted', S.forall([IntSort()], lambda i: Implies(And(1 <= i, i < n), c[i - 1] == c0[i]), lambda i: c0[i])), ('shifted back', S.forall([IntSort()], lambda i: Implies(And(0 <= i, i < n - 1), c[i] == c0[i + 1]), lambda i: c[i])),
            ('the others', call.implications.n == n - 1), ('the same others', all_i(S, n - 1, lambda i: call.implications[i] == c0[i + 1], call.implications)),
            ('the others were there', bodies(S, R0, lambda x: K0[x])), ('this one was there', K0[q]), ('no more were there', S.forall([IntSort()], lambda i: Implies(And(1 <= i, i < n), R0[k_(h, c0[i])]), lambda i: c0[i])),
            ('there were', K0 == L.add(R0, q)), ('the new one', new == maximised(R0, q)),
            ('now', If(p1(new) != NONE, K == L.add(R0, new), K == R0)), ('equivalent', EQV(K0, K)),
            ('values given stay', all_i(S, o.n, lambda i: k_(S, o[i]) == k_(h, o[i]), o)), ('given', ik(S, o) == ik(h, o)), ('all the same', EQV(ik(S, o), K))]


def minimised(S):
    o, c = S.old.cover, S.cover
    kk = lambda i: k_(S, c[i])
    return [('the same closures', S.forall([SV], lambda X: CL(*S.hp(), c.arr, c.n, X) == CL(*S.old.hp(), o.arr, o.n, X), lambda X: CL(*S.hp(), c.arr, c.n, X))),
            ('none of them is trivial', all_i(S, c.n, lambda i: p1(kk(i)) != NONE, c)), ('none of them follows from the others', respected(S, c, I(0)))]


for v, spec in kinds(None):
    contracts.append(Contract(IC + 'minimize', {'cover': LI, 'close': spec}, variant=v, modifies=('cover',), props=P19, heap_mod=NEWI, ensures=minimised, loops={0: LoopC(minimised_so_far, at_body=minimising_one, at_end=minimised_one)}))
