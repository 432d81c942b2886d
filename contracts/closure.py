"""Contracts for closure under implications (C06)."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem, card
from engine.contract import Contract, LoopC, Fn, Lit, Inst
from engine.core import *

SV = ArraySort(V, BoolSort())
LI = ('list', ('ref', 'Implication'))
F = 'fca/algorithms/closure_operators.py:'

# respects(Prem, Concl, imp, X): imp holds in X
HP = ArraySort(IntSort(), SV)
LA = ArraySort(IntSort(), IntSort())


def respects(P, C, r, X):
    return Or(Not(sub(Select(P, r), X)), sub(Select(C, r), X))


# CL(P, C, a, n, s): the least superset of s respecting the implications a[0..n-1]
CL = Function('CL', HP, HP, LA, IntSort(), SV, SV)


def _axioms():
    P, C = Consts('P C', HP)
    a = Const('a', LA)
    n, k = Ints('n k')
    s, X = Consts('s X', SV)
    c = CL(P, C, a, n, s)
    L.axiom('CL', 'CL: contains the set', ForAll([P, C, a, n, s], L.sub_f(V)(s, c), patterns=[c]))
    L.axiom('CL', 'CL: respects every implication', ForAll([P, C, a, n, s, k], Implies(And(0 <= k, k < n), Or(Not(L.sub_f(V)(P[a[k]], c)), L.sub_f(V)(C[a[k]], c))),
            patterns=[MultiPattern(c, a[k])]))
    w = Function('CL_bad', HP, HP, LA, IntSort(), SV, IntSort())
    bad = w(P, C, a, n, X)
    L.axiom('CL', 'CL: is least', ForAll([P, C, a, n, s, X], Or(Not(L.sub_f(V)(s, X)), L.sub_f(V)(c, X),
            And(0 <= bad, bad < n, L.sub_f(V)(P[a[bad]], X), Not(L.sub_f(V)(C[a[bad]], X)))), patterns=[MultiPattern(c, L.sub_f(V)(s, X))]))


_axioms()


def cl(S, imps, s):
    P, C = S.hp()
    assert is_int_value(imps.off) and imps.off.as_long() == 0
    return CL(P, C, imps.arr, imps.n, s)


def simple_inv(S):
    P, C = S.hp()
    o = S.old
    imps, unused, nc = S.implications, S.unused_imps, S.new_closure
    return [('starts from s', sub(o.s, nc)),
            ('below the closure', sub(nc, cl(S, imps, o.s))),
            ('remaining implications come from the list', S.forall([IntSort()], lambda k: Implies(And(0 <= k, k < unused.n), mem(unused[k], imps.set)), lambda k: unused[k])),
            ('others are satisfied', S.forall([IntSort()], lambda k: Implies(And(0 <= k, k < imps.n), Or(mem(imps[k], unused.set), sub(Select(C, imps[k]), nc))), lambda k: imps[k])),
            ]


def simple_outer(S):
    P, C = S.hp()
    unused, nc = S.unused_imps, S.new_closure
    return simple_inv(S) + [('unchanged means done', Or(S.changed, S.forall([IntSort()], lambda k: Implies(And(0 <= k, k < unused.n), Not(sub(Select(P, unused[k]), nc))), lambda k: unused[k])))]


def simple_inner(S):
    P, C = S.hp()
    unused, nc = S.unused_imps, S.new_closure
    rm = S.to_remove
    return simple_inv(S) + [
        ('unchanged means none applied', Or(S.changed, S.forall([IntSort()], lambda k: Implies(And(0 <= k, k < S.k), Not(sub(Select(P, unused[k]), nc))), lambda k: unused[k]))),
        ('removed implications are satisfied', S.forall([rm.sort().domain()], lambda q: Implies(rm[q], And(sub(L.proj(q, 0), nc), sub(L.proj(q, 1), nc))), lambda q: rm[q]))]


def key(S, r):
    P, C = S.hp()
    return L.mk_tuple([Select(P, r), L.diff(Select(C, r), Select(P, r))])


KS = L.key_sort(('ref', 'Implication'))


def qq(S, imps, x, body, dom=None, pats=None):
    """for all implications listed under x"""
    return S.forall([IntSort()], lambda j: Implies(And(0 <= j, j < L.list_n(imps[x])), body(L.list_a(imps[x])[j])), lambda j: L.list_a(imps[x])[j])


def lin_index(S):
    ls, D, cnt, im = S.imps_ls, S.imps, S.count, S.implications
    at = lambda i: (L.proj(ls[i], 0), L.proj(ls[i], 1))
    lst = lambda x: L.list_a(D[x])
    n = lambda x: L.list_n(D[x])
    return [('lists have a length', S.forall([V], lambda x: Implies(D.dom[x], L.list_n(D[x]) >= 0), lambda x: [D.dom[x], D[x]])),
            ('empty premises are applied', S.forall([IntSort()], lambda i: Implies(And(0 <= i, i < im.n, card(S.prem(im[i])) == 0), sub(S.concl(im[i]), S.new_closure)), lambda i: im[i])),
           
            ('listed implications have the element in the premise', S.forall([V, IntSort()], lambda x, j: Implies(And(D.dom[x], 0 <= j, j < n(x)),
                And(mem(x, S.prem(lst(x)[j])), mem(key(S, lst(x)[j]), cnt.dom))), lambda x, j: lst(x)[j])),
            ('listed once', S.forall([V, IntSort(), IntSort()], lambda x, j, i: Implies(And(D.dom[x], 0 <= j, j < i, i < n(x)), key(S, lst(x)[j]) != key(S, lst(x)[i])),
                lambda x, j, i: MultiPattern(lst(x)[j], lst(x)[i]))),
            ('not yet listed', S.forall([IntSort(), IntSort()], lambda i, j: Implies(And(S.k <= i, i < ls.n, D.dom[at(i)[0]], 0 <= j, j < n(at(i)[0])),
                key(S, lst(at(i)[0])[j]) != key(S, at(i)[1])), lambda i, j: MultiPattern(ls[i], lst(at(i)[0])[j]))),
            ('already listed', S.forall([IntSort()], lambda i: Implies(And(0 <= i, i < S.k), And(D.dom[at(i)[0]],
                mem(at(i)[1], L.rng(lst(at(i)[0]), I(0), n(at(i)[0]))))), lambda i: ls[i]))]


def lin_common(S):
    o = S.old
    nc, cnt, up = S.new_closure, S.count, S.update
    e = S.entry
    return [('starts from s', sub(o.s, nc)),
            ('below the closure', sub(nc, cl(S, S.implications, o.s))),
            ('the counted implications stay the same', cnt.dom == e.count.dom),
            ('every implication is counted', S.forall([IntSort()], lambda i: Implies(And(0 <= i, i < S.implications.n), cnt.dom[key(S, S.implications[i])]), lambda i: S.implications[i])),
            ('counted implications hold in the closure', S.forall([KS], lambda q: Implies(And(cnt.dom[q], sub(L.proj(q, 0), cl(S, S.implications, o.s))), sub(L.proj(q, 1), cl(S, S.implications, o.s))), lambda q: cnt.dom[q])),
            ('pending elements are in the closure', sub(up.set, nc)),
            ('pending once', S.forall([IntSort(), IntSort()], lambda i, j: Implies(And(0 <= i, i < j, j < up.n), up[i] != up[j]), lambda i, j: MultiPattern(up[i], up[j])))]


def lin_proc(S):
    return L.diff(S.new_closure, S.update.set)


def lin_while(S):
    nc, cnt, up = S.new_closure, S.count, S.update
    e = S.entry
    proc = lin_proc(S)
    D, D0 = S.imps, e.imps
    return lin_common(S) + [
        ('counts are the premise elements not yet processed', S.forall([KS], lambda q: Implies(cnt.dom[q], cnt[q] == card(L.diff(L.proj(q, 0), proc))), lambda q: [cnt[q], cnt.dom[q]])),
        ('fired implications are satisfied', S.forall([KS], lambda q: Implies(And(cnt.dom[q], cnt[q] == 0), sub(L.proj(q, 1), nc)), lambda q: cnt[q])),
        ('the index stays', S.forall([V], lambda x: And(Implies(D0.dom[x], And(D.dom[x], D[x] == D0[x])), Implies(And(D.dom[x], Not(D0.dom[x])), L.list_n(D[x]) == 0)), lambda x: [D.dom[x], D[x]]))]


def lin_end(S):
    h = S.head
    m = S.m
    proc = lin_proc(S)
    proc0 = L.diff(h.new_closure, h.update.set)
    d = lambda q, x: L.diff(L.proj(q, 0), x)
    return [('one more element is processed', proc == L.add(proc0, m)),
            ('premises with the element', S.forall([KS], lambda q: Implies(L.proj(q, 0)[m], d(q, L.add(proc0, m)) == L.remove(d(q, proc0), m)), lambda q: d(q, proc0))),
            ('premises without the element', S.forall([KS], lambda q: Implies(Not(L.proj(q, 0)[m]), d(q, L.add(proc0, m)) == d(q, proc0)), lambda q: d(q, proc0)))]


def lin_map(S):
    nc, cnt = S.new_closure, S.count
    e = S.entry
    c0 = e.count
    ci, res, m = S.current_imps, S.map_result, S.m
    h = S.outer_head()
    proc0 = L.diff(h.new_closure, h.update.set)
    return [('the remaining premise elements', S.forall([KS], lambda q: Implies(And(c0.dom[q], L.proj(q, 0)[m]), c0[q] - 1 == card(L.remove(L.diff(L.proj(q, 0), proc0), m))), lambda q: c0[q])),
            ('the last premise element', S.forall([KS], lambda q: Implies(And(c0.dom[q], L.proj(q, 0)[m], c0[q] == 1), sub(L.proj(q, 0), cl(S, S.implications, S.old.s))), lambda q: c0[q])),
            ('results', res.n == S.k),
            ('the counted implications stay the same', cnt.dom == c0.dom),
            ('implications without the element are not touched', S.forall([KS], lambda q: Implies(And(cnt.dom[q], Not(L.proj(q, 0)[m])), cnt[q] == c0[q]), lambda q: cnt[q])),
            ('counted down', S.forall([IntSort()], lambda j: Implies(And(0 <= j, j < S.k), cnt[key(S, ci[j])] == c0[key(S, ci[j])] - 1), lambda j: ci[j])),
            ('to be counted down', S.forall([IntSort()], lambda j: Implies(And(S.k <= j, j < ci.n), cnt[key(S, ci[j])] == c0[key(S, ci[j])]), lambda j: ci[j])),
            ('fired', S.forall([IntSort()], lambda j: Implies(And(0 <= j, j < S.k, cnt[key(S, ci[j])] == 0), sub(L.proj(key(S, ci[j]), 1), res[j])), lambda j: [ci[j], res[j]])),
            ('sound', S.forall([IntSort()], lambda j: Implies(And(0 <= j, j < S.k), sub(res[j], cl(S, S.implications, S.old.s))), lambda j: res[j]))]


contracts = [
    Contract(F + 'simple_closure', {'s': ('set', 'V'), 'implications': LI},
             ensures=lambda S: [('is the closure', S.result == cl(S, S.implications, S.s))],
             returns=('set', 'V'), props=('C06',),
             loops={0: LoopC(simple_outer), 1: LoopC(simple_inner, types={'to_remove': ('set', ('ref', 'Implication'))})}),
    Contract(F + 'lin_closure', {'s': ('set', 'V'), 'implications': LI},
             ensures=lambda S: [('is the closure', S.result == cl(S, S.implications, S.s))],
             returns=('set', 'V'), props=('C06',), alias={'s': lambda S: S.implications.n == 0},
             loops={0: LoopC(lin_index, types={'imps': ('dict', 'V', ('list', ('ref', 'Implication')))}), 1: LoopC(lin_while, at_end=lin_end),
                    'map': LoopC(lin_map, types={'map_result': ('list', ('set', 'V'))})}),
]
