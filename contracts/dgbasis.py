"""Duquenne-Guigues bases: Ganter's algorithm in lectic order (C08)."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem, card
from engine.contract import Contract, Lemma, LoopC, Fn, Lit, Inst
from engine.core import *
from .ctxdef import *
from .ctxnew import within, all_i
from .context import me, cme
from .closure import CL, HP, LA, LI

CX = Inst('Context')
SNM = L.sub_f(V)
P8 = ('C08',)
MOD = Function('Models', HP, HP, LA, IntSort(), SV, BoolSort())              # a set respects the first implications of a list
EQ = Function('AgreeOn', LV, IntSort(), SV, SV, BoolSort())                  # two sets agree on the first names
LT = Function('Before', LV, IntSort(), SV, SV, BoolSort())                   # ... the first is smaller at the first difference


def respects(P, C, r, X):
    return Or(Not(SNM(P[r], X)), SNM(C[r], X))


def _axioms():
    P, C = Consts('P C', HP)
    a, A = Const('a', LA), Const('A', LV)
    n, k = Ints('n k')
    X, Y = Consts('X Y', SV)
    m = MOD(P, C, a, n, X)
    L.axiom('Models', 'models: in', ForAll([P, C, a, n, X, k], Implies(And(m, 0 <= k, k < n), respects(P, C, a[k], X)), patterns=[MultiPattern(m, a[k])]))
    b = Function('modelsw', HP, HP, LA, IntSort(), SV, IntSort())(P, C, a, n, X)
    L.axiom('Models', 'models: witness', ForAll([P, C, a, n, X], Or(m, And(0 <= b, b < n, Not(respects(P, C, a[b], X)))), patterns=[m]))
    e, l = EQ(A, n, X, Y), LT(A, n, X, Y)
    L.axiom('AgreeOn', 'agree: in', ForAll([A, n, X, Y, k], Implies(And(e, 0 <= k, k < n), X[A[k]] == Y[A[k]]), patterns=[MultiPattern(e, A[k])]))
    b = Function('agreew', LV, IntSort(), SV, SV, IntSort())(A, n, X, Y)
    L.axiom('AgreeOn', 'agree: witness', ForAll([A, n, X, Y], Or(e, And(0 <= b, b < n, X[A[b]] != Y[A[b]])), patterns=[e]))
    L.axiom('Before', 'before: in', ForAll([A, n, X, Y, k], Implies(And(0 <= k, k < n, EQ(A, k, X, Y), Not(X[A[k]]), Y[A[k]]), l), patterns=[MultiPattern(l, EQ(A, k, X, Y))]))
    d = Function('beforew', LV, IntSort(), SV, SV, IntSort())(A, n, X, Y)
    L.axiom('Before', 'before: witness', ForAll([A, n, X, Y], Implies(l, And(0 <= d, d < n, EQ(A, d, X, Y), Not(X[A[d]]), Y[A[d]])), patterns=[l]))


_axioms()


def _lemmas():
    P, C = Consts('P C', HP)
    a, A = Const('a', LA), Const('A', LV)
    n, k, n1 = Ints('n k n1')
    X, Y, Z, s = Consts('X Y Z s', SV)
    c = Const('c', Ctx)
    E, B = 'AgreeOn', 'Before'
    cl = lambda P, C, a, n, s: CL(P, C, a, n, s)
    return [
        Lemma('a closure of attributes contains the set', 'ACl', [c, X], lambda c, X: Implies(SNM(X, atts(c)), SNM(X, ACL(c, X))), lambda c, X: ACL(c, X), P8),
        Lemma('a closure of attributes consists of attributes', 'ACl', [c, X], lambda c, X: SNM(ACL(c, X), atts(c)), lambda c, X: ACL(c, X), P8),
        Lemma('same objects of a closure', 'ACl', [c, X], lambda c, X: Implies(SNM(X, atts(c)), APRIME(c, ACL(c, X)) == APRIME(c, X)), lambda c, X: APRIME(c, ACL(c, X)), P8),
        Lemma('a closure of attributes is closed', 'ACl', [c, X], lambda c, X: Implies(SNM(X, atts(c)), ACL(c, ACL(c, X)) == ACL(c, X)), lambda c, X: ACL(c, X), P8,
              by=lambda c, X: [('same objects', Implies(SNM(X, atts(c)), APRIME(c, ACL(c, X)) == APRIME(c, X)))]),
        Lemma('a closure is a model', ('CL', 'Models'), [P, C, a, n, s], lambda P, C, a, n, s: MOD(P, C, a, n, cl(P, C, a, n, s)), lambda P, C, a, n, s: MOD(P, C, a, n, cl(P, C, a, n, s)), P8),
        Lemma('a closure is below the models', 'Models', [P, C, a, n, s, X], lambda P, C, a, n, s, X: Implies(And(MOD(P, C, a, n, X), SNM(s, X)), SNM(cl(P, C, a, n, s), X)),
              lambda P, C, a, n, s, X: [(MOD(P, C, a, n, X), cl(P, C, a, n, s))], P8),
        Lemma('agreement is symmetric', E, [A, n, X, Y], lambda A, n, X, Y: EQ(A, n, X, Y) == EQ(A, n, Y, X), lambda A, n, X, Y: EQ(A, n, X, Y), P8),
        Lemma('agreement is transitive', E, [A, n, X, Y, Z], lambda A, n, X, Y, Z: Implies(And(EQ(A, n, X, Y), EQ(A, n, Y, Z)), EQ(A, n, X, Z)), lambda A, n, X, Y, Z: [(EQ(A, n, X, Y), EQ(A, n, Y, Z))], P8),
        Lemma('agreement on less', E, [A, n, k, X, Y], lambda A, n, k, X, Y: Implies(And(EQ(A, n, X, Y), k <= n), EQ(A, k, X, Y)), lambda A, n, k, X, Y: [(EQ(A, n, X, Y), EQ(A, k, X, Y))], P8),
        Lemma('agreement on one more', E, [A, n, n1, X, Y], lambda A, n, n1, X, Y: Implies(And(0 <= n, n1 == n + 1), EQ(A, n1, X, Y) == And(EQ(A, n, X, Y), X[A[n]] == Y[A[n]])),
              lambda A, n, n1, X, Y: [(EQ(A, n, X, Y), EQ(A, n1, X, Y))], P8),
        Lemma('before on one more', B, [A, n, n1, X, Y], lambda A, n, n1, X, Y: Implies(And(0 <= n, n1 == n + 1), LT(A, n1, X, Y) == Or(LT(A, n, X, Y), And(EQ(A, n, X, Y), Not(X[A[n]]), Y[A[n]]))),
              lambda A, n, n1, X, Y: [(LT(A, n, X, Y), LT(A, n1, X, Y))], P8),
        Lemma('before an equal set', B, [A, n, X, Y, Z], lambda A, n, X, Y, Z: Implies(And(LT(A, n, X, Y), EQ(A, n, Y, Z)), LT(A, n, X, Z)), lambda A, n, X, Y, Z: [(LT(A, n, X, Y), EQ(A, n, Y, Z))], P8,
              by=lambda A, n, X, Y, Z: [('the place', Implies(And(LT(A, n, X, Y), EQ(A, n, Y, Z)), EQ(A, Function('beforew', LV, IntSort(), SV, SV, IntSort())(A, n, X, Y), X, Z)))]),
        Lemma('equal sets before', B, [A, n, X, Y, Z], lambda A, n, X, Y, Z: Implies(And(EQ(A, n, X, Y), LT(A, n, Y, Z)), LT(A, n, X, Z)), lambda A, n, X, Y, Z: [(EQ(A, n, X, Y), LT(A, n, Y, Z))], P8,
              by=lambda A, n, X, Y, Z: [('the place', Implies(And(EQ(A, n, X, Y), LT(A, n, Y, Z)), EQ(A, Function('beforew', LV, IntSort(), SV, SV, IntSort())(A, n, Y, Z), X, Z)))]),
        Lemma('before on more', B, [A, n, n1, X, Y], lambda A, n, n1, X, Y: Implies(And(LT(A, n, X, Y), n <= n1), LT(A, n1, X, Y)), lambda A, n, n1, X, Y: [(LT(A, n, X, Y), LT(A, n1, X, Y))], P8),
        Lemma('before is no superset', B, [A, n, X, Y], lambda A, n, X, Y: Implies(LT(A, n, X, Y), And(Not(SNM(Y, X)), Not(EQ(A, n, X, Y)))), lambda A, n, X, Y: LT(A, n, X, Y), P8),
        Lemma('a superset is not before', B, [n, A, X, Y], lambda n, A, X, Y: Implies(SNM(X, Y), Or(EQ(A, n, X, Y), LT(A, n, X, Y))), lambda n, A, X, Y: [(SNM(X, Y), LT(A, n, X, Y))], P8, induct=(0, 0)),
        Lemma('agreement on all', E, [c, X, Y], lambda c, X, Y: Implies(And(SNM(X, atts(c)), SNM(Y, atts(c)), EQ(ca(c), cm(c), X, Y)), X == Y), lambda c, X, Y: EQ(ca(c), cm(c), X, Y), P8),
    ]


contracts = _lemmas()
F = 'fca/algorithms/'
CLO = F + 'closure_operators.py:'


# ---------------------------------------------------------------- what is computed
def models(S, lst, X, n=None, heap=None):
    P, C = heap or S.hp()
    return MOD(P, C, lst.arr, lst.n if n is None else n, X)


def given(S, X, name='imp_basis'):
    """respects the implications given as argument (they do not change)"""
    o = S.old or S
    return models(o, getattr(o, name), X, heap=o.hp()) if name else BoolVal(True)


def found_ok(S, R, g, cond, name='imp_basis'):
    """the implications found so far"""
    H, at, B = g.H, g.attrs.set, lambda X: given(g, X, name)
    P, C = (lambda k: S.prem(R[k])), (lambda k: S.concl(R[k]))
    out = [('implications are new objects', all_i(g, R.n, lambda k: S.isnew(R[k]), R)),
           ('premises are attributes', all_i(g, R.n, lambda k: sub(P(k), at), R)),
           ('conclusions are closures', all_i(g, R.n, lambda k: C(k) == H(P(k)), R)),
           ('premises are not closed', all_i(g, R.n, lambda k: P(k) != C(k), R)),
           ('premises respect what is given', all_i(g, R.n, lambda k: B(P(k)), R)),
           ('none follows from the others', g.forall([IntSort(), IntSort()], lambda p, q: Implies(And(within(p, R.n), within(q, R.n), p != q), Or(Not(sub(P(q), P(p))), sub(C(q), P(p)))), lambda p, q: [[R[p], R[q]]]))]
    if cond is not None:
        out.append(('premises meet the condition', all_i(g, R.n, lambda k: cond(P(k)), R)))
    return out


def open_models(S, R, g, body, pat, name='imp_basis'):
    """for all sets of attributes that respect everything so far and are not closed"""
    H, at = g.H, g.attrs.set
    return g.forall([SV], lambda X: Implies(And(sub(X, at), given(g, X, name), models(S, R, X), H(X) != X), body(X)), lambda X: pat(X))


def given_out(S, cond):
    """the values yielded are the implications of the list"""
    if not S._it.yields:
        return []
    g, R = S.old, S.relative_basis
    Y = S.yielded
    out = [('as many as found', Y.n == R.n), ('yielded in this order', g.forall([IntSort()], lambda k: Implies(within(k, R.n), Y[k] == R[k]), lambda k: [Y[k], R[k]]))] + found_ok(S, Y, g, cond)
    if cond is None and g.complete:
        out += [('models of what is yielded', g.forall([SV], lambda X: Implies(models(S, Y, X), models(S, R, X)), lambda X: models(S, Y, X))),
                ('no open sets', open_models(S, Y, g, lambda X: B(False), lambda X: g.H(X)))]
    return out


def outer(cond):
    def inv(S):
        g = S.old
        A, m, i, a, R, H = g.attrs.arr, g.attrs.n, S.i, S.a, S.relative_basis, g.H
        at = g.attrs.set
        out = [('position', And(0 <= i, i <= m, Implies(i < m, a[A[i]]), Implies(i == m, R.n == 0))),
               ('attributes', sub(a, at)),
               ('the set respects what is given', given(g, a)), ('the set respects what is found', models(S, R, a))] + found_ok(S, R, g, cond) + [
               ('premises come before', all_i(g, R.n, lambda k: LT(A, i + 1, S.prem(R[k]), a), R))]
        if cond is None and g.complete:
            out += [('least from here', g.forall([SV], lambda X: Implies(And(sub(X, at), given(g, X), models(S, R, X), Or(i == m, EQ(A, i + 1, a, X))), sub(a, X)), lambda X: H(X))),
                    ('open sets do not come before', open_models(S, R, g, lambda X: Or(i == m, EQ(A, i + 1, a, X), LT(A, i + 1, a, X)), lambda X: H(X)))]
        if S._it.yields:
            out.append(('what has been yielded', And(S.yielded.n == R.n, all_i(g, R.n, lambda k: S.yielded[k] == R[k], R))))
        return out
    return inv


def processed(cond, leaving=False):
    """the set has been processed; the next one is to be found (or there is none)"""
    def hints(S):
        g = S.old
        h = S.head if leaving else S.outer_head()
        A, m, H, at = g.attrs.arr, g.attrs.n, g.H, g.attrs.set
        a0, i0, R0, R = h.a, h.i, h.relative_basis, S.relative_basis
        K = H(a0)
        out = g.facts + [('found before', g.forall([IntSort()], lambda k: Implies(within(k, R0.n), And(R[k] == R0[k], S.prem(R[k]) == h.prem(R0[k]), S.concl(R[k]) == h.concl(R0[k]))), lambda k: [R[k], R0[k]])),
               ('at most one more', And(R0.n <= R.n, R.n <= R0.n + 1, Implies(R.n > R0.n, And(S.prem(R[R0.n]) == a0, S.concl(R[R0.n]) == K, K != a0)))),
               ('attributes are distinct', L.dist(A, I(0), m)), ('number of attributes', card(at) == m),
               ('nothing follows from it', all_i(g, R0.n, lambda k: Not(sub(a0, h.prem(R0[k]))), R0))]
        out += found_ok(S, R, g, cond)
        if not leaving:
            out += [('same beginning', EQ(A, i0, a0, S.a)), ('same beginning, closure', Or(EQ(A, i0, a0, K), And(S.i == i0, S.a == L.diff(a0, g.attrs.sub(i0, m)))))]
            Q = lambda k: S.prem(R[k])
            out += [('premises before', g.forall([IntSort()], lambda k: Implies(within(k, R0.n), And(i0 < m, Or(LT(A, i0, Q(k), a0), And(EQ(A, i0, Q(k), a0), Not(Q(k)[A[i0]]), a0[A[i0]])))), lambda k: [R[k], R0[k]])),
                    ('premises before (2)', g.forall([IntSort()], lambda k: Implies(within(k, R0.n), Or(LT(A, i0, Q(k), S.a), And(EQ(A, i0, Q(k), S.a), Or(S.i == i0, LT(A, i0 + 1, Q(k), S.a))))), lambda k: [R[k], R0[k]])),
                    ('this one', Or(EQ(A, S.i, a0, S.a), LT(A, S.i, a0, S.a)))]
            out += [('premises do not come later', all_i(g, R.n, lambda k: Or(EQ(A, S.i, S.prem(R[k]), S.a), LT(A, S.i, S.prem(R[k]), S.a)), R))]
        else:
            out += [('same beginning', EQ(A, i0, a0, K)), ('all attributes', K == at)]
        if cond is None and g.complete:
            out += [('models of more', g.forall([SV], lambda X: Implies(models(S, R, X), models(h, R0, X)), lambda X: models(S, R, X))),
                    ('models of the new one', g.forall([SV], lambda X: Implies(And(models(S, R, X), sub(a0, X)), sub(K, X)), lambda X: models(S, R, X))),
                    ('shorter comparison', g.forall([SV], lambda X: Implies(LT(A, i0 + 1, a0, X), Or(i0 == m, LT(A, i0, a0, X))), lambda X: LT(A, i0 + 1, a0, X))),
                    ('open sets', open_models(S, R, g, lambda X: Or(And(i0 < m, LT(A, i0, a0, X)), And(sub(a0, X), Or(i0 == m, EQ(A, i0 + 1, a0, X)))), lambda X: H(X))),
                    ('open sets (2)', open_models(S, R, g, lambda X: Or(And(i0 < m, LT(A, i0, a0, X)), And(sub(K, X), Or(i0 == m, EQ(A, i0 + 1, a0, X)))), lambda X: H(X)))]
            if leaving:
                out += [('open sets (3)', open_models(S, R, g, lambda X: Or(LT(A, i0, K, X), sub(K, X)), lambda X: H(X))),
                        ('no open sets', open_models(S, R, g, lambda X: B(False), lambda X: H(X)))]
            else:
                out += [('open sets come later', open_models(S, R, g, lambda X: LT(A, S.i, S.a, X), lambda X: H(X)))]
        return out + (given_out(S, cond) if leaving else [])
    return hints


def inner(cond):
    def inv(S):
        g = S.old
        A, m, a, R, H, at = g.attrs.arr, g.attrs.n, S.a, S.relative_basis, g.H, g.attrs.set
        i = S.entry.i
        t = i - S.k
        out = [('position', And(0 <= i, i <= m, S.i == i, S.k <= i)), ('attributes', sub(a, at)),
               ('nothing later', g.forall([IntSort()], lambda p: Implies(And(t <= p, p < m), Not(a[A[p]])), lambda p: A[p])),
               ('something is missing', Not(sub(g.attrs.sub(0, t), a))),
               ('premises do not come later', all_i(g, R.n, lambda k: Or(EQ(A, t, S.prem(R[k]), a), LT(A, t, S.prem(R[k]), a)), R))]
        if cond is None and g.complete:
            out.append(('open sets come later', open_models(S, R, g, lambda X: LT(A, t, a, X), lambda X: H(X))))
        return out
    return inv


def closed(S, new):
    """the closure of a set and one attribute more"""
    g = S.old
    R, H, at = S.relative_basis, g.H, g.attrs.set
    P, C = S.hp()
    c = S.call(CLO + 'lin_closure', CLO + 'simple_closure')
    both = lambda X: MOD(P, C, c.old.implications.arr, c.old.implications.n, X)
    return [('the start', c.old.s == new), ('models of both', g.forall([SV], lambda X: Implies(And(given(g, X), models(S, R, X)), both(X)), lambda X: models(S, R, X))),
            ('models of both (2)', g.forall([SV], lambda X: Implies(both(X), And(given(g, X), models(S, R, X))), lambda X: both(X))),
            ('attributes are a model', And(given(g, at), models(S, R, at), both(at))), ('the start is below', sub(new, at)),
            ('below the models', g.forall([SV], lambda X: Implies(And(given(g, X), models(S, R, X), sub(new, X)), sub(c.result, X)), lambda X: models(S, R, X)))]


def removed(cond):
    def hints(S):
        g = S.old
        A, m, a, R, H, at = g.attrs.arr, g.attrs.n, S.a, S.relative_basis, g.H, g.attrs.set
        a0 = S.head.a
        t = S.entry.i - S.k
        j = t - 1
        out = [('one position less', And(j >= 0, j < m))] + (closed(S, L.add(a0, A[j])) if S.a.eq(a0) else []) + [('same beginning', EQ(A, j, a0, a)),
               ('premises', all_i(g, R.n, lambda k: Or(EQ(A, j, S.prem(R[k]), a0), LT(A, j, S.prem(R[k]), a0)), R))]
        if cond is None and g.complete:
            out += [('covered', g.forall([SV], lambda X: Implies(And(Not(a0[A[j]]), EQ(A, j, a0, X), X[A[j]]), sub(L.add(a0, A[j]), X)), lambda X: EQ(A, j, a0, X))),
                    ('open sets', open_models(S, R, g, lambda X: Or(LT(A, j, a0, X), And(EQ(A, j, a0, X), Not(a0[A[j]]), X[A[j]])), lambda X: H(X))),
                    ('open sets (2)', open_models(S, R, g, lambda X: LT(A, j, a0, X), lambda X: H(X)))]
        return out
    return hints


def found(cond):
    def hints(S):
        g = S.old
        A, m, a, R, H, at = g.attrs.arr, g.attrs.n, S.a, S.relative_basis, g.H, g.attrs.set
        a0 = S.head.a
        t = S.entry.i - S.k
        j = t - 1
        out = [('position', And(0 <= j, j < m, S.i == j, Not(a0[A[j]]))), ('this one is in', a[A[j]])] + closed(S, L.add(a0, A[j])) + [('same beginning', EQ(A, j, a0, a)), ('attributes', sub(a, at)),
               ('respects what is given', given(g, a)), ('respects what is found', models(S, R, a)),
               ('premises', all_i(g, R.n, lambda k: Or(EQ(A, j, S.prem(R[k]), a0), LT(A, j, S.prem(R[k]), a0)), R)),
               ('premises come before', all_i(g, R.n, lambda k: LT(A, t, S.prem(R[k]), a), R))]
        if cond is None and g.complete:
            out += [('covered', g.forall([SV], lambda X: Implies(And(EQ(A, j, a0, X), X[A[j]]), sub(L.add(a0, A[j]), X)), lambda X: EQ(A, j, a0, X))),
                    ('least', g.forall([SV], lambda X: Implies(And(sub(X, at), given(g, X), models(S, R, X), EQ(A, t, a, X)), sub(a, X)), lambda X: H(X))),
                    ('open sets', open_models(S, R, g, lambda X: Or(LT(A, j, a0, X), And(EQ(A, j, a0, X), X[A[j]])), lambda X: H(X))),
                    ('open sets come later', open_models(S, R, g, lambda X: Or(EQ(A, t, a, X), LT(A, t, a, X)), lambda X: H(X)))]
        return out
    return hints


def finished(cond):
    def hints(S):
        g = S.old
        a, at = S.a, g.attrs.set
        out = [('attributes are distinct', L.dist(g.attrs.arr, I(0), g.attrs.n)), ('number of attributes', card(at) == g.attrs.n), ('all attributes', a == at)]
        if cond is None and g.complete:
            out.append(('no open sets', open_models(S, S.relative_basis, g, lambda X: B(False), lambda X: g.H(X))))
        return out + given_out(S, cond)
    return hints


def basis_loops(cond, gen=False):
    leave = processed(cond, True)
    return {0: LoopC(outer(cond), types={'relative_basis': LI, **({'yielded': LI[1]} if gen else {})}, after=finished(cond), on_return=None if gen else leave, on_break=leave if gen else None),
            1: LoopC(inner(cond), at_entry=processed(cond), at_end=removed(cond), on_break=found(cond))}


def function_named(path, name):
    q = path + ':' + name
    return Fn(name, lambda it: it.function(q), lambda it, v: isinstance(v, VFunc) and v.qual == q)


def always(it, v):
    """a function that is the constant True"""
    import ast
    return isinstance(v, VFunc) and isinstance(v.node, ast.Lambda) and isinstance(v.node.body, ast.Constant) and v.node.body.value is True


def true_fn(it):
    return VSpec('true', lambda it, a, k: VZ('bool', BoolVal(True)), 'true')


COND = Function('Condition', SV, BoolSort())


def cond_fn(it):
    return VSpec('condition', lambda it, a, k: VZ('bool', COND(it.content(a[0]).arr)), 'condition')


TRUE = Fn('true', true_fn, lambda it, v: always(it, v) or isinstance(v, VSpec) and v.tag == 'true')
CONDITION = Fn('condition', cond_fn, lambda it, v: isinstance(v, VSpec) and v.tag == 'condition')


def context_basis(S):
    c = ctx(S.cxt)
    return {'H': lambda X: ACL(c, X), 'attrs': S.cxt._attributes, 'facts': [], 'complete': True}


def ensures_basis(cond, name='imp_basis'):
    def ens(S):
        g = S.old
        out = found_ok(S, S.result, g, cond, name)
        if cond is None and g.complete:
            out.append(('complete', open_models(S, S.result, g, lambda X: B(False), lambda X: g.H(X), name)))
        return out
    return ens


def fits_attributes(S, name='imp_basis'):
    if not name:
        return []
    b = getattr(S, name)
    return [('given conclusions are attributes', all_i(S, b.n, lambda k: sub(S.concl(b[k]), S.attrs.set), b))]


DG = F + 'dg_basis.py'
XC = 'fca/context.py:Context.'
BASES = (('compute_dg_basis', 'lin_closure', 'generalized_compute_dg_basis'), ('compute_dg_basis_simple', 'simple_closure', 'generalized_compute_dg_basis'),
         ('dg_basis_iter_simple', 'simple_closure', 'generalized_dg_basis_iter'))
NEW = ('new', ('Implication', '_premise'), ('Implication', '_conclusion'))


def basis(q, params, tag, cond, ghosts, given='imp_basis', **k):
    return Contract(q, params, variant=tag, returns=LI, props=P8, heap_mod=NEW, setup=lambda it, S: ghosts(S), requires=lambda S: fits_attributes(S, given), ensures=ensures_basis(cond, given), **k)


def method_basis(S):
    c = ctx(S.self)
    return {'H': lambda X: ACL(c, X), 'attrs': S.self._attributes, 'facts': [], 'complete': True}


def object_basis(S):
    c = ctx(S.self)
    return {'H': lambda X: OCL(c, X), 'attrs': S.self._objects, 'facts': [], 'complete': True}


def turned(S):
    c, t = ctx(S.self), ctx(S.call(XC + 'transpose').result)
    return [('closures of the transposed context', S.forall([SV], lambda X: Implies(sub(X, objs(c)), ACL(t, X) == OCL(c, X)), lambda X: OCL(c, X)))]


for cond, tag, spec in ((None, 'any set', TRUE), (COND, 'condition', CONDITION)):
    for q, close, gen in BASES:
        contracts.append(basis(DG + ':' + q, {'cxt': CX, 'close': function_named(F + 'closure_operators.py', close), 'imp_basis': LI, 'cond': spec}, tag, cond, context_basis,
                               inner_loops={DG + ':' + gen: basis_loops(cond, 'iter' in gen)}))
        contracts.append(basis(XC + 'get_attribute_implications', {'self': CX, 'basis': function_named(DG, q), 'confirmed': LI, 'cond': spec}, q + ', ' + tag, cond, method_basis, 'confirmed'))
for q, close, gen in BASES[:2]:
    contracts.append(basis(XC + 'get_object_implications', {'self': CX, 'basis': function_named(DG, q), 'confirmed': LI}, q, None, object_basis, 'confirmed', exit_lemmas=turned))
contracts.append(basis(XC + 'attribute_implications_iter', {'self': CX}, '', None, method_basis, None))


def partial_basis(w):
    """every attribute possible for the objects that certainly have the premise (not idempotent: no claim of completeness)"""
    def ghosts(S):
        p = getattr(S, w)
        x, q = ctx(p.x_context), ctx(p.q_context)
        H = lambda X: OPRIME(q, APRIME(x, X))
        return {'H': H, 'attrs': p.attributes, 'complete': False,
                'facts': [('possible attributes contain the premise', S.forall([SV], lambda X: Implies(sub(X, p.attributes.set), And(sub(X, H(X)), sub(H(X), p.attributes.set))), lambda X: APRIME(x, X)))]}
    return ghosts


XP = 'fca/partial_context.py:PartialContext.'
PC = Inst('PartialContext')
for cond, tag, spec in ((None, 'any set', TRUE), (COND, 'condition', CONDITION)):
    contracts.append(basis(DG + ':compute_partial_dg_basis', {'pcxt': PC, 'close': function_named(F + 'closure_operators.py', 'simple_closure'), 'imp_basis': LI, 'cond': spec}, tag, cond, partial_basis('pcxt'),
                           inner_loops={DG + ':generalized_compute_dg_basis': basis_loops(cond)}))
    contracts.append(basis(XP + 'get_attribute_implications', {'self': PC, 'basis': function_named(DG, 'compute_partial_dg_basis'), 'confirmed': LI, 'cond': spec}, tag, cond, partial_basis('self'), 'confirmed'))
