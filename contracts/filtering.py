"""Indices of concepts (C13)."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem, card
from engine.contract import Contract, Lemma, LoopC, Fn, Lit, Inst, Either, Opaque, Opt
from engine.core import *
from .ctxdef import *
from .ctxnew import within, all_i
from .concepts import CON, CK, CKS, HS, LA, keys, ckey, ki

P13 = ('C13',)
A = 'fca/algorithms/filtering/'
PAIR = L.mk_tuple([Const('g', V), Const('m', V)]).sort()
PS = ArraySort(PAIR, BoolSort())
SNM = L.sub_f(V)
ke = lambda q: L.proj(q, 0)


def set_algebra(sort, nm):
    """union and intersection of finite sets, and how many elements they have"""
    s = ArraySort(sort, BoolSort())
    cup, cap = Function('Cup' + nm, s, s, s), Function('Cap' + nm, s, s, s)
    p, q, x = Const('p', s), Const('q', s), Const('x', sort)
    for f, o, l in ((cup, Or, 'union'), (cap, And, 'intersection')):
        L.axiom(f.name(), l, ForAll([p, q, x], f(p, q)[x] == o(p[x], q[x]), patterns=[f(p, q)[x], MultiPattern(f(p, q), p[x]), MultiPattern(f(p, q), q[x])]))
    L.axiom(cup.name(), 'number of elements of a union', ForAll([p, q], card(cup(p, q)) + card(cap(p, q)) == card(p) + card(q), patterns=[cup(p, q)]))
    return cup, cap


CUP, CAP = set_algebra(PAIR, 'Pairs')
COLP = Function('ColumnCrosses', Ctx, SV, PS)                # crosses in the columns of some attributes
ROWP = Function('RowCrosses', Ctx, SV, PS)
COL1 = Function('CrossesOfAttribute', Ctx, V, PS)
ROW1 = Function('CrossesOfObject', Ctx, V, PS)
PROD = Function('Rectangle', SV, SV, PS)
CRS = Function('CrossesAround', Ctx, SV, SV, PS)             # crosses in the rows of some objects or the columns of some attributes


def _axioms():
    c = Const('c', Ctx)
    g, m, x = Consts('g m x', V)
    X, Y = Consts('X Y', SV)
    p = Const('p', PAIR)
    g_, m_ = L.proj(p, 0), L.proj(p, 1)
    for f, a, body, l in ((COLP, [c, Y], And(Y[m_], EXTENT(c, m_)[g_]), 'crosses in columns'), (ROWP, [c, X], And(X[g_], INTENT(c, g_)[m_]), 'crosses in rows'),
                          (COL1, [c, m], And(m_ == m, EXTENT(c, m)[g_]), 'crosses of an attribute'), (ROW1, [c, g], And(g_ == g, INTENT(c, g)[m_]), 'crosses of an object'),
                          (PROD, [X, Y], And(X[g_], Y[m_]), 'rectangle'),
                          (CRS, [c, X, Y], And(atts(c)[m_], objs(c)[g_], inc(c, g_, m_), Or(X[g_], Y[m_])), 'crosses around')):
        L.axiom(f.name(), l, ForAll(a + [p], f(*a)[p] == body, patterns=[f(*a)[p]]))
    L.axiom('CrossesOfAttribute', 'as many as objects', ForAll([c, m], card(COL1(c, m)) == card(EXTENT(c, m)), patterns=[COL1(c, m)]))
    L.axiom('CrossesOfObject', 'as many as attributes', ForAll([c, g], card(ROW1(c, g)) == card(INTENT(c, g)), patterns=[ROW1(c, g)]))
    L.axiom('Rectangle', 'elements of a rectangle', ForAll([X, Y], card(PROD(X, Y)) == L.mul(card(X), card(Y)), patterns=[PROD(X, Y)]))


_axioms()


def _lemmas():
    c = Const('c', Ctx)
    x = Const('x', V)
    X, Y = Consts('X Y', SV)
    out = []
    for f, f1, one, l in ((COLP, COL1, EXTENT, 'columns'), (ROWP, ROW1, INTENT, 'rows')):
        out += [Lemma('crosses in %s: none' % l, f.name(), [c], lambda c, f=f: f(c, L.empty(V)) == L.empty(PAIR), lambda c, f=f: f(c, L.empty(V)), P13),
                Lemma('crosses in %s: one more' % l, (f.name(), f1.name()), [c, X, x], lambda c, X, x, f=f, f1=f1, one=one: Implies(Not(X[x]), card(f(c, L.add(X, x))) == card(f(c, X)) + card(one(c, x))), lambda c, X, x, f=f: f(c, L.add(X, x)), P13,
                      by=lambda c, X, x, f=f, f1=f1, one=one: [('the sets', f(c, L.add(X, x)) == CUP(f(c, X), f1(c, x))), ('disjoint', Implies(Not(X[x]), CAP(f(c, X), f1(c, x)) == L.empty(PAIR)))])]
    ok = lambda c, X, Y: And(SNM(X, objs(c)), SNM(Y, atts(c)))
    out.append(Lemma('crosses around a concept', ('CrossesAround', 'RowCrosses', 'ColumnCrosses', 'Rectangle'), [c, X, Y],
                     lambda c, X, Y: Implies(And(ok(c, X, Y), X == APRIME(c, Y)), card(CRS(c, X, Y)) == card(ROWP(c, X)) + card(COLP(c, Y)) - L.mul(card(X), card(Y))), lambda c, X, Y: CRS(c, X, Y), P13,
                     by=lambda c, X, Y: [('union', Implies(And(ok(c, X, Y), X == APRIME(c, Y)), CRS(c, X, Y) == CUP(ROWP(c, X), COLP(c, Y)))), ('intersection', Implies(And(ok(c, X, Y), X == APRIME(c, Y)), PROD(X, Y) == CAP(ROWP(c, X), COLP(c, Y))))]))
    out.append(Lemma('a rectangle of crosses', ('CrossesAround', 'Rectangle'), [c, X, Y], lambda c, X, Y: Implies(And(ok(c, X, Y), X == APRIME(c, Y)), L.mul(card(X), card(Y)) <= card(CRS(c, X, Y))), lambda c, X, Y: CRS(c, X, Y), P13,
                     by=lambda c, X, Y: [('within', Implies(And(ok(c, X, Y), X == APRIME(c, Y)), L.sub_f(PAIR)(PROD(X, Y), CRS(c, X, Y))))]))
    return out


contracts = _lemmas()
CX = Inst('Context')
LATC = Inst('ConceptLattice', fields={'_context': CX})


def lctx(S):
    return ctx(S.lattice._context)


def of_context(S):
    cs = S.lattice._concepts
    c = lctx(S)
    return [('concepts', all_i(S, cs.n, lambda i: And(sub(S.int(cs[i]), atts(c)), sub(S.ext(cs[i]), objs(c)), S.ext(cs[i]) == APRIME(c, S.int(cs[i])), S.int(cs[i]) == OPRIME(c, S.ext(cs[i]))), cs))]


def index_is(S, D, val, n=None):
    K = keys(S, S.lattice._concepts, n)
    return [('a value for every concept', D.dom == K), ('the value', S.forall([CK], lambda q: Implies(K[q], D[q] == val(q)), lambda q: D[q]))]


for name, names, coll, proj, D in (('compute_extent_size', '_objects', 'extent', ke, 'extent_size_index'), ('compute_intent_size', '_attributes', 'intent', ki, 'intent_size_index')):
    f = lambda S, names=names, proj=proj: (lambda q: ToReal(card(proj(q))) / ToReal(getattr(S.lattice._context, names).n))
    contracts.append(Contract(A + name.replace('compute_', '').replace('_', '') + '.py:' + name, {'lattice': LATC}, returns=('dict', CON, 'real'), props=P13,
                              raises=[('ZeroDivisionError', lambda S, names=names: And(getattr(S.lattice._context, names).n == 0, S.lattice._concepts.n > 0))],
                              loops={0: LoopC(lambda S, f=f, D=D, names=names: [('no division by zero', Or(S.k == 0, getattr(S.lattice._context, names).n > 0))] + index_is(S, getattr(S, D), f(S), S.k), types={D: ('dict', CON, 'real')})},
                              ensures=lambda S, f=f: index_is(S, S.result, f(S))))


def separation(S):
    c = lctx(S)

    def f(q):
        sq = L.mul(card(ki(q)), card(ke(q)))
        return If(sq == 0, RealVal(1), ToReal(sq) / ToReal(card(CRS(c, ke(q), ki(q)))))
    return f


def one_concept(S):
    c = lctx(S)
    q = ckey(S, S.lattice._concepts[S.k])
    X, Y = ke(q), ki(q)
    return [('a concept', And(X == APRIME(c, Y), sub(X, objs(c)), sub(Y, atts(c)))), ('around', card(CRS(c, X, Y)) == card(ROWP(c, X)) + card(COLP(c, Y)) - L.mul(card(X), card(Y)))]


contracts.append(Contract(A + 'separation.py:compute_separation_index', {'lattice': LATC}, returns=('dict', CON, 'real'), props=P13, requires=of_context,
                          loops={0: LoopC(lambda S: index_is(S, S.cross_index, separation(S), S.k), at_body=one_concept, types={'cross_index': ('dict', CON, 'real')}),
                                 1: LoopC(lambda S: [('crosses in the columns', S.crossed == card(COLP(lctx(S), S.done)))]),
                                 2: LoopC(lambda S: [('crosses in the rows and columns', S.crossed == card(ROWP(lctx(S), S.done)) + card(COLP(lctx(S), S.int(S.c))))])},
                          ensures=lambda S: index_is(S, S.result, separation(S))))


# ---- filtering
LC = ('list', CON)
DR = ('dict', CON, 'real')


WHERE = Function('ckw', HS, HS, LA, IntSort(), CK, IntSort())            # a position of a concept in a list
IDX = Const('IndexOfConcepts', ArraySort(L.key_sort(CON), RealSort()))


def indices_given(it):
    """a function from lattices to values for their concepts"""
    def call(it, a, k):
        cs = it.content(it.content(a[0]).fields['_concepts'])
        E, N = it.heap_get('Concept', 'extent'), it.heap_get('Concept', 'intent')
        d = CDict(CON, 'real', CKS(E, N, cs.arr, cs.n), IDX)
        d.rep = lambda k: cs.arr[WHERE(E, N, cs.arr, cs.n, k)]           # its keys are the concepts of the lattice themselves
        return it.new_cell(d)
    return VSpec('index', call, 'index')


INDEX = Fn('index', indices_given)


def kept_are(S, more):
    cs, r = S.lattice._concepts, S.result._concepts
    K = keys(S, cs)
    kk = lambda i: ckey(S, r[i])
    return [('from the lattice', all_i(S, r.n, lambda i: K[kk(i)], r)), ('each once', S.forall([IntSort(), IntSort()], lambda i, j: Implies(And(0 <= i, i < j, j < r.n), kk(i) != kk(j)), lambda i, j: [[r[i], r[j]]])),
            ('none is lower than a dropped one', S.forall([IntSort(), CK], lambda i, q: Implies(And(within(i, r.n), K[q], Not(keys(S, r)[q])), IDX[kk(i)] >= IDX[q]), lambda i, q: [[r[i], IDX[q]]]))] + more(S, r, K)


def value_kept(S, r, K):
    return [('those at or above', S.forall([CK], lambda q: keys(S, r)[q] == And(K[q], IDX[q] >= S.opt), lambda q: keys(S, r)[q]))]


def abs_kept(S, r, K):
    n = S.lattice._concepts.n
    return [('so many', r.n == If(S.opt < n, S.opt, n))]


def part_kept(S, r, K):
    n = S.lattice._concepts.n
    return [('share', ToReal(r.n) > ToReal(n) * S.opt - 1)]


def sorted_ones(fn, name='sorted_indexes', out='filtered_concepts'):
    """what the list of pairs says about the concepts kept and dropped"""
    def lemmas(S):
        f = S.local(out, fn)
        K, r = keys(S, S.lattice._concepts), S.result._concepts
        fc = lambda j: L.proj(f[j], 0)
        if fn == '_filter_value':
            return [('kept', And(r.n == f.n, all_i(S, r.n, lambda j: And(r[j] == fc(j), K[ckey(S, fc(j))], IDX[ckey(S, fc(j))] >= S.opt, keys(S, r)[ckey(S, fc(j))]), r))),
                    ('kept by value', S.forall([CK], lambda q: Implies(And(K[q], IDX[q] >= S.opt), S.exists([IntSort()], lambda j: And(within(j, r.n), ckey(S, r[j]) == q))), lambda q: K[q]))]
        s = S.local(name, fn)
        cpt, val = lambda j: L.proj(s[j], 0), lambda j: L.proj(s[j], 1)
        return [('pairs', all_i(S, s.n, lambda j: And(K[ckey(S, cpt(j))], val(j) == IDX[ckey(S, cpt(j))]), s)),
                ('every concept has a pair', S.forall([CK], lambda q: Implies(K[q], S.exists([IntSort()], lambda j: And(within(j, s.n), ckey(S, cpt(j)) == q, val(j) == IDX[q]))), lambda q: K[q])),
                ('number of pairs', s.n == S.lattice._concepts.n),
                ('kept', And(r.n == f.n, all_i(S, r.n, lambda j: And(r[j] == fc(j), keys(S, r)[ckey(S, fc(j))]), r))),
                ('the first ones', S.forall([IntSort()], lambda j: Implies(And(within(j, s.n), j < r.n), And(s[j] == f[j], r[j] == cpt(j))), lambda j: s[j])),
                ('dropped ones come later', S.forall([IntSort()], lambda j: Implies(within(j, s.n), Or(keys(S, r)[ckey(S, cpt(j))], j >= r.n)), lambda j: s[j]))]
    return lemmas


def ties(S):
    """concepts with the value of the last one are kept, too"""
    N = S.raw('n').t
    s, f = S.sorted_indexes, S.filtered_concepts
    val = lambda j: L.proj(s[j], 1)
    gap = val(f.n) - val(N)
    n = If(N < s.n, N, s.n)
    return [('so many', And(n <= f.n, f.n <= n + S.k)), ('the first ones', S.forall([IntSort()], lambda j: Implies(within(j, f.n), f[j] == s[j]), lambda j: f[j])),
            ('all so far or none any more', Or(f.n == n + S.k, If(gap >= 0, gap, -gap) >= S.eps))]


def share(S):
    N = S.raw('n').t
    m = ToReal(S.lattice._concepts.n)
    return [('share', And(0 <= m * S.part, m * S.part <= m)), ('rounded down', And(0 <= N, N <= S.lattice._concepts.n))]


ONCE = lambda S: ('no concept twice', card(keys(S, S.lattice._concepts)) == S.lattice._concepts.n)
for mode, ty, pre, more, lemmas in (('value', 'real', lambda S: [], value_kept, sorted_ones('_filter_value')), ('abs', 'int', lambda S: [S.opt >= 0], abs_kept, sorted_ones('_filter_abs')), ('part', 'real', lambda S: [And(S.opt > 0, S.opt <= 1)], part_kept, sorted_ones('_filter_part'))):
    contracts.append(Contract(A + 'filter.py:filter_concepts', {'lattice': LATC, 'function': INDEX, 'mode': Lit(mode), 'opt': ty}, returns=Inst('ConceptSystem'), variant=mode, props=P13,
                              requires=lambda S, pre=pre: [ONCE(S), ('not empty', S.lattice._concepts.n >= 1)] + pre(S), ensures=lambda S, more=more: kept_are(S, more), exit_lemmas=lemmas,
                              inner_loops={A + 'filter.py:filter_concepts.<locals>._filter_part': {0: LoopC(ties, at_entry=share)}}))
