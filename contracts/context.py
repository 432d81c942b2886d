"""Contracts for Context: lookups, derivations, closures (C01, C03, C20)."""
import copy
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem, card
from engine.contract import Contract, Lemma, LoopC, Fn, Lit, Inst, Either
from engine.core import *
from engine.views import ListView
from .ctxdef import *

X = 'fca/context.py:Context.'
F = 'fca/algorithms/closure_operators.py:'
C = Inst('Context')
SETV = ('set', 'V')


def me(S):
    return ctx(S.self)


def inside(i, n):
    return And(0 <= i, i < n)


ROWS = 'in computations'
lookups = [
    Contract(X + 'get_object_intent_by_index', {'self': C, 'i': 'int'}, requires=lambda S: [('position of an object', inside(S.i, S.self._objects.n))],
             ensures=lambda S: [('attributes of the row', S.result == ROW(me(S), S.i))], returns=SETV, shared=ROWS, props=('C01', 'C03', 'C20')),
    Contract(X + 'get_attribute_extent_by_index', {'self': C, 'j': 'int'}, requires=lambda S: [('position of an attribute', inside(S.j, S.self._attributes.n))],
             ensures=lambda S: [('objects of the column', S.result == COL(me(S), S.j))], returns=SETV, shared=ROWS, props=('C01', 'C03', 'C20')),
    Contract(X + 'get_object_intent', {'self': C, 'o': 'V'}, raises=[('KeyError', lambda S: Not(mem(S.o, objs(me(S)))))],
             ensures=lambda S: [('attributes of the object', S.result == INTENT(me(S), S.o))], returns=SETV, shared=ROWS, props=('C01', 'C03', 'C20')),
    Contract(X + 'get_attribute_extent', {'self': C, 'a': 'V'}, raises=[('KeyError', lambda S: Not(mem(S.a, atts(me(S)))))],
             ensures=lambda S: [('objects of the attribute', S.result == EXTENT(me(S), S.a))], returns=SETV, shared=ROWS, props=('C01', 'C03', 'C20')),
    Contract(X + 'get_value', {'self': C, 'o': 'V', 'a': 'V'}, raises=[('ValueError', lambda S: Or(Not(mem(S.o, objs(me(S)))), Not(mem(S.a, atts(me(S))))))],
             ensures=lambda S: [('the cell', S.result == inc(me(S), S.o, S.a))], returns='bool', props=('C01',)),
]

# while a basis is computed the accessors give the same set again (caching.py), so nobody may change it; at any other time it is a new set
for c in lookups[:4]:
    new = copy.copy(c)
    new.variant, new.shared, new.nocall, new.fresh_rows = 'a new set', False, True, True
    lookups = lookups + [new]

contracts = lookups

# ---------------------------------------------------------------- derivations by position
PCOL = Function('PCol', TT, IntSort(), ArraySort(IntSort(), BoolSort()))     # rows with a cross in a column
PROW = Function('PRow', TT, IntSort(), ArraySort(IntSort(), BoolSort()))
_T, _i, _j = Const('T', TT), *Ints('i j')
L.axiom('PCol', 'rows of a column', ForAll([_T, _i, _j], PCOL(_T, _j)[_i] == _T[_i][_j], patterns=[PCOL(_T, _j)[_i]]))
L.axiom('PRow', 'columns of a row', ForAll([_T, _i, _j], PROW(_T, _i)[_j] == _T[_i][_j], patterns=[PROW(_T, _i)[_j]]))


def inds(r):
    """the set of positions, given as a set or as an array"""
    return r.set if isinstance(r, ListView) else r


def prime_loop(name, over, n, P, names):
    def inv(S):
        x = getattr(S, name)
        src = getattr(S, over)
        s = S.self
        return [('size', x.n == n(s)),
                ('common so far', S.forall([IntSort()], lambda j: Implies(inside(j, n(s)), x[j] == sub(src.sub(0, S.k + 1), P(s.np_table.arr, j))), lambda j: [x[j], getattr(s, names)[j]]))]
    return LoopC(inv)


def prime_inds(q, over, names, onames, P, name, fn):
    """names: of the results; onames: of the arguments"""
    m, n = (lambda s: getattr(s, names).n), (lambda s: getattr(s, onames).n)

    def ens(S):
        r = inds(S.result)
        x = getattr(S, over)
        s = S.self
        once = [('without repetition', L.dist(r0.arr, r0.off, r0.off + r0.n)) for r0 in [S.result] if isinstance(r0, ListView)]
        return once + [('exact', S.forall([IntSort()], lambda j: r[j] == And(inside(j, m(s)), sub(inds(x), P(s.np_table.arr, j))), lambda j: [r[j], getattr(s, names)[j]])),
                ('names', NM(getattr(s, names).arr, r) == fn(me(S), NM(getattr(s, onames).arr, inds(x))))]

    def req(S):
        x = inds(getattr(S, over))
        return [('positions', S.forall([IntSort()], lambda i: Implies(x[i], inside(i, n(S.self))), lambda i: x[i]))]

    def empty(S):
        x = getattr(S, over)
        return x.n == 0 if isinstance(x, ListView) else x == L.empty(IntSort())
    return [Contract(X + q, {'self': C, over: t}, requires=req, ensures=ens, returns=Either(empty, ('set', 'int'), ('nd1', 'int')), variant=t[0], props=('C03', 'C20'),
                     loops={0: prime_loop(name, over, m, P, names)}) for t in (('list', 'int'), ('set', 'int'), ('nd1', 'int'))]


by_position = prime_inds('oprime_inds', 'obj_inds', '_attributes', '_objects', PCOL, 'common_intent', OPRIME) + prime_inds('aprime_inds', 'att_inds', '_objects', '_attributes', PROW, 'common_extent', APRIME)
contracts += by_position

# ---------------------------------------------------------------- derivations by name
def named(q, p, dom, fn, lab, fun=None, kinds=(('set', 'V'), ('list', 'V'))):
    """method and function form"""
    out = []
    for t in kinds:
        out.append(Contract(X + q, {'self': C, p: t}, raises=[('KeyError', lambda S: Not(sub(inds(getattr(S, p)), dom(me(S)))))],
                            ensures=lambda S: [(lab, S.result == fn(me(S), inds(getattr(S, p))))], returns=SETV, props=('C03', 'C20')))
    return out


by_name = (named('oprime', 'objects', objs, OPRIME, 'common attributes') + named('aprime', 'attributes', atts, APRIME, 'common objects') +
           named('oclosure', 'objects', objs, OCL, 'closure') + named('aclosure', 'attributes', atts, ACL, 'closure'))
contracts += by_name


def cme(S):
    return ctx(S.context)


def fold_loop(acc, over, dom, fn):
    def inv(S):
        return [('derivation of the elements seen', getattr(S, acc) == fn(cme(S), S.done)), ('the elements seen are names', sub(S.done, dom(cme(S))))]
    return LoopC(inv)


functions = []
for q, p, dom, fn, acc in (('oprime', 'objects', objs, OPRIME, 'attributes'), ('aprime', 'attributes', atts, APRIME, 'objects')):
    functions.append(Contract(F + q, {p: SETV, 'context': C}, raises=[('KeyError', lambda S, p=p, dom=dom: Not(sub(getattr(S, p), dom(cme(S)))))],
                              ensures=lambda S, p=p, fn=fn: [('derivation', S.result == fn(cme(S), getattr(S, p)))], returns=SETV, props=('C03', 'C20'),
                              loops={0: fold_loop(acc, p, dom, fn)}))
for q, p, dom, fn in (('oclosure', 'objects', objs, OCL), ('aclosure', 'attributes', atts, ACL)):
    functions.append(Contract(F + q, {p: SETV, 'context': C}, raises=[('KeyError', lambda S, p=p, dom=dom: Not(sub(getattr(S, p), dom(cme(S)))))],
                              ensures=lambda S, p=p, fn=fn: [('closure', S.result.set == fn(cme(S), getattr(S, p))),
                                                             ('without repetition', S.forall([IntSort(), IntSort()], lambda i, j: Implies(And(0 <= i, i < j, j < S.result.n), S.result[i] != S.result[j]),
                                                                                             lambda i, j: MultiPattern(S.result[i], S.result[j])))], returns=('list', 'V'), props=('C03', 'C20')))
contracts += functions


# ---------------------------------------------------------------- counting derivations (C03)
PA = ArraySort(IntSort(), IntSort())
HIT = Function('Hits', TT, PA, IntSort(), IntSort(), IntSort())     # how many of the rows r[a[0]], .., r[a[k-1]] have a cross at position v
HITN = Function('HitNames', Ctx, LV, IntSort(), V, IntSort())       # how many of the attributes a[0], .., a[k-1] an object has
TR = Function('Transposed', TT, TT)
P3 = ('C03',)


def _counting():
    a, k, v, n, z = Const('a', PA), *Ints('k v n z')
    R, c, T, p = Const('R', TT), Const('c', Ctx), Const('T', TT), Const('p', IS)
    b, x = Const('b', LV), Const('x', V)
    L.axiom('Hits', 'hits: none', ForAll([R, a, v], HIT(R, a, I(0), v) == 0, patterns=[HIT(R, a, I(0), v)]))
    L.axiom('Hits', 'hits: one more', ForAll([R, a, k, n, v], Implies(And(0 <= k, n == k + 1), HIT(R, a, n, v) == HIT(R, a, k, v) + If(R[a[k]][v], 1, 0)), patterns=[MultiPattern(HIT(R, a, k, v), HIT(R, a, n, v))]))
    L.axiom('Transposed', 'transposed table', ForAll([T, k, v], TR(T)[k][v] == T[v][k], patterns=[TR(T)[k][v]]))
    L.axiom('HitNames', 'attributes an object has: none', ForAll([c, b, x], HITN(c, b, I(0), x) == 0, patterns=[HITN(c, b, I(0), x)]))
    L.axiom('HitNames', 'attributes an object has: one more', ForAll([c, b, k, n, x], Implies(And(0 <= k, n == k + 1), HITN(c, b, n, x) == HITN(c, b, k, x) + If(inc(c, x, b[k]), 1, 0)),
            patterns=[MultiPattern(HITN(c, b, k, x), HITN(c, b, n, x))]))
    w = Function('outside', IS, IntSort(), IntSort())(p, n)
    L.axiom('NamesAt', 'as many names as positions', ForAll([b, p, n], Implies(L.dist(b, I(0), n), Or(card(NM(b, p)) == card(p), And(p[w], Not(inside(w, n))))), patterns=[MultiPattern(NM(b, p), L.dist(b, I(0), n))]))
    IN = lambda a, n, R, v: L.inter(L.rng(a, I(0), n), PCOL(R, v))
    return [Lemma('hits of distinct rows', ('Hits',), [R, a, n, v], lambda R, a, n, v: Implies(L.dist(a, I(0), n), HIT(R, a, n, v) == card(IN(a, n, R, v))), lambda R, a, n, v: MultiPattern(HIT(R, a, n, v), PCOL(R, v)), P3, induct=(2, 0),
                  by=lambda R, a, n, v: [('one more', L.rng(a, I(0), n) == L.add(L.rng(a, I(0), n - 1), a[n - 1])), ('distinct', Implies(L.dist(a, I(0), n), And(L.dist(a, I(0), n - 1), Not(L.rng(a, I(0), n - 1)[a[n - 1]])))),
                                         ('both', IN(a, n, R, v) == If(R[a[n - 1]][v], L.add(IN(a, n - 1, R, v), a[n - 1]), IN(a, n - 1, R, v)))]),
            Lemma('columns of the transposed table', ('Transposed', 'PRow'), [T, v], lambda T, v: PCOL(TR(T), v) == PROW(T, v), lambda T, v: [PCOL(TR(T), v), PROW(T, v)], P3)]


contracts += _counting()


def count_of(D, k):
    return If(D.dom[k], D[k], 0)


def assoc_inds(q, over, names, onames, R, name):
    m, n = (lambda s: getattr(s, names).n), (lambda s: getattr(s, onames).n)

    def ens(S):
        x, s, D = getattr(S, over), S.self, S.result
        r = R(s.np_table.arr)
        each = lambda f: S.forall([IntSort()], lambda v: Implies(inside(v, m(s)), f(v)), lambda v: [D.dom[v], PCOL(r, v)])
        out = [('positions', S.forall([IntSort()], lambda v: Implies(D.dom[v], inside(v, m(s))), lambda v: D.dom[v]))]
        if isinstance(x, ListView):
            out += [('how many', each(lambda v: count_of(D, v) == HIT(r, x.arr, x.n, v))),
                    ('how many different', Implies(L.dist(x.arr, I(0), x.n), each(lambda v: count_of(D, v) == card(L.inter(x.set, PCOL(r, v))))))]
        else:
            out.append(('how many different', each(lambda v: count_of(D, v) == card(L.inter(x, PCOL(r, v))))))
        return out

    def inv(S):
        x, src, s = getattr(S, name), getattr(S, over), S.self
        r = R(s.np_table.arr)
        return [('positions', S.forall([IntSort()], lambda k: Implies(inside(k, x.n), inside(x[k], m(s))), lambda k: x[k])),
                ('how many so far', S.forall([IntSort()], lambda v: Implies(inside(v, m(s)), L.occ(x.arr, I(0), x.n, v) == HIT(r, src.arr, S.k, v)), lambda v: [L.occ(x.arr, I(0), x.n, v), HIT(r, src.arr, S.k, v)]))]

    def req(S):
        x = inds(getattr(S, over))
        return [('positions', S.forall([IntSort()], lambda i: Implies(x[i], inside(i, n(S.self))), lambda i: x[i]))]
    return [Contract(X + q, {'self': C, over: t}, requires=req, ensures=ens, returns=('dict', 'int', 'int'), variant=t[0], props=P3, loops={0: LoopC(inv, types={name: ('list', 'int')})})
            for t in (('list', 'int'), ('set', 'int'), ('nd1', 'int'))]


contracts += assoc_inds('associative_oprime_inds', 'obj_inds', '_attributes', '_objects', lambda T: T, 'all_atts_list')
contracts += assoc_inds('associative_aprime_inds', 'att_inds', '_objects', '_attributes', lambda T: TR(T), 'all_objs_list')
# closures by position
_a, _R = Const('a', LV), Const('R', IS)
contracts.append(Lemma('names at no position', ('NamesAt',), [_a, _R], lambda a, R: (NM(a, R) == L.empty(V)) == (R == L.empty(IntSort())), lambda a, R: NM(a, R), P3,
                       by=lambda a, R: [('some', Implies(R != L.empty(IntSort()), NM(a, R) != L.empty(V)))]))
for q, over, onames, der, fn in (('oclosure_inds', 'obj_inds', '_objects', OPRIME, OCL), ('aclosure_inds', 'att_inds', '_attributes', APRIME, ACL)):
    given = lambda S, over=over, onames=onames: NM(getattr(S.self, onames).arr, inds(getattr(S, over)))

    def ens(S, onames=onames, fn=fn, given=given):
        r, arr = inds(S.result), getattr(S.self, onames)
        return [('positions', S.forall([IntSort()], lambda i: Implies(r[i], inside(i, arr.n)), lambda i: r[i])), ('closure', NM(arr.arr, r) == fn(me(S), given(S)))]

    def req(S, over=over, onames=onames):
        x = inds(getattr(S, over))
        return [('positions', S.forall([IntSort()], lambda i: Implies(x[i], inside(i, getattr(S.self, onames).n)), lambda i: x[i]))]
    contracts += [Contract(X + q, {'self': C, over: t}, requires=req, ensures=ens, returns=Either(lambda S, given=given, der=der: der(me(S), given(S)) == L.empty(V), ('set', 'int'), ('nd1', 'int')), variant=t[0], props=P3, nocall=True)
                  for t in (('list', 'int'), ('set', 'int'), ('nd1', 'int'))]

# counting by name
AGREE = Function('NamesOfPositions', LV, IntSort(), PA, LV, IntSort(), BoolSort())    # a[k] is the position of b[k] in the names, for k < n
POSIN = Function('PositionsBelow', IS, IntSort(), BoolSort())


def _by_name():
    nm, b, a, n, m, k, g, c, P = Const('nm', LV), Const('b', LV), Const('a', PA), Int('n'), Int('m'), Int('k'), Const('g', V), Const('c', Ctx), Const('P', IS)
    w = Function('disagree', LV, IntSort(), PA, LV, IntSort(), IntSort())(nm, m, a, b, n)
    one = lambda k: And(inside(a[k], m), nm[a[k]] == b[k])
    A = AGREE(nm, m, a, b, n)
    L.axiom('NamesOfPositions', 'names of positions: in', ForAll([nm, m, a, b, n, k], Implies(And(A, inside(k, n)), one(k)), patterns=[MultiPattern(A, a[k]), MultiPattern(A, b[k])]))
    L.axiom('NamesOfPositions', 'names of positions: witness', ForAll([nm, m, a, b, n], Or(A, And(inside(w, n), Not(one(w)))), patterns=[A]))
    v = Function('notbelow', IS, IntSort(), IntSort())(P, n)
    L.axiom('PositionsBelow', 'below: in', ForAll([P, n, k], Implies(And(POSIN(P, n), P[k]), inside(k, n)), patterns=[MultiPattern(POSIN(P, n), P[k])]))
    L.axiom('PositionsBelow', 'below: witness', ForAll([P, n], Or(POSIN(P, n), And(P[v], Not(inside(v, n)))), patterns=[POSIN(P, n)]))
    hit = lambda c, a, n, g: HIT(TR(cT(c)), a, n, oi(c, g))
    col = lambda c, g: PCOL(TR(cT(c)), oi(c, g))
    colO = lambda c, j: PCOL(cT(c), j)
    ok = lambda c: And(L.dist(ca(c), I(0), cm(c)), L.dist(co(c), I(0), cn(c)))
    return [Lemma('hits by name', ('Hits', 'HitNames', 'NamesOfPositions'), [c, a, b, n, g], lambda c, a, b, n, g: Implies(And(ok(c), AGREE(ca(c), cm(c), a, b, n), objs(c)[g]), hit(c, a, n, g) == HITN(c, b, n, g)),
                  lambda c, a, b, n, g: MultiPattern(hit(c, a, n, g), HITN(c, b, n, g)), P3, induct=(3, 0),
                  by=lambda c, a, b, n, g: [('before', Implies(AGREE(ca(c), cm(c), a, b, n), AGREE(ca(c), cm(c), a, b, n - 1)))]),
            Lemma('attributes of an object among some', ('PositionsBelow', 'Transposed'), [c, P, g], lambda c, P, g: Implies(And(ok(c), POSIN(P, cm(c)), objs(c)[g]), card(L.inter(P, col(c, g))) == card(L.inter(NM(ca(c), P), INTENT(c, g)))),
                  lambda c, P, g: MultiPattern(POSIN(P, cm(c)), L.inter(P, col(c, g))), P3, by=lambda c, P, g: [('names', Implies(And(ok(c), POSIN(P, cm(c)), objs(c)[g]), NM(ca(c), L.inter(P, col(c, g))) == L.inter(NM(ca(c), P), INTENT(c, g))))])]


contracts += _by_name()


def assoc_aprime(t):
    def ens(S):
        D, x, c = S.result, S.attributes, me(S)
        each = lambda f: S.forall([V], lambda g: Implies(objs(c)[g], f(g)), lambda g: [D.dom[g], objs(c)[g]])
        out = [('objects', sub(D.dom, objs(c)))]
        if isinstance(x, ListView):
            return out + [('how many of the attributes', each(lambda g: count_of(D, g) == HITN(c, x.arr, x.n, g)))]
        return out + [('how many of the attributes', each(lambda g: count_of(D, g) == card(L.inter(x, INTENT(c, g)))))]

    def hints(S):
        c, p, x, d = me(S), S.local('att_inds'), S.attributes, S.local('associative_aprime_inds')
        common = [('distinct names', And(L.dist(ca(c), I(0), cm(c)), L.dist(co(c), I(0), cn(c)))),
                  ('counts', S.forall([V], lambda g: Implies(objs(c)[g], count_of(S.result, g) == count_of(d, oi(c, g))), lambda g: [S.result.dom[g], objs(c)[g]]))]
        if isinstance(x, ListView):
            return common + [('positions of the names', AGREE(ca(c), cm(c), p.arr, x.arr, x.n))]
        return common + [('positions', POSIN(p.set, cm(c))), ('distinct positions', L.dist(p.arr, I(0), p.n)), ('the names', NM(ca(c), p.set) == x)]
    return Contract(X + 'associative_aprime', {'self': C, 'attributes': t}, raises=[('KeyError', lambda S: Not(sub(inds(S.attributes), atts(me(S)))))], ensures=ens, returns=('dict', 'V', 'int'), variant=t[0], props=P3, exit_lemmas=hints)


contracts += [assoc_aprime(('list', 'V')), assoc_aprime(('set', 'V'))]


def _among_objects():
    c, P, g = Const('c', Ctx), Const('P', IS), Const('g', V)
    col = lambda c, g: PCOL(cT(c), ai(c, g))
    ok = lambda c: And(L.dist(ca(c), I(0), cm(c)), L.dist(co(c), I(0), cn(c)))
    hyp = lambda c, P, g: And(ok(c), POSIN(P, cn(c)), atts(c)[g])
    return [Lemma('objects of an attribute among some', ('PositionsBelow',), [c, P, g], lambda c, P, g: Implies(hyp(c, P, g), card(L.inter(P, col(c, g))) == card(L.inter(NM(co(c), P), EXTENT(c, g)))),
                  lambda c, P, g: MultiPattern(POSIN(P, cn(c)), L.inter(P, col(c, g))), P3, by=lambda c, P, g: [('names', Implies(hyp(c, P, g), NM(co(c), L.inter(P, col(c, g))) == L.inter(NM(co(c), P), EXTENT(c, g))))])]


contracts += _among_objects()


def assoc_aclosure(t):
    def ens(S):
        D, size, x, c = S.result[0], S.result[1], inds(S.attributes), me(S)
        E = APRIME(c, x)
        return [('size of the extent', size == card(E)), ('attributes', sub(D.dom, atts(c))),
                ('how many of the objects', S.forall([V], lambda g: Implies(atts(c)[g], count_of(D, g) == card(L.inter(E, EXTENT(c, g)))), lambda g: [D.dom[g], atts(c)[g]]))]

    def hints(S):
        c, e, d, D = me(S), S.local('extent_inds'), S.local('associative_closure_inds'), S.result[0]
        P = inds(e)
        once = [('objects once', card(P) == e.n)] if isinstance(e, ListView) else []
        return once + [('distinct names', And(L.dist(ca(c), I(0), cm(c)), L.dist(co(c), I(0), cn(c)))), ('positions', POSIN(P, cn(c))), ('the objects', NM(co(c), P) == APRIME(c, inds(S.attributes))),
                       ('counts', S.forall([V], lambda g: Implies(atts(c)[g], count_of(D, g) == count_of(d, ai(c, g))), lambda g: [D.dom[g], atts(c)[g]])),
                       ('counts at positions', S.forall([V], lambda g: Implies(atts(c)[g], count_of(d, ai(c, g)) == card(L.inter(P, PCOL(cT(c), ai(c, g))))), lambda g: [D.dom[g], atts(c)[g]]))]
    return Contract(X + 'associative_aclosure', {'self': C, 'attributes': t}, raises=[('KeyError', lambda S: Not(sub(inds(S.attributes), atts(me(S)))))], ensures=ens, returns=('tup', ('dict', 'V', 'int'), 'int'), variant=t[0], props=P3, exit_lemmas=hints)


contracts += [assoc_aclosure(('list', 'V')), assoc_aclosure(('set', 'V'))]
