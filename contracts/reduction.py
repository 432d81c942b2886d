"""Clarification and reduction of contexts (C10)."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem
from engine.contract import Contract, Lemma, LoopC, Inst
from engine.core import *
from .ctxdef import *
from .ctxnew import within, all_i
from .context import me
from .ctxalg import C, CE, T, same_list, table_is

X = 'fca/context.py:'
P10 = ('C10',)
B = L.bits


def row_code(S, x, n, f):
    """x is the code of the row f(0..n-1)"""
    return [('not negative', x >= 0), ('bits', S.forall([IntSort()], lambda j: B(x)[j] == And(within(j, n), f(j)), lambda j: B(x)[j]))]


def code_loop():
    def inv(S):
        x, l = S.reduce_result, S.lst
        return [('not negative', x >= 0), ('bits so far', S.forall([IntSort()], lambda j: B(x)[j] == And(within(j, S.k), l[l.n - S.k + j]), lambda j: B(x)[j]))]
    return LoopC(inv, at_end=lambda S: [('appended', S.reduce_result == L.dbl(S.head.reduce_result, S.lst[S.lst.n - 1 - S.k]))])


# rows as sets of column positions
ROWS = ArraySort(IntSort(), BoolSort())
RC = Function('RowPositions', ROWS, IntSort(), IS)


def RP(t, i, m):
    return RC(t[i], m)


RPS = Function('RowsByPosition', TT, IntSort(), IntSort(), ArraySort(IS, BoolSort()))


def _axioms():
    t, n, m, i, j, r = Const('t', TT), *Ints('n m i j'), Const('r', IS)
    a = Const('a', ROWS)
    L.axiom('RowPositions', 'columns with a cross', ForAll([a, m, j], RC(a, m)[j] == And(0 <= j, j < m, a[j]), patterns=[RC(a, m)[j], MultiPattern(RC(a, m), a[j])]))
    L.axiom('RowsByPosition', 'rows: in', ForAll([t, n, m, i], Implies(And(0 <= i, i < n), RPS(t, n, m)[RP(t, i, m)]), patterns=[MultiPattern(RPS(t, n, m), t[i])]))
    w = Function('roww', TT, IntSort(), IntSort(), IS, IntSort())(t, n, m, r)
    L.axiom('RowsByPosition', 'rows: witness', ForAll([t, n, m, r], Implies(RPS(t, n, m)[r], And(0 <= w, w < n, RP(t, w, m) == r)), patterns=[RPS(t, n, m)[r]]))


_axioms()


def the_code(S):
    fs = row_code(S, S.result, S.lst.n, lambda j: S.lst[j])
    return fs + ([('the row', B(S.result) == RC(S.lst.arr, S.lst.n))] if is_int_value(S.lst.off) and S.lst.off.as_long() == 0 else [])


contracts = [
    Contract(X + 'list2int', {'lst': (k, 'bool')}, returns='int', ensures=the_code, loops={'reduce': code_loop()}, variant=k, props=P10)
    for k in ('list', 'nd1')]

def rp(x, i):
    t = x.np_table
    return RP(t.arr, i, t.m)


def rows(x):
    t = x.np_table
    return RPS(t.arr, t.n, t.m)


CODE = Function('code', IS, IntSort())


def code_of(x, i):
    return CODE(rp(x, i))


def kept(S):
    """objects of the context with their rows"""
    r, s = S.result, S.self
    a, p = r._objects, s.object_indices
    return [same_list(S, r._attributes, s._attributes, 'attributes'), ('objects of the context', all_i(S, a.n, lambda i: s._objects.set[a[i]], a)),
            table_is(S, r.np_table, a.n, T(S).m, lambda i, j: T(S)[p[a[i]], j])]


def rows_kept(S):
    r, s = S.result, S.self
    a, p = r._objects, s.object_indices
    return ('rows', S.forall([IntSort()], lambda i: Implies(within(i, a.n), rp(r, i) == rp(s, p[a[i]])), lambda i: a[i]))


def different_rows(S):
    r = S.result
    a = r._objects
    return ('rows differ', S.forall([IntSort(), IntSort()], lambda i, j: Implies(And(0 <= i, i < j, j < a.n), rp(r, i) != rp(r, j)), lambda i, j: MultiPattern(a[i], a[j])))


contracts += [
    Contract(X + 'Context.clarify_objects', {'self': C}, returns=CE, props=P10,
             ensures=lambda S: kept(S) + [rows_kept(S), different_rows(S), ('every row', S.forall([IntSort()], lambda i: Implies(within(i, S.self._objects.n), rows(S.result)[rp(S.self, i)]), lambda i: S.self._objects[i]))]),
]

# ---- reduction: codes kept, and what separates them
IN = ArraySort(IntSort(), BoolSort())
RSET = ArraySort(IS, BoolSort())
SEP = Function('SomeWithout', IN, IntSort(), IntSort(), BoolSort())          # a code kept has all ones of this one, and not this one
SEPR = Function('SomeRowWithout', RSET, IS, IntSort(), BoolSort())           # the same for rows
IRR = Function('NotAMeet', IN, IntSort(), IntSort(), BoolSort())             # some place is missing here but in none of the codes kept that are properly above
IRRR = Function('RowNotAMeet', RSET, IS, IntSort(), BoolSort())
SI = L.sub_f(IntSort())


def _axioms():
    D, R, p, q = Const('D', IN), Const('R', RSET), *Consts('p q', IS)
    x, y, c, m = Ints('x y c m')
    for f, A, z, w, b, lab in ((SEP, D, x, y, L.bits, 'codes'), (SEPR, R, p, q, lambda r: r, 'rows')):
        t = f(A, z, c)
        L.axiom(f.name(), 'separating %s: in' % lab, ForAll([A, z, c, w], Implies(And(A[w], SI(b(z), b(w)), Not(b(w)[c])), t), patterns=[MultiPattern(t, A[w])]))
        v = Function(f.name() + '_w', A.sort(), z.sort(), IntSort(), z.sort())(A, z, c)
        L.axiom(f.name(), 'separating %s: witness' % lab, ForAll([A, z, c], Implies(t, And(A[v], SI(b(z), b(v)), Not(b(v)[c]))), patterns=[t]))
    for f, A, z, w, b, lab in ((IRR, D, x, y, L.bits, 'codes'), (IRRR, R, p, q, lambda r: r, 'rows')):
        t = f(A, z, m)
        v = Function(f.name() + '_w', A.sort(), z.sort(), IntSort(), IntSort())(A, z, m)
        L.axiom(f.name(), 'not a meet of %s: place' % lab, ForAll([A, z, m], Implies(t, And(0 <= v, v < m, Not(b(z)[v]))), patterns=[t]))
        L.axiom(f.name(), 'not a meet of %s: not above' % lab, ForAll([A, z, m, w], Implies(And(t, A[w], SI(b(z), b(w)), b(z) != b(w)), b(w)[v]), patterns=[MultiPattern(t, A[w])]))
        u = Function(f.name() + '_b', A.sort(), z.sort(), IntSort(), z.sort())(A, z, c)
        L.axiom(f.name(), 'not a meet of %s: in' % lab, ForAll([A, z, m, c], Implies(And(0 <= c, c < m, Not(b(z)[c])), Or(t, And(A[u], SI(b(z), b(u)), b(z) != b(u), Not(b(u)[c])))), patterns=[MultiPattern(t, b(z)[c])]))


_axioms()


def red(S):
    r = S.reducible
    return r.set if hasattr(r, 'set') else r


KI = Function('Fewer', IN, IN, BoolSort())


def _axioms():
    A, E = Consts('A E', IN)
    x, m = Ints('x m')
    L.axiom('Fewer', 'fewer codes', ForAll([A, E], KI(A, E) == SI(E, A), patterns=[KI(A, E)]))


_axioms()
ABOVE = Function('BelowAllAbove', IN, IntSort(), IntSort(), BoolSort())       # all codes properly above the first have the ones of the second
RCODES = Function('RowsOfCodes', RSET, IN, BoolSort())                       # each of the rows has one of the codes


def _axioms():
    A, R, w = Const('A', IN), Const('R', RSET), Const('w', IS)
    x, y, z = Ints('x y z')
    t = ABOVE(A, x, z)
    hyp = lambda v: And(A[v], v != x, SI(B(x), B(v)))
    L.axiom('BelowAllAbove', 'below all above', ForAll([A, x, z, y], Implies(And(t, hyp(y)), SI(B(z), B(y))), patterns=[MultiPattern(t, A[y])]))
    v = Function('abovew', IN, IntSort(), IntSort(), IntSort())(A, x, z)
    L.axiom('BelowAllAbove', 'below all above: witness', ForAll([A, x, z], Or(t, And(hyp(v), Not(SI(B(z), B(v))))), patterns=[t]))
    t = RCODES(R, A)
    ok = lambda w: And(A[CODE(w)], B(CODE(w)) == w)
    L.axiom('RowsOfCodes', 'rows of codes', ForAll([A, R, w], Implies(And(t, R[w]), ok(w)), patterns=[MultiPattern(t, R[w])]))
    v = Function('rcodesw', RSET, IN, IS)(R, A)
    L.axiom('RowsOfCodes', 'rows of codes: witness', ForAll([A, R], Or(t, And(R[v], Not(ok(v)))), patterns=[t]))


_axioms()
_R, _w, _y, _c = Const('R', RSET), Const('w', IS), *Ints('y c')
_A, _E, _x, _m = *Consts('A E', IN), *Ints('x m')
lemmas = [Lemma('no meet of fewer codes', ('Fewer',), [_A, _E, _x, _m], lambda A, E, x, m: Implies(And(KI(A, E), IRR(A, x, m)), IRR(E, x, m)), lambda A, E, x, m: [(KI(A, E), IRR(A, x, m))], P10),
          Lemma('a place all above have', ('BelowAllAbove',), [_A, _x, _y, _c, _m], lambda A, x, y, c, m: Implies(And(ABOVE(A, x, y), within(c, m), B(y)[c], Not(B(x)[c])), IRR(A, x, m)),
                lambda A, x, y, c, m: [(ABOVE(A, x, y), B(y)[c], IRR(A, x, m))], P10),
          Lemma('rows of codes that are no meets', ('RowsOfCodes',), [_R, _A, _w, _m], lambda R, A, w, m: Implies(And(RCODES(R, A), R[w], IRR(A, CODE(w), m)), IRRR(R, w, m)),
                lambda R, A, w, m: [(RCODES(R, A), R[w], IRRR(R, w, m))], P10)]


def MONO(A, E):
    return KI(A, E)


def D(S, keys=None):
    return L.diff(S.keys.set, red(S))


def reduce_outer(S):
    K, m = S.keys, T(S).m
    d = D(S)
    return [('codes seen', sub(red(S), K.sub(I(0), S.k))),
            ('meets', S.forall([IntSort()] * 2, lambda x, c: Implies(And(K.set[x], within(c, m), Not(B(x)[c])), SEP(d, x, c)), lambda x, c: MultiPattern(K.set[x], B(x)[c]))),
            ('no meets kept', S.forall([IntSort()], lambda t: Implies(And(within(t, S.k), d[K[t]], K[t] != L.ones(m)), IRR(d, K[t], m)), lambda t: K[t]))]


def reduce_inner(S):
    K, m = S.outer_head(0).keys, T(S).m
    R0 = red(S.outer_head(0))
    R, cur, rest = red(S), S.current, S.rest
    i = S.i
    x = K[i]
    D0 = L.diff(K.set, R0)
    return [('codes found', Or(R == R0, R == L.add(R0, x))), ('not negative', cur >= 0), ('above', SI(B(x), B(cur))), ('within', SI(B(cur), B(L.ones(m)))),
            ('separated', S.forall([IntSort()], lambda c: Implies(And(within(c, m), Not(B(cur)[c])), SEP(L.remove(D0, x), x, c)), lambda c: B(cur)[c])),
            ('found', Implies(R[x], S.forall([IntSort()], lambda c: Implies(And(within(c, m), Not(B(x)[c])), SEP(L.remove(D0, x), x, c)), lambda c: B(x)[c]))),
            ('below the others', Implies(Not(R[x]), And(Or(cur != x, x == L.ones(m)), S.forall([IntSort()], lambda s: Implies(And(within(s, S.k), D0[rest[s]], SI(B(x), B(rest[s]))), SI(B(cur), B(rest[s]))), lambda s: rest[s]))))]


def other_code(S):
    K = S.keys
    x, j = K[S.i], S.rest[S.k]
    D0 = L.diff(K.set, red(S.outer_head(0)))
    return [('another code', And(j != x, K.set[j], x >= 0, j >= 0, SI(B(x), B(L.ones(T(S).m))))), ('kept or not', L.remove(D0, x)[j] == Not(red(S)[j])), ('kept or not', D0[j] == Not(red(S)[j]))]


def inner_end(S):
    K, m = S.keys, T(S).m
    x, j = K[S.i], S.rest[S.k]
    D0 = L.diff(K.set, red(S.outer_head(0)))
    old, cur, R = S.head.current, S.current, red(S)
    both = lambda b: S.forall([IntSort()], lambda c: Implies(And(within(c, m), Not(B(b)[c])), Or(Not(B(old)[c]), Not(B(j)[c]))), lambda c: B(b)[c])
    sep = lambda b: S.forall([IntSort()], lambda c: Implies(And(within(c, m), Not(B(b)[c])), SEP(L.remove(D0, x), x, c)), lambda c: B(b)[c])
    part = Or(cur != old, And(R[x], Not(red(S.head)[x])))
    return [('a kept code above', Implies(part, And(SI(B(x), B(j)), L.remove(D0, x)[j]))), ('missing places', Implies(cur != old, both(cur))), ('missing places of a meet', Implies(And(R[x], Not(red(S.head)[x])), both(x))),
            ('separated', sep(cur)), ('separated by others', Implies(R[x], sep(x)))]


def outer_end(S):
    K, m = S.keys, T(S).m
    x = K[S.k]
    D0, D1 = L.diff(K.set, red(S.head)), D(S)
    E = L.remove(D0, x)
    pl = Function('subw_Int', IS, IS, IntSort())(B(S.current), B(x))
    return [('codes kept', Or(And(D1 == D0, Not(red(S)[x])), And(D1 == E, red(S)[x]))),
            ('separated by others', Implies(red(S)[x], S.forall([IntSort()] * 2, lambda z, c: Implies(SEP(D0, z, c), Or(Not(within(c, m)), SEP(E, z, c))), lambda z, c: SEP(D0, z, c)))),
            ('still no meets', And(MONO(D0, D1))),
            ('another', Implies(And(D1[x], x != L.ones(m)), And(x >= 0, S.current >= 0, SI(B(x), B(S.current)), S.current != x, SI(B(S.current), B(L.ones(m)))))),
            ('more than this', Implies(And(D1[x], x != L.ones(m)), Not(SI(B(S.current), B(x))))),
            ('a place missing', Implies(And(D1[x], x != L.ones(m)), And(within(pl, m), B(S.current)[pl], Not(B(x)[pl])))),
            ('in all codes above', Implies(D1[x], ABOVE(D0, x, S.current))),
            ('new one', Implies(And(D1[x], x != L.ones(m)), IRR(D0, x, m)))]


def reduce_removal(S):
    d, e = S.dict_cxt, S.entry.dict_cxt
    return [('kept so far', S.forall([IntSort()], lambda x: d.dom[x] == And(e.dom[x], Not(S.done[x])), lambda x: [d.dom[x], e.dom[x]])), ('positions', S.forall([IntSort()], lambda x: d[x] == e[x], lambda x: [d[x]]))]


def reduce_done(S):
    r, s = S.result, S.self
    m, n = T(S).m, T(S).n
    d, o, K, R = S.local('dict_cxt'), S.local('order'), S.local('keys'), S.local('reducible')
    DK = L.diff(K.set, R)
    RS = rows(r)
    each = lambda t, *ls: S.forall([IntSort()], lambda x: Implies(DK[x], t(x)), lambda x: list(ls[0](x)) if ls else DK[x])
    return [('codes left', S.forall([IntSort()], lambda x: d.dom[x] == DK[x], lambda x: [d.dom[x]])),
            ('codes of rows', S.forall([IntSort()], lambda x: Implies(K.set[x], And(within(d[x], n), B(x) == rp(s, d[x]))), lambda x: K.set[x])),
            ('positions kept', S.forall([IntSort()], lambda x: Implies(DK[x], o.set[d[x]]), lambda x: [K.set[x]])),
            ('rows of positions', S.forall([IntSort()], lambda k: Implies(within(k, o.n), And(within(o[k], n), rp(r, k) == rp(s, o[k]), DK[code_of(s, o[k])], B(code_of(s, o[k])) == rp(s, o[k]))), lambda k: [o[k], rp(r, k)])),
            ('rows kept', S.forall([IntSort()], lambda x: Implies(DK[x], RS[B(x)]), lambda x: [K.set[x]])),
            ('no meets among the codes', each(lambda x: Or(x == L.ones(m), IRR(DK, x, m)), lambda x: [K.set[x]])),
            ('codes of kept rows', RCODES(RS, DK)),
            ('no kept row is a meet', S.forall([IS], lambda w: Implies(And(RS[w], w != B(L.ones(m))), IRRR(RS, w, m)), lambda w: RS[w])),
            ('each row has a code', S.forall([IntSort()], lambda i: Implies(within(i, n), And(K.set[code_of(s, i)], B(code_of(s, i)) == rp(s, i))), lambda i: [s._objects[i], rp(s, i)])),
            ('separated by a code', S.forall([IntSort()] * 2, lambda i, c: Implies(And(within(i, n), within(c, m), Not(T(S)[i, c])), SEP(DK, code_of(s, i), c)), lambda i, c: MultiPattern(rp(s, i), T(S)[i, c]))),
            ('separated by a row', S.forall([IntSort()] * 2, lambda x, c: Implies(SEP(DK, x, c), SEPR(RS, B(x), c)), lambda x, c: SEP(DK, x, c)))]


def reduced(S):
    r, s = S.result, S.self
    m = T(S).m
    a = r._objects
    RS = rows(r)
    return kept(S) + [rows_kept(S), different_rows(S),
                      ('meets of kept rows', S.forall([IntSort()] * 2, lambda i, c: Implies(And(within(i, T(S).n), within(c, m), Not(T(S)[i, c])), SEPR(RS, rp(s, i), c)), lambda i, c: T(S)[i, c])),
                      ('no meets kept', S.forall([IntSort()], lambda i: Implies(And(within(i, a.n), rp(r, i) != L.bits(L.ones(m))), IRRR(RS, rp(r, i), m)), lambda i: a[i]))]


contracts += [
    Contract(X + 'Context.reduce_objects', {'self': C}, returns=CE, props=P10, ensures=reduced, exit_lemmas=reduce_done, linked=True,
             loops={0: LoopC(reduce_outer, at_end=outer_end, types={'reducible': ('set', 'int')}), 1: LoopC(reduce_inner, at_body=other_code, at_end=inner_end), 2: LoopC(reduce_removal)}),
]

contracts += lemmas

# ---- the dual: columns as sets of row positions
CC = Function('ColumnPositions', TT, IntSort(), IntSort(), IS)
CPS = Function('ColumnsByPosition', TT, IntSort(), IntSort(), RSET)


def _axioms():
    t, n, m, i, j, r = Const('t', TT), *Ints('n m i j'), Const('r', IS)
    x = CC(t, j, n)
    L.axiom('ColumnPositions', 'rows with a cross', ForAll([t, j, n, i], x[i] == And(0 <= i, i < n, t[i][j]), patterns=[x[i], MultiPattern(x, t[i])]))
    L.axiom('ColumnsByPosition', 'columns: in', ForAll([t, n, m, j], Implies(And(0 <= j, j < m), CPS(t, n, m)[x]), patterns=[MultiPattern(CPS(t, n, m), x)]))
    w = Function('colw', TT, IntSort(), IntSort(), IS, IntSort())(t, n, m, r)
    L.axiom('ColumnsByPosition', 'columns: witness', ForAll([t, n, m, r], Implies(CPS(t, n, m)[r], And(0 <= w, w < m, CC(t, w, n) == r)), patterns=[CPS(t, n, m)[r]]))


_axioms()


def cp(x, j):
    t = x.np_table
    return CC(t.arr, j, t.n)


def columns(x):
    t = x.np_table
    return CPS(t.arr, t.n, t.m)


def turned(S):
    c = S.call(X + 'Context.reduce_objects')
    r, s = S.result, S.self
    a = r._attributes
    return [('as many columns', And(c.self.np_table.n == T(S).m, c.self.np_table.m == T(S).n, c.result.np_table.n == r.np_table.m, c.result.np_table.m == T(S).n, r.np_table.n == T(S).n)),
            ('rows of the dual', S.forall([IntSort()], lambda j: Implies(within(j, T(S).m), RP(c.self.np_table.arr, j, T(S).n) == cp(s, j)), lambda j: [RP(c.self.np_table.arr, j, T(S).n), s._attributes[j]])),
            ('rows kept in the dual', S.forall([IntSort()], lambda j: Implies(within(j, a.n), RP(c.result.np_table.arr, j, T(S).n) == cp(r, j)), lambda j: [RP(c.result.np_table.arr, j, T(S).n), a[j], cp(r, j)])),
            ('the same columns', S.forall([IS], lambda w: Implies(columns(r)[w], rows(c.result)[w]), lambda w: columns(r)[w])),
            ('the same columns', S.forall([IS], lambda w: Implies(rows(c.result)[w], columns(r)[w]), lambda w: rows(c.result)[w])),
            ('the columns', columns(r) == rows(c.result)),
            ('cells of the dual', S.forall([IntSort()] * 2, lambda i, j: Implies(And(within(i, T(S).n), within(j, T(S).m)), c.self.np_table[j, i] == T(S)[i, j]), lambda i, j: T(S)[i, j])),
            ('separated in the dual', S.forall([IntSort()] * 2, lambda i, j: Implies(And(within(i, T(S).n), within(j, T(S).m), Not(c.self.np_table[j, i])), SEPR(rows(c.result), RP(c.self.np_table.arr, j, T(S).n), i)), lambda i, j: c.self.np_table[j, i])),
            ('separated', S.forall([IntSort()] * 2, lambda i, j: Implies(And(within(i, T(S).n), within(j, T(S).m), Not(T(S)[i, j])), SEPR(rows(c.result), cp(s, j), i)), lambda i, j: T(S)[i, j]))]


def reduced_attributes(S):
    r, s = S.result, S.self
    n = T(S).n
    a, p = r._attributes, s.attribute_indices
    RS = columns(r)
    return [same_list(S, r._objects, s._objects, 'objects'), ('attributes of the context', all_i(S, a.n, lambda i: s._attributes.set[a[i]], a)),
            table_is(S, r.np_table, n, a.n, lambda i, j: T(S)[i, p[a[j]]]),
            ('columns', S.forall([IntSort()], lambda j: Implies(within(j, a.n), cp(r, j) == cp(s, p[a[j]])), lambda j: a[j])),
            ('columns differ', S.forall([IntSort(), IntSort()], lambda i, j: Implies(And(0 <= i, i < j, j < a.n), cp(r, i) != cp(r, j)), lambda i, j: MultiPattern(a[i], a[j]))),
            ('meets of kept columns', S.forall([IntSort()] * 2, lambda i, j: Implies(And(within(i, n), within(j, T(S).m), Not(T(S)[i, j])), SEPR(RS, cp(s, j), i)), lambda i, j: T(S)[i, j])),
            ('no meets kept', S.forall([IntSort()], lambda j: Implies(And(within(j, a.n), cp(r, j) != L.bits(L.ones(n))), IRRR(RS, cp(r, j), n)), lambda j: a[j]))]


contracts += [Contract(X + 'Context.reduce_attributes', {'self': C}, returns=CE, props=P10, ensures=reduced_attributes, exit_lemmas=turned)]


# ---- clarification of the attributes: of the transposed context
def turned_clarified(S):
    c = S.call(X + 'Context.clarify_objects')
    r, s = S.result, S.self
    a = r._attributes
    return [('as many columns', And(c.self.np_table.n == T(S).m, c.self.np_table.m == T(S).n, c.result.np_table.n == r.np_table.m, c.result.np_table.m == T(S).n, r.np_table.n == T(S).n)),
            ('rows of the dual', S.forall([IntSort()], lambda j: Implies(within(j, T(S).m), RP(c.self.np_table.arr, j, T(S).n) == cp(s, j)), lambda j: [RP(c.self.np_table.arr, j, T(S).n), s._attributes[j]])),
            ('rows kept in the dual', S.forall([IntSort()], lambda j: Implies(within(j, a.n), RP(c.result.np_table.arr, j, T(S).n) == cp(r, j)), lambda j: [RP(c.result.np_table.arr, j, T(S).n), a[j], cp(r, j)])),
            ('the same columns', S.forall([IS], lambda w: Implies(columns(r)[w], rows(c.result)[w]), lambda w: columns(r)[w])),
            ('the same columns', S.forall([IS], lambda w: Implies(rows(c.result)[w], columns(r)[w]), lambda w: rows(c.result)[w])),
            ('the columns', columns(r) == rows(c.result))]


def clarified_attributes(S):
    r, s = S.result, S.self
    a, p = r._attributes, s.attribute_indices
    return [same_list(S, r._objects, s._objects, 'objects'), ('attributes of the context', all_i(S, a.n, lambda i: s._attributes.set[a[i]], a)),
            table_is(S, r.np_table, T(S).n, a.n, lambda i, j: T(S)[i, p[a[j]]]),
            ('columns differ', S.forall([IntSort(), IntSort()], lambda i, j: Implies(And(0 <= i, i < j, j < a.n), cp(r, i) != cp(r, j)), lambda i, j: MultiPattern(a[i], a[j]))),
            ('every column', S.forall([IntSort()], lambda j: Implies(within(j, T(S).m), columns(r)[cp(s, j)]), lambda j: s._attributes[j]))]


contracts += [Contract(X + 'Context.lemma_clarify_attributes', {'self': C}, source='def lemma(self):\n    return self.transpose().clarify_objects().transpose()\n', returns=CE, props=P10, ensures=clarified_attributes, exit_lemmas=turned_clarified)]
