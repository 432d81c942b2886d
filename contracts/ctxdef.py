"""The formal context as a mathematical object: definitions used by the contracts."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem, card
from engine.views import SHAPES
from engine.core import *

SV = ArraySort(V, BoolSort())
LV = ArraySort(IntSort(), V)
TT = ArraySort(IntSort(), ArraySort(IntSort(), BoolSort()))

_d = Datatype('Ctx')
_d.declare('mkCtx', ('cn', IntSort()), ('cm', IntSort()), ('co', LV), ('ca', LV), ('cT', TT))
Ctx = _d.create()
L._dt['Ctx'] = Ctx


def acc(i):
    return lambda c: L.proj(c, i)


cn, cm, co, ca, cT = [acc(i) for i in range(5)]


def ctx(w):
    """the context denoted by a Context object"""
    o, a, t = w._objects, w._attributes, w.np_table
    for x in (o, a):
        assert is_int_value(x.off) and x.off.as_long() == 0, 'offset'
    return Ctx.mkCtx(t.n, t.m, o.arr, a.arr, t.arr)


def objs(c):
    return L.rng(co(c), I(0), cn(c))


def atts(c):
    return L.rng(ca(c), I(0), cm(c))


def rngw(arr, n, x):
    L.rng(arr, I(0), n)
    s = arr.sort().range()
    return Function('rngw_' + L.sname(s), arr.sort(), IntSort(), IntSort(), s, IntSort())(arr, I(0), n, x)


def oi(c, g):
    """position of object g"""
    return rngw(co(c), cn(c), g)


def ai(c, m):
    return rngw(ca(c), cm(c), m)


def inc(c, g, m):
    """object g has attribute m"""
    return cT(c)[oi(c, g)][ai(c, m)]


INTENT = Function('IntentOf', Ctx, V, SV)        # attributes of an object
EXTENT = Function('ExtentOf', Ctx, V, SV)
ROW = Function('RowOf', Ctx, IntSort(), SV)      # attributes of the object at a position
COL = Function('ColOf', Ctx, IntSort(), SV)
APRIME = Function('APrime', Ctx, SV, SV)         # objects having all attributes of the set
OPRIME = Function('OPrime', Ctx, SV, SV)
ACL = Function('ACl', Ctx, SV, SV)               # closure of an attribute set
OCL = Function('OCl', Ctx, SV, SV)


IS = ArraySort(IntSort(), BoolSort())
NM = Function('NamesAt', LV, IS, SV)             # names at a set of positions


def _axioms():
    a, R, v = Const('a', LV), Const('R', IS), Const('v', V)
    i = Int('i')
    w = Function('nmw', LV, IS, V, IntSort())
    L.axiom('NamesAt', 'names at positions: in', ForAll([a, R, i], Implies(R[i], NM(a, R)[a[i]]), patterns=[MultiPattern(NM(a, R), R[i]), MultiPattern(NM(a, R), a[i])]))
    L.axiom('NamesAt', 'names at positions: witness', ForAll([a, R, v], Implies(NM(a, R)[v], And(R[w(a, R, v)], a[w(a, R, v)] == v)), patterns=[NM(a, R)[v]]))

    c = Const('c', Ctx)
    g, m = Consts('g m', V)
    A, B = Consts('A B', SV)
    i, j = Ints('i j')
    for f, els, r, lab in ((INTENT, atts, lambda x, y: inc(c, x, y), 'intent of an object'), (EXTENT, objs, lambda x, y: inc(c, y, x), 'extent of an attribute')):
        L.axiom(f.name(), lab, ForAll([c, g, m], f(c, g)[m] == And(els(c)[m], r(g, m)), patterns=[f(c, g)[m]]))
        L.axiom(f.name(), lab + ' (2)', ForAll([c, g, m], Implies(And(els(c)[m], r(g, m)), f(c, g)[m]), patterns=[MultiPattern(f(c, g), els(c)[m])]))
    L.axiom('RowOf', 'attributes at a position', ForAll([c, i, m], ROW(c, i)[m] == And(atts(c)[m], cT(c)[i][ai(c, m)]), patterns=[ROW(c, i)[m]]))
    L.axiom('ColOf', 'objects at a position', ForAll([c, j, g], COL(c, j)[g] == And(objs(c)[g], cT(c)[oi(c, g)][j]), patterns=[COL(c, j)[g]]))
    for f, dom, row, lab in ((APRIME, objs, INTENT, 'derivation of attributes'), (OPRIME, atts, EXTENT, 'derivation of objects')):
        L.axiom(f.name(), lab, ForAll([c, B, g], f(c, B)[g] == And(dom(c)[g], L.sub_f(V)(B, row(c, g))), patterns=[f(c, B)[g]]))
        L.axiom(f.name(), lab + ' (2)', ForAll([c, B, g], Implies(And(dom(c)[g], L.sub_f(V)(B, row(c, g))), f(c, B)[g]), patterns=[MultiPattern(f(c, B), L.sub_f(V)(B, row(c, g)))]))
        L.axiom(f.name(), lab + ' (3)', ForAll([c, B], L.sub_f(V)(f(c, B), dom(c)), patterns=[f(c, B)]))
    L.axiom('ACl', 'closure of attributes', ForAll([c, B], ACL(c, B) == OPRIME(c, APRIME(c, B)), patterns=[ACL(c, B)]))
    L.axiom('OCl', 'closure of objects', ForAll([c, A], OCL(c, A) == APRIME(c, OPRIME(c, A)), patterns=[OCL(c, A)]))


_axioms()


def index_ok(d, lst):
    """d maps the elements of the list to their positions (so they are distinct)"""
    return lambda it: [('indices: names', d.dom == lst.set),
                       ('indices: positions', it.forall([IntSort()], lambda i: Implies(And(0 <= i, i < lst.n), d[lst[i]] == i), lambda i: lst[i]))]


def wf(w):
    it = w._it
    o, a, t = w._objects, w._attributes, w.np_table
    return [('one row per object', t.n == o.n), ('one column per attribute', t.m == a.n)] + \
        [('object ' + l, f) for l, f in index_ok(w.object_indices, o)(it)] + [('attribute ' + l, f) for l, f in index_ok(w.attribute_indices, a)(it)] + \
        [('row lists: rows', w.cross_table.n == o.n),
         ('row lists: columns', it.forall([IntSort()], lambda i: Implies(And(0 <= i, i < o.n), L.list_n(w.cross_table[i]) == a.n), lambda i: w.cross_table[i])),
         ('row lists: cells', it.forall([IntSort(), IntSort()], lambda i, j: Implies(And(0 <= i, i < o.n, 0 <= j, j < a.n), L.list_a(w.cross_table[i])[j] == t[i, j]),
                                        lambda i, j: [L.list_a(w.cross_table[i])[j], t[i, j]]))]


SHAPES['Context'] = {'fields': {'_objects': ('list', 'V'), '_attributes': ('list', 'V'), 'np_table': ('nd2', 'bool'), 'cross_table': ('list', ('list', 'bool')),
                                'object_indices': ('dict', 'V', 'int'), 'attribute_indices': ('dict', 'V', 'int')}, 'inv': wf}
