"""Sorts, set theory and background axioms used by the verification conditions.

Everything here is *definitional* (a symbol together with its defining axiom) or an
elementary fact about finite sets and lists; the registry below names each of them so
that the evidence can list which of them an obligation used."""
import sys
from z3 import *

V = DeclareSort('V')                       # opaque Python values (names)
_dt = {}
_axioms = {}                               # symbol name -> [(label, formula)]
_deps = {}                                 # symbol name -> names of symbols in its axioms
I = IntVal


def sname(s):
    if s.kind() == Z3_ARRAY_SORT:
        return 'A_%s_%s_' % (sname(s.domain()), sname(s.range()))
    return s.name()


_spec = set()


_order = {}          # lemmas: proved from the axioms and the lemmas before them


def lemma(symbols, label, f):
    """a consequence of the axioms: used like an axiom, proved by engine.contract.Lemma"""
    assert f.get_id() not in _order
    _order[f.get_id()] = len(_order)
    _lemma_formulas.append(f)
    axiom(symbols, label, f)
    _spec.add(f.get_id())
    return _order[f.get_id()]


_lemma_formulas = []


def axiom(symbols, label, f):
    if sys._getframe(1).f_globals.get('__name__', '').startswith('contracts'):
        _spec.add(f.get_id())
    for s in ([symbols] if isinstance(symbols, str) else symbols):
        _axioms.setdefault(s, []).append((label, f))


# ------------------------------------------------------------------ sorts of Python types
def sort_of(ty):
    if ty == 'int' or (isinstance(ty, tuple) and ty[0] == 'ref'):
        return IntSort()
    if ty == 'bool':
        return BoolSort()
    if ty == 'real':
        return RealSort()
    if ty in ('V', 'str'):
        return V
    if isinstance(ty, tuple):
        if ty[0] == 'set':
            return ArraySort(key_sort(ty[1]), BoolSort())
        if ty[0] == 'tuple':
            return tuple_dt(tuple(sort_of(t) for t in ty[1:]))
        if ty[0] in ('list', 'nd1'):
            return list_dt(sort_of(ty[1]))
    raise TypeError('no sort for %r' % (ty,))


def tuple_dt(sorts):
    n = 'T_' + '_'.join(map(sname, sorts))
    if n not in _dt:
        d = Datatype(n)
        d.declare('mk_' + n, *[('p%d_%s' % (i, n), s) for i, s in enumerate(sorts)])
        _dt[n] = d.create()
    return _dt[n]


def mk_tuple(terms):
    d = tuple_dt(tuple(t.sort() for t in terms))
    return d.constructor(0)(*terms)


def proj(term, i):
    d = _dt[term.sort().name()]
    if is_app(term) and term.decl().eq(d.constructor(0)):
        return term.arg(i)
    return d.accessor(0, i)(term)


def list_dt(s):
    n = 'L_' + sname(s)
    if n not in _dt:
        d = Datatype(n)
        d.declare('mk_' + n, ('n_' + n, IntSort()), ('a_' + n, ArraySort(IntSort(), s)))
        _dt[n] = d.create()
    return _dt[n]


def list_n(t):
    return proj(t, 0)


def list_a(t):
    return proj(t, 1)


_tup = {}


def tup(t):
    """the tuple with the elements of a list term (equal for equal elements)"""
    s = t.sort()
    if s.name() not in _tup:
        f = _tup[s.name()] = Function('Tup_' + s.name(), s, s)
        a, b = Consts('ta tb', s)
        j = Int('tj')
        n = f.name()
        axiom(n, 'tuple: length', ForAll([a], list_n(f(a)) == list_n(a), patterns=[f(a)]))
        axiom(n, 'tuple: elements', ForAll([a, j], Implies(And(0 <= j, j < list_n(a)), list_a(f(a))[j] == list_a(a)[j]), patterns=[MultiPattern(f(a), list_a(a)[j]), list_a(f(a))[j]]))
        w = Function('tupdiff_' + s.name(), s, s, IntSort())(a, b)
        axiom(n, 'tuple: equality', ForAll([a, b], Or(f(a) == f(b), list_n(a) != list_n(b), And(0 <= w, w < list_n(a), list_a(a)[w] != list_a(b)[w])), patterns=[MultiPattern(f(a), f(b))]))
    f = _tup[s.name()]
    return t if is_app(t) and t.decl().eq(f) else f(t)


# objects with value equality are keyed by their fields
KEYS = {'Implication': (('_premise', ('set', 'V')), ('=conclusion', ('set', 'V'))),
        'Concept': (('extent', ('set', 'V')), ('intent', ('set', 'V')))}


def key_sort(ty):
    if isinstance(ty, tuple) and ty[0] == 'ref':
        return tuple_dt(tuple(sort_of(t) for _, t in KEYS[ty[1]]))
    return sort_of(ty)


# ------------------------------------------------------------------ sets
def empty(s):
    return K(s, BoolVal(False))


def is_empty_term(a):
    return is_K(a) and is_false(a.arg(0))


def union(a, b):
    if is_empty_term(a):
        return b
    if is_empty_term(b) or a.eq(b):
        return a
    return SetUnion(a, b)


def inter(a, b):
    if is_empty_term(a) or is_empty_term(b):
        return empty(a.sort().domain())
    if a.eq(b):
        return a
    return SetIntersect(a, b)


def diff(a, b):
    if is_empty_term(b) or is_empty_term(a):
        return a
    return SetDifference(a, b)


def add(a, x):
    return Store(a, x, BoolVal(True))


def remove(a, x):
    return Store(a, x, BoolVal(False))


def mem(x, a):
    k = a.decl().kind() if is_app(a) else None
    if k == Z3_OP_SET_UNION:
        return Or(*[mem(x, c) for c in a.children()])
    if k == Z3_OP_SET_INTERSECT:
        return And(*[mem(x, c) for c in a.children()])
    if k == Z3_OP_SET_DIFFERENCE:
        return And(mem(x, a.arg(0)), Not(mem(x, a.arg(1))))
    if k == Z3_OP_STORE:
        if x.eq(a.arg(1)):
            return a.arg(2)
        if is_true(a.arg(2)):
            return Or(x == a.arg(1), mem(x, a.arg(0)))
        if is_false(a.arg(2)):
            return And(x != a.arg(1), mem(x, a.arg(0)))
        return If(x == a.arg(1), a.arg(2), mem(x, a.arg(0)))
    if k == Z3_OP_CONST_ARRAY:
        return a.arg(0)
    if k == Z3_OP_ITE:
        return If(a.arg(0), mem(x, a.arg(1)), mem(x, a.arg(2)))
    return Select(a, x)


_sub = {}


def sub_f(s):
    n = 'Sub_' + sname(s)
    if n not in _sub:
        A = ArraySort(s, BoolSort())
        f = Function(n, A, A, BoolSort())
        w = Function('subw_' + sname(s), A, A, s)
        a, b = Consts('a b', A)
        c = Const('c', A)
        x = Const('x', s)
        axiom(n, 'subset: elements', ForAll([a, b, x], Implies(And(f(a, b), a[x]), b[x]),
                                            patterns=[MultiPattern(f(a, b), a[x]), MultiPattern(f(a, b), b[x])]))
        axiom(n, 'subset: witness', ForAll([a, b], Or(f(a, b), And(a[w(a, b)], Not(b[w(a, b)]))),
                                           patterns=[f(a, b)]))
        _sub[n] = f
    return _sub[n]


def sub(a, b):
    """a is a subset of b"""
    if a.eq(b) or is_empty_term(a):
        return BoolVal(True)
    k = a.decl().kind()
    if k == Z3_OP_SET_UNION:
        return And(*[sub(c, b) for c in a.children()])
    if k == Z3_OP_STORE and is_true(a.arg(2)):
        return And(mem(a.arg(1), b), sub(a.arg(0), b))
    if b.decl().kind() == Z3_OP_SET_INTERSECT:
        return And(*[sub(a, c) for c in b.children()])
    return sub_f(a.sort().domain())(a, b)


_card = {}


def card(a):
    s = a.sort().domain()
    n = 'Card_' + sname(s)
    if n not in _card:
        A = a.sort()
        f = Function(n, A, IntSort())
        _card[n] = f
        S = sub_f(s)
        x = Const('x', s)
        p, q = Consts('p q', A)
        e = empty(s)
        w = Function('cardw_' + sname(s), A, s)
        axiom(n, 'card: non-negative', ForAll([p], f(p) >= 0, patterns=[f(p)]))
        axiom(n, 'card: zero iff empty', ForAll([p], Or(And(f(p) > 0, p[w(p)]), And(f(p) == 0, p == e)), patterns=[f(p)]))
        axiom(n, 'card: empty', f(e) == 0)
        axiom(n, 'card: member positive', ForAll([p, x], Implies(p[x], f(p) >= 1), patterns=[MultiPattern(f(p), p[x])]))
        axiom(n, 'card: monotone', ForAll([p, q], Implies(S(p, q), And(f(p) <= f(q), Implies(f(p) == f(q), p == q))),
                                          patterns=[MultiPattern(f(p), f(q), S(p, q))]))
        axiom(n, 'card: insert', ForAll([p, x], f(Store(p, x, True)) == If(p[x], f(p), f(p) + 1),
                                        patterns=[f(Store(p, x, True))]))
        axiom(n, 'card: delete', ForAll([p, x], f(Store(p, x, False)) == If(p[x], f(p) - 1, f(p)),
                                        patterns=[f(Store(p, x, False))]))
    return _card[n](a)


_rng = {}


def rng(arr, lo, hi):
    """the set { arr[k] : lo <= k < hi }"""
    s = arr.sort().range()
    n = 'Rng_' + sname(s)
    if n not in _rng:
        AS = arr.sort()
        SS = ArraySort(s, BoolSort())
        f = Function(n, AS, IntSort(), IntSort(), SS)
        w = Function('rngw_' + sname(s), AS, IntSort(), IntSort(), s, IntSort())
        a = Const('a', AS)
        l, h, k = Ints('l h k')
        v = Const('v', s)
        axiom(n, 'range: in', ForAll([a, l, h, k], Implies(And(l <= k, k < h), f(a, l, h)[a[k]]),
                                     patterns=[MultiPattern(f(a, l, h), a[k])]))
        axiom(n, 'range: witness', ForAll([a, l, h, v], Implies(f(a, l, h)[v], And(l <= w(a, l, h, v), w(a, l, h, v) < h, a[w(a, l, h, v)] == v)),
                                          patterns=[f(a, l, h)[v]]))
        x = Const('x', s)
        st = Store(a, h, x)
        h2 = Int('h2')
        axiom(n, 'range: append', ForAll([a, l, h, h2, x], Implies(And(h2 == h + 1, l <= h), f(st, l, h2) == Store(f(a, l, h), x, True)),
                                         patterns=[f(st, l, h2)]))
        _rng[n] = f
    return _rng[n](arr, lo, hi)


def dist(arr, lo, hi):
    """the values arr[lo..hi) are pairwise different"""
    s = arr.sort().range()
    n = 'Dist_' + sname(s)
    f = Function(n, arr.sort(), IntSort(), IntSort(), BoolSort())
    if n not in _axioms:
        a = Const('a', arr.sort())
        l, h, i, j = Ints('l h i j')
        u, w = [Function(x + '_' + sname(s), arr.sort(), IntSort(), IntSort(), IntSort()) for x in ('distu', 'distw')]
        r = rng(a, l, h)
        axiom(n, 'distinct: elements', ForAll([a, l, h, i, j], Implies(And(f(a, l, h), l <= i, i < j, j < h), a[i] != a[j]), patterns=[MultiPattern(f(a, l, h), a[i], a[j])]))
        axiom(n, 'distinct: witness', ForAll([a, l, h], Or(f(a, l, h), And(l <= u(a, l, h), u(a, l, h) < w(a, l, h), w(a, l, h) < h, a[u(a, l, h)] == a[w(a, l, h)])), patterns=[f(a, l, h)]))
        axiom(n, 'distinct: number of elements (pigeonhole)', ForAll([a, l, h], Implies(l <= h, And(card(r) <= h - l, f(a, l, h) == (card(r) == h - l))), patterns=[f(a, l, h)]))
    return f(arr, lo, hi)


def occ(arr, lo, hi, v):
    """number of positions in lo..hi where the value occurs"""
    s = arr.sort().range()
    n = 'Occ_' + sname(s)
    f = Function(n, arr.sort(), IntSort(), IntSort(), s, IntSort())
    if n not in _axioms:
        a = Const('a', arr.sort())
        l, h = Ints('l h')
        x = Const('x', s)
        o, r = f(a, l, h, x), rng(a, l, h)
        axiom(n, 'occurrences: none', ForAll([a, l, h, x], And(o >= 0, (o == 0) == Not(r[x])), patterns=[o]))
        axiom(n, 'occurrences: distinct values', ForAll([a, l, h, x], Implies(dist(a, l, h), o <= 1), patterns=[o]))
    return f(arr, lo, hi, v)



def pow2(n):
    """2 ** n"""
    f = Function('Pow2', IntSort(), IntSort())
    if 'Pow2' not in _axioms:
        k = Int('k')
        axiom('Pow2', 'powers of two: positive', ForAll([k], Implies(k >= 0, f(k) >= 1), patterns=[f(k)]))
        axiom('Pow2', 'powers of two: none', f(IntVal(0)) == 1)
    return f(n)


def kept(S, i):
    """how many of the positions 0..i-1 are not in S"""
    n = 'Kept'
    IS = ArraySort(IntSort(), BoolSort())
    f = Function(n, IS, IntSort(), IntSort())
    if n not in _axioms:
        pk = pick_f()
        s = Const('s', IS)
        i, j, d = Ints('i j d')
        lo = Function('keptlo', IS, IntSort(), IntSort())
        axiom(n, 'kept: bounds', ForAll([s, i], Implies(i >= 0, And(0 <= f(s, i), f(s, i) <= i, Or(f(s, i) == i, And(0 <= lo(s, i), lo(s, i) < i, s[lo(s, i)])))), patterns=[f(s, i)]))
        axiom(n, 'kept: monotone', ForAll([s, i, j], Implies(And(0 <= i, i <= j), And(f(s, i) <= f(s, j), f(s, j) - f(s, i) <= j - i, Implies(And(i < j, Not(s[i])), f(s, i) < f(s, j)))), patterns=[MultiPattern(f(s, i), f(s, j))]))
        axiom(n, 'kept: one more left out', ForAll([s, i, d], Implies(i >= 0, f(Store(s, d, True), i) == f(s, i) - If(And(0 <= d, d < i, Not(s[d])), 1, 0)), patterns=[f(Store(s, d, True), i)]))
        axiom(n, 'kept: none left out', ForAll([i], Implies(i >= 0, f(empty(IntSort()), i) == i), patterns=[f(empty(IntSort()), i)]))
        axiom(n, 'kept: positions', ForAll([s, i, j], Implies(And(0 <= j, j < f(s, i), i >= 0), And(0 <= pk(s, j), pk(s, j) < i, Not(s[pk(s, j)]), f(s, pk(s, j)) == j)), patterns=[MultiPattern(f(s, i), pk(s, j))]))
        axiom(n, 'kept: positions (2)', ForAll([s, i], Implies(And(0 <= i, Not(s[i])), pk(s, f(s, i)) == i), patterns=[f(s, i)]))
    return f(S, i)


def pick_f():
    return Function('Pick', ArraySort(IntSort(), BoolSort()), IntSort(), IntSort())


def first(arr, lo, v):
    """first position >= lo at which arr holds v (if there is one)"""
    s = arr.sort().range()
    n = 'First_' + sname(s)
    f = Function(n, arr.sort(), IntSort(), s, IntSort())
    if n not in _axioms:
        a = Const('a', arr.sort())
        x = Const('x', s)
        l, k = Ints('l k')
        axiom(n, 'first: is first', ForAll([a, l, x, k], Implies(And(l <= k, a[k] == x), And(l <= f(a, l, x), f(a, l, x) <= k, a[f(a, l, x)] == x)),
                                           patterns=[MultiPattern(f(a, l, x), a[k])]))
    return f(arr, lo, v)


def total(arr, lo, hi):
    n = 'Total_int'
    f = Function(n, arr.sort(), IntSort(), IntSort(), IntSort())
    return f(arr, lo, hi)


_symcache = {}


def symbols(e, acc):
    """names of uninterpreted symbols occurring in e"""
    stack = [e]
    seen = set()
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if is_quantifier(t):
            stack.append(t.body())
            for j in range(t.num_patterns()):
                stack.append(t.pattern(j))
        elif is_app(t):
            if t.decl().kind() == Z3_OP_UNINTERPRETED:
                acc.add(t.decl().name())
            stack.extend(t.children())
    return acc


_symsof = {}


def symbols_of(f):
    c = _symsof.get(f.get_id())
    if c is None or not c[0].eq(f):
        c = _symsof[f.get_id()] = (f, frozenset(symbols(f, set())))
    return c[1]


def background(formulas, opaque=False, upto=None, lean=False):
    """axioms needed for the given formulas (closed under symbols in axioms); opaque: the functions defined in contracts stay undefined; lean: without axioms that only add triggers, labelled (2)"""
    syms = set()
    for f in formulas:
        syms |= symbols_of(f)
    out, done, todo = [], set(), list(syms)
    labels = []
    ids = set()
    while todo:
        s = todo.pop()
        if s in done:
            continue
        done.add(s)
        for label, ax in _axioms.get(s, []):
            if lean and label.endswith('(2)') or ax.get_id() in ids or opaque and ax.get_id() in _spec or upto is not None and _order.get(ax.get_id(), -1) >= upto:
                continue
            ids.add(ax.get_id())
            out.append(ax)
            labels.append(label)
            key = ax.get_id()
            if key not in _symcache:
                _symcache[key] = symbols(ax, set())
            todo.extend(_symcache[key])
    return out, labels


def conj(fs):
    fs = [f for f in fs if not (is_bool(f) and is_true(f))]
    if not fs:
        return BoolVal(True)
    return fs[0] if len(fs) == 1 else And(*fs)


# ------------------------------------------------------------------ products and quotients of unknown integers
mul = Function('imul', IntSort(), IntSort(), IntSort())
idiv = Function('idiv', IntSort(), IntSort(), IntSort())
imod = Function('imod', IntSort(), IntSort(), IntSort())


def _arith():
    x, y, k = Ints('x y k')
    axiom('imul', 'product: commutes', ForAll([x, y], mul(x, y) == mul(y, x), patterns=[mul(x, y)]))
    axiom('imul', 'product: sign', ForAll([x, y], Implies(And(x >= 0, y >= 0), And(mul(x, y) >= 0, (mul(x, y) == 0) == Or(x == 0, y == 0), Implies(And(x > 0, y > 0), And(mul(x, y) >= x, mul(x, y) >= y)))), patterns=[mul(x, y)]))
    axiom(('idiv', 'imod'), 'quotient: range', ForAll([x, y], Implies(And(x >= 0, y > 0), And(0 <= imod(x, y), imod(x, y) < y, 0 <= idiv(x, y), idiv(x, y) <= x)), patterns=[idiv(x, y)]))
    axiom(('idiv', 'imod'), 'quotient: remainder', ForAll([x, y], Implies(And(x >= 0, y > 0), And(0 <= imod(x, y), imod(x, y) < y, 0 <= idiv(x, y))), patterns=[imod(x, y)]))
    axiom(('idiv', 'imod'), 'quotient: of the next number', ForAll([x, k, y], Implies(And(x >= 0, y > 0, k == x + 1), If(imod(x, y) + 1 < y, And(idiv(k, y) == idiv(x, y), imod(k, y) == imod(x, y) + 1), And(idiv(k, y) == idiv(x, y) + 1, imod(k, y) == 0))), patterns=[MultiPattern(idiv(x, y), idiv(k, y))]))
    axiom(('idiv', 'imod'), 'quotient: of zero', ForAll([y], Implies(y > 0, And(idiv(0, y) == 0, imod(0, y) == 0)), patterns=[idiv(0, y)]))
    axiom(('idiv', 'imod'), 'quotient: of a product', ForAll([x, y], Implies(y > 0, And(idiv(mul(y, x), y) == x, imod(mul(y, x), y) == 0)), patterns=[idiv(mul(y, x), y)]))
    axiom(('idiv', 'imod'), 'quotient: below a product', ForAll([x, y, k], Implies(And(y > 0, 0 <= k, k < mul(y, x)), idiv(k, y) < x), patterns=[MultiPattern(idiv(k, y), mul(y, x))]))


_arith()


# ------------------------------------------------------------------ integers as sets of bits
bits = Function('bits', IntSort(), ArraySort(IntSort(), BoolSort()))         # positions of the ones of a number that is not negative
band = Function('bitand', IntSort(), IntSort(), IntSort())
ones = Function('ones', IntSort(), IntSort())                                # 2**n - 1
dbl = Function('doubled', IntSort(), BoolSort(), IntSort())                  # 2*x, and 1 if the second is true
popcount = Function('popcount', IntSort(), IntSort())


def _bits():
    x, y, j, n = Ints('x y j n')
    b = Bool('b')
    code = Function('code', ArraySort(IntSort(), BoolSort()), IntSort())
    axiom('bits', 'bits: determine the number', ForAll([x], Implies(x >= 0, code(bits(x)) == x), patterns=[bits(x)]))
    axiom('bits', 'bits: places', ForAll([x, j], Implies(And(x >= 0, bits(x)[j]), And(0 <= j, x > 0)), patterns=[bits(x)[j]]))
    S = sub_f(IntSort())(bits(x), bits(y))
    axiom('bits', 'bits: order', ForAll([x, y], Implies(And(x >= 0, y >= 0, S), x <= y), patterns=[S]))
    a = band(x, y)
    axiom('bitand', 'bits in common: range', ForAll([x, y], Implies(And(x >= 0, y >= 0), And(0 <= a, a <= x, a <= y)), patterns=[a]))
    axiom('bitand', 'bits in common', ForAll([x, y, j], Implies(And(x >= 0, y >= 0), bits(a)[j] == And(bits(x)[j], bits(y)[j])), patterns=[bits(a)[j], MultiPattern(a, bits(x)[j]), MultiPattern(a, bits(y)[j])]))
    axiom('ones', 'ones', ForAll([n], ones(n) >= 0, patterns=[ones(n)]))
    axiom('ones', 'ones: bits', ForAll([n, j], bits(ones(n))[j] == And(0 <= j, j < n), patterns=[bits(ones(n))[j]]))
    d = dbl(x, b)
    axiom('doubled', 'doubled', ForAll([x, b], d == 2 * x + If(b, 1, 0), patterns=[d]))
    axiom('doubled', 'doubled: bits', ForAll([x, b, j], Implies(x >= 0, bits(d)[j] == If(j == 0, b, And(j > 0, bits(x)[j - 1]))), patterns=[bits(d)[j]]))
    axiom('popcount', 'number of ones', ForAll([x], Implies(x >= 0, popcount(x) >= 0), patterns=[popcount(x)]))
    axiom('popcount', 'number of ones: of a subset', ForAll([x, y], Implies(And(x >= 0, y >= 0, S), And(popcount(x) <= popcount(y), Implies(x != y, popcount(x) < popcount(y)))), patterns=[MultiPattern(S, popcount(x), popcount(y))]))


_bits()
