"""Many-valued contexts (C16)."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem, card
from engine.contract import Family, Text, Contract, Lemma, LoopC, Fn, Lit, Inst, Either, Opaque, Opt
from engine.core import *
from engine.views import SHAPES
from . import ctxnew as N
from .ctxdef import *
from .ctxnew import within, all_i, INT2, cells, dims
from .ctxalg import same_list, table_is, eq_lists, rows_loop, row_loop, names_of, T

P16 = ('C16',)
X = 'fca/context.py:Context.'
M = 'fca/mvcontext.py:ManyValuedContext.'
TY = ('list', ('list', 'V'))
SHAPES['ManyValuedContext'] = {'fields': dict(SHAPES['Context']['fields'], np_table=('nd2', 'V'), cross_table=TY), 'inv': wf}
MV = Inst('ManyValuedContext', exact=True)
MNEW = Inst('ManyValuedContext', empty=True)
MVAL = 'many-valued'


def of(c, variant='', **params):
    """the contract of a context, for a many-valued one"""
    c.variant = (MVAL + ' ' + c.variant + variant).strip()
    c.params = dict(c.params, **params)
    c.props = P16
    return c


ident = lambda x: x
contracts = []
for v, t, cell, rown in (('lists', TY, N.lcell, N.lrow), ('table', ('nd2', 'V'), lambda T, i, j: T[i, j], lambda T, i: T.m)):
    c = of(N.init(v, t, cell, rown, ident), self=MNEW)
    contracts.append(c)
SELF = {'self': MV}


def edit(q, params, ens, raises, loops=None):
    return of(N.edit(q, params, ens, raises, loops=loops), self=MV)


contracts += [
    edit('add_object', {'row': ('list', 'V'), 'obj_name': 'V'}, lambda S: N.add_object(S, lambda j: S.row[j]), [('ValueError', lambda S: S.row.n != S.self._attributes.n)]),
    edit('add_attribute', {'col': ('list', 'V'), 'attr_name': 'V'}, lambda S: N.add_attribute(S, lambda i: S.col[i]), [('ValueError', lambda S: S.col.n != S.self._objects.n)])]
for c in N.contracts:
    q = c.qual[len(X):]
    if q in ('delete_object', 'delete_attribute', 'rename_object', 'rename_attribute', 'delete_attributes'):
        contracts.append(Contract(c.qual, dict(c.params, self=MV), ensures=c.ensures, raises=c.raises, modifies=c.modifies, variant=MVAL, props=P16, loops=c.loops))

# ---------------------------------------------------------------- construction and access
same_shape = lambda S, r, o: same_list(S, r._objects, o._objects, 'objects') + same_list(S, r._attributes, o._attributes, 'attributes')


def values_given(c):
    return lambda S: c.ensures(S)


for c in contracts[:2]:
    contracts.append(Contract(M + '__init__', {'self': MNEW, 'table': c.params['cross_table'], 'objects': c.params['objects'], 'attributes': c.params['attributes']}, variant=c.variant, rebinds=('self',), props=P16,
                              raises=[(x[0], lambda S, f=x[1]: f(As(S, cross_table='table'))) + x[2:] for x in c.raises], ensures=lambda S, c=c: c.ensures(As(S, cross_table='table'))))


class As:
    """a view under other names"""
    def __init__(self, S, **names):
        self._S, self._names = S, names

    def __getattr__(self, k):
        return getattr(self._S, self._names.get(k, k))


def cell(S, i, j):
    return S.self.np_table[i, j]


bad_attributes = lambda f: lambda S: Not(sub(f(S), S.self._attributes.set))
GIVEN = lambda S: S.attribute_names.set


def the_columns(S, r):
    """cell of a list of rows"""
    return [('one row per object', r.n == S.self._objects.n), ('one column per name', all_i(S, r.n, lambda i: L.list_n(r[i]) == S.attribute_names.n, r)),
            ('cells', S.forall(INT2, lambda i, j: Implies(And(within(i, r.n), within(j, S.attribute_names.n)), L.list_a(r[i])[j] == cell(S, i, S.self.attribute_indices[S.attribute_names[j]])),
                               lambda i, j: L.list_a(r[i])[j]))]


def retype(loop, name, ty):
    loop.types[name] = ty
    return loop


def kept(S, keep):
    """the rows of the objects satisfying keep, in their order"""
    a, o, p = S.result._objects, S.self._objects, S.self.object_indices
    return same_list(S, S.result._attributes, S.self._attributes, 'attributes') + [
        ('objects kept', S.forall([V], lambda v: a.set[v] == And(o.set[v], keep(v, p[v])), lambda v: [a.set[v], o.set[v]])),
        ('objects stay in order', S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < j, j < a.n), p[a[i]] < p[a[j]]), lambda i, j: MultiPattern(a[i], a[j]))),
        table_is(S, S.result.np_table, a.n, T(S).m, lambda i, j: T(S)[p[a[i]], j])]


HOLDS = Function('ConditionAt', V, IntSort(), BoolSort())
COND = Const('condition!f', V)
condition = Fn('condition', lambda it: VSpec('condition', lambda it, args, kw: VZ('bool', HOLDS(COND, args[0].t))))
VALS = ('dict', 'V', 'V')


def has(S, i):
    return S.forall([V], lambda v: Implies(S.values.dom[v], T(S)[i, S.self.attribute_indices[v]] == S.values[v]), lambda v: S.values.dom[v])


def some(S, i):
    return S.exists([V], lambda v: And(S.values.dom[v], T(S)[i, S.self.attribute_indices[v]] == S.values[v]))


def values_loop(eq):
    return LoopC(lambda S: [('values so far', S.forall([V], lambda v: Implies(S.done[v], eq(T(S)[S.i, S.self.attribute_indices[v]], S.values[v])), lambda v: S.done[v]))])


inside = lambda S: [('position', within(S.i, T(S).n)), ('names', sub(S.values.dom, S.self._attributes.set))]
contracts += [
    Contract(M + '__len__', {'self': MV}, returns='int', ensures=lambda S: [('number of objects', S.result == S.self._objects.n)], props=P16, nocall=True),
    Contract(M + '__getitem__', {'self': MV, 'key': 'int'}, returns=('list', 'V'), nocall=True, shared=True, raises=[('IndexError', lambda S: Or(S.key >= S.self._objects.n, S.key < -S.self._objects.n))], props=P16,
             ensures=lambda S: [('one value per attribute', S.result.n == S.self._attributes.n), ('the values given', all_i(S, S.result.n, lambda j: S.result[j] == cell(S, If(S.key < 0, S.key + S.self._objects.n, S.key), j), S.result))]),
    Contract(X + 'get_value', {'self': MV, 'o': 'V', 'a': 'V'}, returns='V', variant=MVAL, props=P16, raises=[('ValueError', lambda S: Not(And(S.self._objects.set[S.o], S.self._attributes.set[S.a])))],
             ensures=lambda S: [('the value given', S.result == cell(S, S.self.object_indices[S.o], S.self.attribute_indices[S.a]))]),
    Contract(X + '_check_attribute_names', {'self': MV, 'attribute_names': ('list', 'V')}, raises=[('ValueError', bad_attributes(GIVEN))], variant=MVAL, props=P16, loops={0: LoopC(types={'wrong_attributes': 'V'})}),
    Contract(X + '_extract_subtable', {'self': MV, 'attribute_names': ('list', 'V')}, raises=[('ValueError', bad_attributes(GIVEN))], returns=TY, variant=MVAL, props=P16,
             ensures=lambda S: the_columns(S, S.result),
             loops={0: retype(rows_loop('table', lambda S: S.attribute_indices.n, lambda S, i, j: T(S)[i, S.attribute_indices[j]]), 'table', TY), 1: retype(row_loop('row', lambda S, j: T(S)[S.i, S.attribute_indices[j]]), 'row', ('list', 'V'))}),
    Contract(M + 'extract_subcontext', {'self': MV, 'attribute_names': ('list', 'V')}, raises=[('ValueError', bad_attributes(GIVEN))], returns=MV, props=P16,
             ensures=lambda S: [same_list(S, S.result._objects, S.self._objects, 'objects'), names_of(S, S.result._attributes, S.attribute_names, 'attributes'),
                                table_is(S, S.result.np_table, S.self._objects.n, S.attribute_names.n, lambda i, j: T(S)[i, S.self.attribute_indices[S.attribute_names[j]]])]),
    Contract(M + 'extract_subcontext_by_condition', {'self': MV, 'condition': condition}, returns=MV, props=P16, ensures=lambda S: kept(S, lambda v, i: HOLDS(COND, i))),
    Contract(X + '_has_values', {'self': MV, 'i': 'int', 'values': VALS}, returns='bool', variant=MVAL, props=P16, requires=inside, ensures=lambda S: [('all values', S.result == has(S, S.i))], loops={0: values_loop(lambda a, b: a == b)}),
    Contract(X + '_has_at_least_one_value', {'self': MV, 'i': 'int', 'values': VALS}, returns='bool', variant=MVAL, props=P16, requires=inside, ensures=lambda S: [('some value', S.result == some(S, S.i))], loops={0: values_loop(lambda a, b: a != b)}),
    Contract(M + 'extract_subcontext_by_attribute_values', {'self': MV, 'values': VALS}, returns=MV, props=P16, raises=[('ValueError', bad_attributes(lambda S: S.values.dom))], ensures=lambda S: kept(S, lambda v, i: has(S, i))),
    Contract(M + '__deepcopy__', {'self': MV, 'memo': ('dict', 'V', 'int')}, returns=MV, props=P16,
             ensures=lambda S: same_shape(S, S.result, S.self) + [table_is(S, S.result.np_table, T(S).n, T(S).m, lambda i, j: T(S)[i, j])]),
]

# ---------------------------------------------------------------- scaling
SCN, SCM = Function('ScaleObjects', IntSort(), IntSort()), Function('ScaleAttributes', IntSort(), IntSort())
SCO, SCA = Function('ScaleObject', IntSort(), LV), Function('ScaleAttribute', IntSort(), LV)
SCT = Function('ScaleTable', IntSort(), TT)
SHAPES['Scale'] = SHAPES['NominalScale'] = SHAPES['OrdinalScale'] = SHAPES['Context']
scales = Family('Scale', lambda k, w: [w._objects.n == SCN(k), w._attributes.n == SCM(k), w._objects.arr == SCO(k), w._attributes.arr == SCA(k), w.np_table.arr == SCT(k)])
truthy = Function('truthy', V, BoolSort())
EVAL = lambda cond, v: truthy(Function('eval', V, V, V, V)(strconst('value'), cond, v))
FLOAT, FAILS, STR = Function('float', V, V), Function('float_fails', V, IntSort()), Function('str/V', V, V)
TEXT = Function('str', V, V)
VALUE = Function('ScaledValue', V, V)         # the value the conditions see
HAS = Function('HasScaled', IntSort(), IntSort(), V, IntSort(), BoolSort())      # some of the first objects of the scale has the attribute and a condition the value satisfies
OFF = Function('FirstColumn', IntSort(), IntSort())
COLUMN = Function('ColumnOf', IntSort(), IntSort(), IntSort())
COLA, COLC = Function('AttributeOfColumn', IntSort(), IntSort()), Function('ScaleAttributeOfColumn', IntSort(), IntSort())


def _scaling():
    a, c, r, q, p = Ints('a c r q p')
    v, x = Consts('v x', V)
    w = Function('hasw', IntSort(), IntSort(), V, IntSort(), IntSort())
    L.axiom('ScaledValue', 'value seen by a condition', ForAll([v], VALUE(v) == If(Or(FAILS(v) == 1, FAILS(v) == 2, FAILS(v) == 3), Function('str/' + L.sname(V), V, V)(v), FLOAT(v)), patterns=[VALUE(v)]))
    sat = lambda a, c, v, q: And(EVAL(SCO(a)[q], VALUE(v)), SCT(a)[q][c])
    L.axiom('HasScaled', 'scaled attribute: witness', ForAll([a, c, v, r], Implies(HAS(a, c, v, r), And(0 <= w(a, c, v, r), w(a, c, v, r) < r, sat(a, c, v, w(a, c, v, r)))), patterns=[HAS(a, c, v, r)]))
    L.axiom('HasScaled', 'scaled attribute: some object', ForAll([a, c, v, r, q], Implies(And(0 <= q, q < r, sat(a, c, v, q)), HAS(a, c, v, r)), patterns=[MultiPattern(HAS(a, c, v, r), SCT(a)[q][c])]))
    L.axiom('FirstColumn', 'columns of the first attributes', And(OFF(0) == 0, ForAll([a], Implies(0 <= a, OFF(a + 1) == OFF(a) + SCM(a)), patterns=[OFF(a + 1)])))
    L.axiom('ColumnOf', 'attribute and scale attribute of a column', ForAll([a, c, p], Implies(And(0 <= a, 0 <= c, c < SCM(a), p <= OFF(a) + c, OFF(a) + c <= p), And(COLA(p) == a, COLC(p) == c)), patterns=[MultiPattern(COLUMN(a, c), COLA(p)), MultiPattern(COLUMN(a, c), COLC(p))]))
    L.axiom('ColumnOf', 'number of a column', ForAll([a, c], COLUMN(a, c) == OFF(a) + c, patterns=[COLUMN(a, c)]))


_scaling()


def scaled(S, t, n):
    """the first n columns"""
    mv = S.mvcontext.np_table
    return [('the scaled values', S.forall(INT2, lambda i, p: Implies(And(within(i, mv.n), within(p, n)), t[i, p] == HAS(COLA(p), COLC(p), mv[i, COLA(p)], SCN(COLA(p)))), lambda i, p: t[i, p]))]


def name_of(S, p):
    return strcat(strcat(S.mvcontext._attributes[COLA(p)], strconst(':')), SCA(COLA(p))[COLC(p)])


def different_names(S):
    """the names of the columns differ"""
    n = OFF(S.mvcontext._attributes.n)
    return S.forall(INT2, lambda p, q: Implies(And(0 <= p, p < q, q < n), name_of(S, p) != name_of(S, q)), lambda p, q: MultiPattern(COLA(p), COLA(q)))


def named(S, d, n):
    return [('names of the columns', Implies(different_names(S), all_i(S, n, lambda p: d._attributes[p] == name_of(S, p), d._attributes)))]


def derived(S, n):
    d = S.derived_context
    return named(S, d, n) + same_list(S, d._objects, S.mvcontext._objects, 'objects') + [('columns so far', d._attributes.n == n)] + scaled(S, d.np_table, n)


def row_values(S, n, extra=None):
    mv, d = S.mvcontext.np_table, S.derived_attr
    r = S.outer()[0] if extra is not None else S.k
    f = lambda i, rr: HAS(S.attr_index, S.col, mv[i, S.attr_index], rr)
    return [('one value per object', d.n == mv.n), ('values so far', all_i(S, mv.n, lambda i: d[i] == (f(i, r) if extra is None else If(i < extra, f(i, r + 1), f(i, r))), d))]


def _monotone():
    a, b = Ints('a b')
    L.axiom('FirstColumn', 'number of scale attributes', ForAll([a], SCM(a) >= 0, patterns=[SCM(a)]))
    return Lemma('columns of later attributes', ['FirstColumn'], [a, b], lambda a, b: Implies(And(0 <= a, a <= b), OFF(a) <= OFF(b)), lambda a, b: [(OFF(a), OFF(b))], P16, induct=(1, 0))


contracts.append(_monotone())
scaling = Contract('fca/algorithms/scaling.py:scale_mvcontext', {'mvcontext': MV, 'scales': scales}, returns=Inst('Context', exact=True), props=P16,
                   requires=lambda S: [('one scale per attribute', S.scales.n == S.mvcontext._attributes.n)],
                   loops={0: LoopC(lambda S: derived(S, OFF(S.k))), 1: LoopC(lambda S: derived(S, OFF(S.attr_index) + S.k), at_body=lambda S: [('columns of the attribute', OFF(S.attr_index + 1) == OFF(S.attr_index) + SCM(S.attr_index)), ('inside', And(OFF(S.attr_index) + S.k < OFF(S.mvcontext._attributes.n))), ('number of the new column', COLUMN(S.attr_index, S.k) == OFF(S.attr_index) + S.k), ('the new column', And(COLA(OFF(S.attr_index) + S.k) == S.attr_index, COLC(OFF(S.attr_index) + S.k) == S.k))]), 2: LoopC(lambda S: row_values(S, S.k)), 3: LoopC(lambda S: row_values(S, 0, S.k))},
                   ensures=lambda S: same_list(S, S.result._objects, S.mvcontext._objects, 'objects') + [('one attribute per pair', S.result._attributes.n == OFF(S.mvcontext._attributes.n))] + scaled(S, S.result.np_table, OFF(S.mvcontext._attributes.n)) + named(S, S.result, OFF(S.mvcontext._attributes.n)))
contracts.append(scaling)

# ---------------------------------------------------------------- scales
SC = 'fca/scale.py:'
_t = dict((c.params['cross_table'][0], c) for c in N.contracts if c.qual == X + '__init__' and c.variant in ('table', 'bool lists'))
for cls in ('Scale', 'NominalScale', 'OrdinalScale'):
    new = Inst(cls, empty=True)
    i = of(N.init('table', ('nd2', 'bool'), lambda T, i, j: T[i, j], lambda T, i: T.m), self=new)
    i.variant = cls
    contracts += [i, Contract(SC + 'Scale.__init__', {'self': new, 'context': Inst('Context', exact=True)}, variant=cls, rebinds=('self',), props=P16,
                              ensures=lambda S: same_list(S, S.self._objects, S.context._objects, 'objects') + same_list(S, S.self._attributes, S.context._attributes, 'attributes') +
                              [table_is(S, S.self.np_table, S.context.np_table.n, S.context.np_table.m, lambda i, j: S.context.np_table[i, j])])]

REPR = Function('repr/' + L.sname(V), V, V)
STRV = Function('str/' + L.sname(V), V, V)
FLAT = Function('NominalValue', V, V)        # numbers as numbers, the rest by the text form
PLAIN = Function('PlainValue', V, BoolSort())


def FORMAT(v):
    return strcat(strconst('value == '), STRV(v))


def fmt(text, k):
    return strcat(strconst(text.replace('%s', '')), Function('str/' + L.sname(IntSort()), IntSort(), V)(k))


def _texts():
    v, x = Consts('v x', V)
    L.axiom('NominalValue', 'value of a nominal scale', ForAll([v], FLAT(v) == If(Or(FAILS(v) == 1, FAILS(v) == 2, FAILS(v) == 3), REPR(STRV(v)), FLOAT(v)), patterns=[FLAT(v)]))
    L.axiom('PlainValue', 'text forms of different values differ', ForAll([v, x], Implies(And(PLAIN(v), PLAIN(x), STRV(v) == STRV(x)), v == x), patterns=[MultiPattern(STRV(v), STRV(x), PLAIN(v), PLAIN(x))]))
    L.axiom('PlainValue', 'values of nominal scales', ForAll([v], And(PLAIN(FLAT(v)), Function('is_no_tuple', V, BoolSort())(FLAT(v))), patterns=[FLAT(v)]))


_texts()


def ordinal(attr, bound, cell):
    def ens(S):
        n = If(S.max_ >= S.min_, S.max_ - S.min_ + 1, 0)
        m = If(n > 0, n - 1, 0)
        o, a, t = S.self._objects, S.self._attributes, S.self.np_table
        return [('one object per value', o.n == n), ('conditions', all_i(S, n, lambda i: o[i] == fmt('value == %s', S.min_ + i), o)),
                ('one attribute per bound', a.n == m), ('bounds', all_i(S, m, lambda j: a[j] == fmt(attr, bound(S, j)), a)),
                ('cells', S.forall(INT2, lambda i, j: Implies(And(within(i, n), within(j, m)), t[i, j] == cell(S.min_ + i, bound(S, j))), lambda i, j: t[i, j]))]
    return ens


def made(S):
    """the names are different"""
    c = S.call(X + '__init__')
    return [('different conditions', L.dist(c.objects.arr, I(0), c.objects.n)), ('different bounds', L.dist(c.attributes.arr, I(0), c.attributes.n))]


def steps(S, geq):
    T, m = S.table, S.attributes.n
    return [('rows so far', T.n == S.k), ('lengths', all_i(S, S.k, lambda i: L.list_n(T[i]) == m, T)),
            ('cells so far', S.forall(INT2, lambda i, j: Implies(And(within(i, S.k), within(j, m)), L.list_a(T[i])[j] == (j < i if geq else j >= i)), lambda i, j: L.list_a(T[i])[j]))]


OS = {'self': Inst('OrdinalScale', empty=True), 'min_': 'int', 'max_': 'int'}
BL = {'table': ('list', ('list', 'bool'))}
oloops = {0: LoopC(lambda S: steps(S, True), types=BL), 1: LoopC(lambda S: steps(S, False), types=BL)}
for v, mode in (('geq', Lit('geq')), ('leq', Lit('leq')), ('other mode', Lit('other'))):
    geq = v == 'geq'
    contracts.append(Contract(SC + 'OrdinalScale.__init__', dict(OS, mode=mode), variant=v, rebinds=('self',), props=P16, loops=oloops, exit_lemmas=made,
                              ensures=ordinal('>= %s', lambda S, j: S.min_ + j + 1, lambda x, b: x >= b) if geq else ordinal('<= %s', lambda S, j: S.min_ + j, lambda x, b: x <= b)))


def occurring(col):
    def lemmas(S):
        v, mv, k = S.local('values'), S.mvcontext.np_table, col(S)
        c = S.call(X + '__init__')
        return [('values are occurring ones', all_i(S, v.n, lambda i: S.exists([IntSort()], lambda g: And(within(g, mv.n), v[i] == FLAT(mv[g, k]))), v)),
                ('values are plain', all_i(S, v.n, lambda i: PLAIN(v[i]), v)),
                ('different values', S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < j, j < v.n), v[i] != v[j]), lambda i, j: MultiPattern(v[i], v[j]))),
                ('conditions of the values', And(c.objects.n == v.n, all_i(S, v.n, lambda i: c.objects[i] == FORMAT(v[i]), c.objects, v))),
                ('names of the values', And(c.attributes.n == v.n, all_i(S, v.n, lambda i: c.attributes[i] == STRV(v[i]), c.attributes, v)))] + made(S)
    return lemmas


def identity(S):
    T, n = S.table, S.values.n
    return [('rows so far', T.n == S.k), ('lengths', all_i(S, S.k, lambda i: L.list_n(T[i]) == n, T)),
            ('cells so far', S.forall(INT2, lambda i, j: Implies(And(within(i, S.k), within(j, n)), L.list_a(T[i])[j] == (i == j)), lambda i, j: L.list_a(T[i])[j]))]


def nominal(col):
    def ens(S):
        o, a, t, mv = S.self._objects, S.self._attributes, S.self.np_table, S.mvcontext.np_table
        k = col(S)
        return [('as many attributes as conditions', a.n == o.n),
                ('cells', S.forall(INT2, lambda i, j: Implies(And(within(i, o.n), within(j, o.n)), t[i, j] == (i == j)), lambda i, j: t[i, j])),
                ('only occurring values', all_i(S, o.n, lambda i: S.exists([IntSort()], lambda g: And(within(g, mv.n), o[i] == FORMAT(FLAT(mv[g, k])), a[i] == STRV(FLAT(mv[g, k])))), o)),
                ('every occurring value', S.forall([IntSort()], lambda g: Implies(within(g, mv.n), S.exists([IntSort()], lambda i: And(within(i, o.n), o[i] == FORMAT(FLAT(mv[g, k])), a[i] == STRV(FLAT(mv[g, k]))))), lambda g: mv[g, k]))]
    return ens


NS = {'self': Inst('NominalScale', empty=True), 'mvcontext': MV}
nloops = {0: LoopC(identity, types=BL)}
contracts += [
    Contract(SC + 'NominalScale.__init__', dict(NS, attribute='int'), variant='position', rebinds=('self',), props=P16, loops=nloops, exit_lemmas=occurring(lambda S: S.attribute),
             requires=lambda S: [('position', within(S.attribute, S.mvcontext._attributes.n))], ensures=nominal(lambda S: S.attribute)),
    Contract(SC + 'NominalScale.__init__', dict(NS, attribute=Text()), variant='name', rebinds=('self',), props=P16, loops=nloops, exit_lemmas=occurring(lambda S: S.mvcontext.attribute_indices[S.attribute]),
             raises=[('ValueError', lambda S: Not(S.mvcontext._attributes.set[S.attribute]), True)], ensures=nominal(lambda S: S.mvcontext.attribute_indices[S.attribute]))]

# ---- accessors
contracts += [
    Contract(M + 'get_table', {'self': MV}, returns=TY, nocall=True, shared=True, props=P16,
             ensures=lambda S: [('one row per object', S.result.n == S.self._objects.n), ('one value per attribute', all_i(S, S.result.n, lambda i: L.list_n(S.result[i]) == S.self._attributes.n, S.result)),
                                ('the values given', S.forall(INT2, lambda i, j: Implies(And(within(i, S.self._objects.n), within(j, S.self._attributes.n)), L.list_a(S.result[i])[j] == T(S)[i, j]), lambda i, j: L.list_a(S.result[i])[j]))]),
    Contract(M + 'get_objects', {'self': MV}, returns=('list', 'V'), nocall=True, shared=True, props=P16, ensures=lambda S: [('the objects', eq_lists(S, S.result, S.self._objects))]),
    Contract(M + 'get_attributes', {'self': MV}, returns=('list', 'V'), nocall=True, shared=True, props=P16, ensures=lambda S: [('the attributes', eq_lists(S, S.result, S.self._attributes))]),
]
