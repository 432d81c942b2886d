"""Contracts for contexts derived from contexts (C11) and views of a context (C01)."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem, card
from engine.contract import Contract, LoopC, Fn, Lit, Inst, Either, Opaque
from engine.core import *
from engine.views import ListView, view
from .ctxdef import *
from .ctxnew import contracts as _new, INT2, within, all_i, unique, truth, Row, edit, cells, dims, same_names, sublist, next_seen

X = 'fca/context.py:Context.'
C = Inst('Context')
CE = Inst('Context', exact=True)
P = ('C11', 'C02')


class Fun:
    """a list given by its length and its elements"""
    def __init__(self, n, f):
        self.n, self.f = n, f

    def __getitem__(self, i):
        return self.f(i)


def names_of(S, a, o, lab):
    """a has the names o (kept where they occur once)"""
    u = lambda i: S.forall([IntSort()], lambda j: Implies(And(within(j, o.n), j != i), o[j] != o[i]), (lambda j: o[j]) if isinstance(o, ListView) else None)
    return [(lab + ': as many', a.n == o.n), (lab + ': names', S.forall([IntSort()], lambda i: Implies(And(within(i, o.n), u(i)), a[i] == o[i]), lambda i: a[i]))]


def same_list(S, a, o, lab):
    return [(lab + ': as many', a.n == o.n), (lab + ': names', S.forall([IntSort()], lambda i: Implies(within(i, o.n), a[i] == o[i]), lambda i: [a[i], o[i]]))]


def table_is(S, t, n, m, f, lab='cells'):
    return (lab, S.forall(INT2, lambda i, j: Implies(And(within(i, n), within(j, m)), t[i, j] == f(i, j)), lambda i, j: t[i, j]))


def rows_loop(lst, width, f, n=None):
    """a list of rows is built: rows so far"""
    def inv(S):
        r = getattr(S, lst)
        return [('rows so far', r.n == S.k), ('lengths', S.forall([IntSort()], lambda i: Implies(within(i, S.k), L.list_n(r[i]) == width(S)), lambda i: r[i])),
                ('cells so far', S.forall(INT2, lambda i, j: Implies(And(within(i, S.k), within(j, width(S))), L.list_a(r[i])[j] == f(S, i, j)), lambda i, j: L.list_a(r[i])[j]))]
    return LoopC(inv, types={lst: ('list', ('list', 'bool'))})


def row_loop(lst, f):
    def inv(S):
        r = getattr(S, lst)
        return [('cells of the row so far', r.n == S.k), ('cells of the row', S.forall([IntSort()], lambda j: Implies(within(j, S.k), r[j] == f(S, j)), lambda j: r[j]))]
    return LoopC(inv, types={lst: ('list', 'bool')})


def T(S):
    return S.self.np_table


def neg(v):
    """the name of the complementary attribute"""
    return strcat(strconst('not '), v)


def eq_lists(S, a, b):
    return And(a.n == b.n, S.forall([IntSort()], lambda i: Implies(within(i, a.n), a[i] == b[i]), lambda i: [a[i], b[i]]))


def same_context(S, a, b):
    c, d = ctx(a), ctx(b)
    return And(objs(c) == objs(d), atts(c) == atts(d), S.forall([V, V], lambda g, m: Implies(And(objs(c)[g], atts(c)[m]), inc(c, g, m) == inc(d, g, m)), lambda g, m: MultiPattern(objs(c)[g], atts(c)[m])))


def selected(S, keep):
    """the rows of the objects satisfying keep, in their order"""
    a, o, p = S.result._objects, S.self._objects, S.self.object_indices
    return [same_list(S, S.result._attributes, S.self._attributes, 'attributes'),
            ('objects kept', S.forall([V], lambda v: a.set[v] == And(o.set[v], keep(v)), lambda v: [a.set[v], o.set[v]])),
            ('objects stay in order', S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < j, j < a.n), p[a[i]] < p[a[j]]), lambda i, j: MultiPattern(a[i], a[j]))),
            table_is(S, S.result.np_table, a.n, T(S).m, lambda i, j: T(S)[p[a[i]], j])]


contracts = [
    Contract(X + 'transpose', {'self': C}, returns=CE, props=P,
             ensures=lambda S: [same_list(S, S.result._objects, S.self._attributes, 'objects'), same_list(S, S.result._attributes, S.self._objects, 'attributes'),
                                table_is(S, S.result.np_table, T(S).m, T(S).n, lambda i, j: T(S)[j, i])],
             loops={0: rows_loop('new_cross_table', lambda S: S.self._objects.n, lambda S, i, j: T(S)[j, i]), 1: row_loop('line', lambda S, i: T(S)[i, S.j])}),
    Contract(X + '__deepcopy__', {'self': C, 'memo': ('dict', 'V', 'int')}, returns=CE, props=P,
             ensures=lambda S: [same_list(S, S.result._objects, S.self._objects, 'objects'), same_list(S, S.result._attributes, S.self._attributes, 'attributes'),
                                table_is(S, S.result.np_table, T(S).n, T(S).m, lambda i, j: T(S)[i, j])]),
    Contract(X + '__len__', {'self': C}, returns='int', ensures=lambda S: [('number of objects', S.result == S.self._objects.n)], props=('C01',)),
    Contract(X + 'get_object_attribute_pairs', {'self': C}, returns=('list', ('tuple', 'V', 'V')), props=('C01',),
             ensures=lambda S: [('the crosses', S.forall([V, V], lambda g, m: S.result.set[L.mk_tuple([g, m])] == And(mem(g, objs(ctx(S.self))), mem(m, atts(ctx(S.self))), inc(ctx(S.self), g, m)), lambda g, m: S.result.set[L.mk_tuple([g, m])])),
                                ('each once', S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < j, j < S.result.n), S.result[i] != S.result[j]), lambda i, j: MultiPattern(S.result[i], S.result[j])))]),
    Contract(X + 'examples', {'self': C}, returns=('list', ('set', 'V')), props=('C01',),
             ensures=lambda S: [('one per object', S.result.n == S.self._objects.n), ('the rows', all_i(S, S.result.n, lambda i: S.result[i] == ROW(ctx(S.self), i), S.result))],
             loops={0: LoopC(lambda S: [('one per object', S.yielded.n == S.k), ('the rows', all_i(S, S.k, lambda i: S.yielded[i] == ROW(ctx(S.self), i), S.yielded))])}),
    Contract(X + '_check_attribute_names', {'self': C, 'attribute_names': ('list', 'V')}, raises=[('ValueError', lambda S: Not(sub(S.attribute_names.set, S.self._attributes.set)))], props=P,
             loops={0: LoopC(types={'wrong_attributes': 'V'})}),
    Contract(X + '_extract_subtable', {'self': C, 'attribute_names': ('list', 'V')}, raises=[('ValueError', lambda S: Not(sub(S.attribute_names.set, S.self._attributes.set)))], returns=('list', ('list', 'bool')), props=P,
             ensures=lambda S: [('one row per object', S.result.n == S.self._objects.n), ('one column per name', all_i(S, S.result.n, lambda i: L.list_n(S.result[i]) == S.attribute_names.n, S.result)),
                                ('cells', S.forall(INT2, lambda i, j: Implies(And(within(i, S.result.n), within(j, S.attribute_names.n)), L.list_a(S.result[i])[j] == T(S)[i, S.self.attribute_indices[S.attribute_names[j]]]),
                                                   lambda i, j: L.list_a(S.result[i])[j]))],
             loops={0: rows_loop('table', lambda S: S.attribute_indices.n, lambda S, i, j: T(S)[i, S.attribute_indices[j]]), 1: row_loop('row', lambda S, j: T(S)[S.i, S.attribute_indices[j]])}),
    Contract(X + 'extract_subcontext', {'self': C, 'attribute_names': ('list', 'V')}, raises=[('ValueError', lambda S: Not(sub(S.attribute_names.set, S.self._attributes.set)))], returns=CE, props=P,
             ensures=lambda S: [same_list(S, S.result._objects, S.self._objects, 'objects'), names_of(S, S.result._attributes, S.attribute_names, 'attributes'),
                                table_is(S, S.result.np_table, S.self._objects.n, S.attribute_names.n, lambda i, j: T(S)[i, S.self.attribute_indices[S.attribute_names[j]]])]),
    Contract(X + 'complementary', {'self': C}, returns=CE, props=P,
             ensures=lambda S: [same_list(S, S.result._objects, S.self._objects, 'objects'), ('attributes: as many', S.result._attributes.n == S.self._attributes.n),
                                ('attributes: names', all_i(S, S.self._attributes.n, lambda i: S.result._attributes[i] == neg(S.self._attributes[i]), S.result._attributes)),
                                table_is(S, S.result.np_table, S.self._objects.n, S.self._attributes.n, lambda i, j: Not(T(S)[i, j]))],
             loops={0: rows_loop('complementary_table', lambda S: S.self._attributes.n, lambda S, i, j: Not(T(S)[i, j]))}),
    Contract(X + 'compound', {'self': C}, returns=CE, props=P,
             ensures=lambda S: [same_list(S, S.result._objects, S.self._objects, 'objects'), ('attributes: twice as many', S.result._attributes.n == 2 * S.self._attributes.n),
                                ('attributes: names', Implies(S.forall([V], lambda v: Implies(S.self._attributes.set[v], Not(S.self._attributes.set[neg(v)])), lambda v: S.self._attributes.set[v]),
                                                              all_i(S, 2 * S.self._attributes.n, lambda i: S.result._attributes[i] == If(i < S.self._attributes.n, S.self._attributes[i], neg(S.self._attributes[i - S.self._attributes.n])), S.result._attributes))),
                                table_is(S, S.result.np_table, S.self._objects.n, 2 * S.self._attributes.n, lambda i, j: If(j < T(S).m, T(S)[i, j], Not(T(S)[i, j - T(S).m])))]),
    Contract(X + '__mul__', {'self': C, 'cxt_r': C}, returns=CE, props=P, raises=[('MultiplicationException', lambda S: Not(eq_lists(S, S.self._attributes, S.cxt_r._objects)))],
             ensures=lambda S: [same_list(S, S.result._objects, S.self._objects, 'objects'), same_list(S, S.result._attributes, S.cxt_r._attributes, 'attributes'),
                                ('cells: some link', S.forall(INT2, lambda i, j: Implies(And(within(i, T(S).n), within(j, S.cxt_r.np_table.m), S.result.np_table[i, j]),
                                                                                       S.exists([IntSort()], lambda k: And(within(k, T(S).m), T(S)[i, k], S.cxt_r.np_table[k, j]))), lambda i, j: S.result.np_table[i, j])),
                                ('cells: every link', S.forall([IntSort()] * 3, lambda i, j, k: Implies(And(within(i, T(S).n), within(j, S.cxt_r.np_table.m), within(k, T(S).m), T(S)[i, k], S.cxt_r.np_table[k, j]),
                                                                                       S.result.np_table[i, j]), lambda i, j, k: MultiPattern(T(S)[i, k], S.cxt_r.np_table[k, j])))]),
    Contract(X + '__eq__', {'self': C, 'other': CE}, returns='bool', props=P, exit_lemmas=lambda S: [('distinct names', And(*[L.dist(a.arr, I(0), a.n) for a in (S.self._objects, S.self._attributes, S.other._objects, S.other._attributes)]))],
             ensures=lambda S: [('equality of names and incidence', S.result == same_context(S, S.self, S.other))]),
    Contract(X + '_has_values', {'self': C, 'i': 'int', 'values': ('dict', 'V', 'bool')}, returns='bool', props=P,
             requires=lambda S: [('position', within(S.i, T(S).n)), ('names', sub(S.values.dom, S.self._attributes.set))],
             ensures=lambda S: [('all values', S.result == S.forall([V], lambda v: Implies(S.values.dom[v], T(S)[S.i, S.self.attribute_indices[v]] == S.values[v]), lambda v: S.values.dom[v]))],
             loops={0: LoopC(lambda S: [('values so far', S.forall([V], lambda v: Implies(S.done[v], T(S)[S.i, S.self.attribute_indices[v]] == S.values[v]), lambda v: S.done[v]))])}),
    Contract(X + '_has_at_least_one_value', {'self': C, 'i': 'int', 'values': ('dict', 'V', 'bool')}, returns='bool', props=P,
             requires=lambda S: [('position', within(S.i, T(S).n)), ('names', sub(S.values.dom, S.self._attributes.set))],
             ensures=lambda S: [('some value', S.result == S.exists([V], lambda v: And(S.values.dom[v], T(S)[S.i, S.self.attribute_indices[v]] == S.values[v])))],
             loops={0: LoopC(lambda S: [('values so far', S.forall([V], lambda v: Implies(S.done[v], T(S)[S.i, S.self.attribute_indices[v]] != S.values[v]), lambda v: S.done[v]))])}),
    Contract(X + 'extract_subcontext_filtered_by_attributes', {'self': C, 'attributes_names': ('list', 'V'), 'mode': Lit('and')}, returns=CE, variant='and', props=P,
             raises=[('ValueError', lambda S: Not(sub(S.attributes_names.set, S.self._attributes.set)))], ensures=lambda S: selected(S, lambda g: sub(S.attributes_names.set, INTENT(ctx(S.self), g)))),
    Contract(X + 'extract_subcontext_filtered_by_attributes', {'self': C, 'attributes_names': ('list', 'V'), 'mode': Lit('or')}, returns=CE, variant='or', props=P,
             raises=[('ValueError', lambda S: Not(sub(S.attributes_names.set, S.self._attributes.set)))], ensures=lambda S: selected(S, lambda g: L.inter(S.attributes_names.set, INTENT(ctx(S.self), g)) != L.empty(V))),
]


def empties(S):
    t = S.self.np_table
    d = S.to_delete
    p = S.self.object_indices
    return [('empty rows so far', S.forall([V], lambda v: d.set[v] == And(S.self._objects.set[v], p[v] < S.k, Not(S.exists([IntSort()], lambda j: And(within(j, t.m), t[p[v], j])))), lambda v: d.set[v])),
            ('each once', S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < j, j < d.n), d[i] != d[j]), lambda i, j: MultiPattern(d[i], d[j])))]


def removal(S):
    a, o, p = S.self._objects, S.old.self._objects, S.old.self.object_indices
    t, u = S.self.np_table, S.old.self.np_table
    b, q = S.self._attributes, S.old.self._attributes
    return [('objects left', S.forall([V], lambda v: a.set[v] == And(o.set[v], Not(S.seen[v])), lambda v: [a.set[v], o.set[v]])),
            ('objects stay in order', S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < j, j < a.n), p[a[i]] < p[a[j]]), lambda i, j: MultiPattern(a[i], a[j]))),
            ('as many attributes', b.n == q.n), ('same attributes', S.forall([IntSort()], lambda i: Implies(within(i, q.n), b[i] == q[i]), lambda i: [b[i], q[i]])),
            ('cells', S.forall(INT2, lambda i, j: Implies(And(within(i, a.n), within(j, q.n)), t[i, j] == u[p[a[i]], j]), lambda i, j: t[i, j]))]


def empty_row(S, v):
    t = S.old.self.np_table
    return Not(S.exists([IntSort()], lambda j: And(within(j, t.m), t[S.old.self.object_indices[v], j])))


def one_object_less(S):
    a, h = S.self._objects, S.head.self._objects
    q, x = S.head.self.object_indices, S.item(S.k)
    r = S.self.object_indices
    return [('another position', S.forall([V], lambda v: Implies(And(h.set[v], v != x), And(h[q[v]] == v, h[q[x]] == x, q[v] != q[x], within(q[v], h.n))), lambda v: h.set[v])),
            ('those before', S.forall([V], lambda v: Implies(And(h.set[v], v != x, q[v] < q[x]), a[q[v]] == v), lambda v: h.set[v])),
            ('those behind', S.forall([V], lambda v: Implies(And(h.set[v], v != x, q[v] > q[x]), a[q[v] - 1] == v), lambda v: h.set[v])),
            ('all of them', S.forall([V], lambda v: Implies(And(h.set[v], v != x), a.set[v]), lambda v: h.set[v])),
            ('they were there', S.forall([V], lambda v: Implies(a.set[v], And(within(r[v], a.n), h[If(r[v] < q[x], r[v], r[v] + 1)] == v, h.set[v], v != x)), lambda v: a.set[v])),
            ('one object less', S.forall([V], lambda v: a.set[v] == And(h.set[v], v != x), lambda v: [a.set[v], h.set[v]]))] + next_seen(S)


contracts += [
    Contract(X + 'remove_empty_objects', {'self': CE}, returns=CE, alias={'self': lambda S: BoolVal(True)}, modifies=('self',), props=('C01', 'C02'),
             loops={0: LoopC(empties, types={'to_delete': ('list', 'V')}), 1: LoopC(removal, at_end=one_object_less, after=lambda S: [('all and only empty rows', S.forall([V], lambda v: S.seen[v] == And(S.old.self._objects.set[v], empty_row(S, v)), lambda v: [S.seen[v], S.old.self._objects.set[v]]))])},
             ensures=lambda S: [sublist(S, '_objects', 'object_indices', lambda v: Not(empty_row(S, v))), same_names(S, '_attributes'),
                                ('cells', cells(S, S.self._objects.n, dims(S)[2], lambda i, j: dims(S)[0][S.old.self.object_indices[S.self._objects[i]], j]))]),
    Contract(X + 'lemma_transpose_twice', {'c': CE}, source='def lemma(c):\n    return c.transpose().transpose() == c\n', returns='bool', nocall=True, props=P,
             ensures=lambda S: [('transposition is an involution', S.result)]),
    Contract(X + 'lemma_equal_copies', {'c': CE}, source='def lemma(c):\n    return c.__deepcopy__({}) == c\n', returns='bool', nocall=True, props=P,
             ensures=lambda S: [('a copy is equal', S.result)]),
]


# ---- subtables by a condition on positions
HOLDS = Function('ConditionAt', V, IntSort(), BoolSort())
COND = Const('condition!f', V)
condition = Fn('condition', lambda it: VSpec('condition', lambda it, args, kw: VZ('bool', HOLDS(COND, args[0].t))))
SUBT = ('tup', ('list', 'V'), ('list', ('list', 'bool')))


def rows_kept(S, keep):
    """names and rows of the objects whose position satisfies keep, in their order"""
    a, r, o, p = S.result[0], S.result[1], S.self._objects, S.self.object_indices
    return [('objects kept', S.forall([V], lambda v: a.set[v] == And(o.set[v], keep(p[v])), lambda v: [a.set[v], o.set[v]])),
            ('objects stay in order', S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < j, j < a.n), p[a[i]] < p[a[j]]), lambda i, j: MultiPattern(a[i], a[j]))),
            ('one row for each', r.n == a.n), ('one cell per attribute', all_i(S, r.n, lambda i: L.list_n(r[i]) == T(S).m, r)),
            ('cells', S.forall(INT2, lambda i, j: Implies(And(within(i, r.n), within(j, T(S).m)), L.list_a(r[i])[j] == T(S)[p[a[i]], j]), lambda i, j: L.list_a(r[i])[j]))]


VALUES = ('dict', 'V', 'bool')
contracts += [
    Contract(X + '_extract_subtable_by_condition', {'self': C, 'condition': condition}, returns=SUBT, nocall=True, props=P, ensures=lambda S: rows_kept(S, lambda i: HOLDS(COND, i))),
    Contract(X + '_extract_subtable_by_attribute_values', {'self': C, 'values': VALUES, 'mode': Lit('and')}, variant='and', returns=SUBT, nocall=True, props=P, raises=[('ValueError', lambda S: Not(sub(S.values.dom, S.self._attributes.set)))],
             ensures=lambda S: rows_kept(S, lambda i: S.forall([V], lambda v: Implies(S.values.dom[v], T(S)[i, S.self.attribute_indices[v]] == S.values[v]), lambda v: S.values.dom[v]))),
    Contract(X + '_extract_subtable_by_attribute_values', {'self': C, 'values': VALUES, 'mode': Lit('or')}, variant='or', returns=SUBT, nocall=True, props=P, raises=[('ValueError', lambda S: Not(sub(S.values.dom, S.self._attributes.set)))],
             ensures=lambda S: rows_kept(S, lambda i: S.exists([V], lambda v: And(S.values.dom[v], T(S)[i, S.self.attribute_indices[v]] == S.values[v])))),
]

# ---- the container of rows
contracts += [
    Contract(X + '__getitem__', {'self': C, 'key': 'int'}, returns=('nd1', 'bool'), nocall=True, shared=True, props=('C01',), raises=[('IndexError', lambda S: Or(S.key >= S.self._objects.n, S.key < -S.self._objects.n))],
             ensures=lambda S: [('one cell per attribute', S.result.n == S.self._attributes.n), ('the row', all_i(S, S.result.n, lambda j: S.result[j] == T(S)[If(S.key < 0, S.key + S.self._objects.n, S.key), j], S.result))]),
    Contract(X + 'get_table', {'self': C}, returns=('nd2', 'bool'), nocall=True, shared=True, props=('C01',), ensures=lambda S: [('the table', And(S.result.n == T(S).n, S.result.m == T(S).m)), ('cells', S.forall(INT2, lambda i, j: S.result[i, j] == T(S)[i, j], lambda i, j: S.result[i, j]))]),
    Contract(X + 'get_objects', {'self': C}, returns=('list', 'V'), nocall=True, shared=True, props=('C01',), ensures=lambda S: [('the objects', eq_lists(S, S.result, S.self._objects))]),
    Contract(X + 'get_attributes', {'self': C}, returns=('list', 'V'), nocall=True, shared=True, props=('C01',), ensures=lambda S: [('the attributes', eq_lists(S, S.result, S.self._attributes))]),
]
