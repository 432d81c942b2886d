"""Contracts for the construction and the edits of a context (C01, C02)."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem, card
from engine.contract import Contract, LoopC, Fn, Lit, Inst, Either
from engine.core import *
from engine.views import ListView, view
from .ctxdef import *

X = 'fca/context.py:Context.'
NEW = Inst('Context', empty=True)
INT2 = [IntSort(), IntSort()]


def unique(S, a, i):
    """the value at position i occurs once"""
    return S.forall([IntSort()], lambda j: Implies(And(0 <= j, j < a.n, j != i), a[j] != a[i]), lambda j: a[j])


def others_differ(S, a, p):
    """every position satisfying p holds a value that occurs once"""
    return S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < a.n, p(i), 0 <= j, j < a.n, j != i), a[j] != a[i]), lambda i, j: MultiPattern(a[i], a[j]))


def rename_loops(lst, src):
    """the loops that make repeated names distinct"""
    def outer(S):
        a, o = getattr(S, lst), getattr(S, src)
        return [('size', a.n == o.n),
                ('names before are distinct', others_differ(S, a, lambda i: i < S.k)),
                ('names that occur once stay', S.forall([IntSort()], lambda i: Implies(And(0 <= i, i < o.n, unique(S, o, i)), a[i] == o[i]), lambda i: a[i])),
                ('changed names are distinct', S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < a.n, a[i] != o[i], 0 <= j, j < a.n, j != i), a[j] != a[i]), lambda i, j: MultiPattern(a[i], a[j])))]

    def inner(S):
        a, e, ix = getattr(S, lst), getattr(S.entry, lst), S.indices
        return [('size', a.n == e.n),
                ('the others stay', S.forall([IntSort()], lambda p: Implies(And(0 <= p, p < a.n, Not(ix.set[p])), a[p] == e[p]), lambda p: a[p])),
                ('changed so far are distinct', S.forall(INT2, lambda s, j: Implies(And(0 <= s, s < S.k, 0 <= j, j < a.n, j != ix[s]), a[j] != a[ix[s]]), lambda s, j: MultiPattern(ix[s], a[j]))),
                ('the rest is still the same name', S.forall([IntSort()], lambda s: Implies(And(S.k <= s, s < ix.n), a[ix[s]] == e[ix[s]]), lambda s: ix[s]))]
    return LoopC(outer), LoopC(inner)


def truth(x):
    return x if is_bool(x) else x != 0


def init(variant, ct, cell, rown, truth=truth):
    def shape(S):
        t = S.cross_table
        return Or(t.n != S.objects.n, And(t.n != 0, rown(t, I(0)) != S.attributes.n))

    def ragged(S):
        t = S.cross_table
        return S.exists([IntSort()], lambda i: And(0 <= i, i < t.n, rown(t, i) != S.attributes.n))

    def ens(S):
        out = []
        for f, src in (('_objects', 'objects'), ('_attributes', 'attributes')):
            a, o = getattr(S.self, f), getattr(S, src)
            out += [(f + ': number of names', a.n == o.n),
                    (f + ': names that occur once are kept', S.forall([IntSort()], lambda i: Implies(And(0 <= i, i < o.n, unique(S, o, i)), a[i] == o[i]), lambda i: a[i])),
                    (f + ': distinct names are kept', Implies(L.dist(o.arr, I(0), o.n), S.forall([IntSort()], lambda i: Implies(And(0 <= i, i < o.n), a[i] == o[i]), lambda i: [a[i], o[i]])))]
        t = S.cross_table
        out.append(('cells', S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < t.n, 0 <= j, j < S.attributes.n), S.self.np_table[i, j] == truth(cell(t, i, j))), lambda i, j: S.self.np_table[i, j])))
        return out
    oa, ia = rename_loops('_attributes', 'attributes')
    oo, io = rename_loops('_objects', 'objects')
    return Contract(X + '__init__', {'self': NEW, 'cross_table': ct, 'objects': ('list', 'V'), 'attributes': ('list', 'V')}, variant=variant,
                    raises=[('ValueError', shape), ('ValueError', ragged, True)] if ct[0] != 'nd2' else [('ValueError', shape)], ensures=ens, rebinds=('self',), props=('C01', 'C02'),
                    loops={0: oa, 1: ia, 2: LoopC(), 3: oo, 4: io, 5: LoopC()})


def lcell(T, i, j):
    return L.list_a(T[i])[j]


def lrow(T, i):
    return L.list_n(T[i])


contracts = [init('bool lists', ('list', ('list', 'bool')), lcell, lrow),
             init('int lists', ('list', ('list', 'int')), lcell, lrow),
             init('table', ('nd2', 'bool'), lambda T, i, j: T[i, j], lambda T, i: T.m)]

# ---------------------------------------------------------------- edits
C = Inst('Context', exact=True)
LB = {'bool': ('list', 'bool'), 'int': ('list', 'int')}


def within(i, n):
    return And(0 <= i, i < n)


def objs(S):
    return S.self._objects.set


def atts(S):
    return S.self._attributes.set


def all_i(S, n, f, *pats):
    return S.forall([IntSort()], lambda i: Implies(within(i, n), f(i)), lambda i: [p[i] for p in pats])


def cells(S, n, m, f):
    t = S.self.np_table
    return S.forall(INT2, lambda i, j: Implies(And(within(i, n), within(j, m)), t[i, j] == f(i, j)), lambda i, j: t[i, j])


def same_names(S, f):
    a, o = getattr(S.self, f), getattr(S.old.self, f)
    return [('%s: as many names' % f[1:], a.n == o.n), ('%s: same names' % f[1:], all_i(S, o.n, lambda i: a[i] == o[i], a, o))]


def one_more(S, f, x):
    """the names with x appended; repeated names are made distinct"""
    a, o = getattr(S.self, f), getattr(S.old.self, f)
    free = Not(o.set[x])
    return [('%s: one more' % f[1:], a.n == o.n + 1),
            ('%s: the others keep their names' % f[1:], all_i(S, o.n, lambda i: Implies(o[i] != x, a[i] == o[i]), a, o)),
            ('%s: the new one has the given name if it is free' % f[1:], Implies(free, a[o.n] == x))]


def one_less(S, f, k):
    a, o = getattr(S.self, f), getattr(S.old.self, f)
    return [('%s: one less' % f[1:], a.n == o.n - 1), ('%s: the others stay in order' % f[1:], all_i(S, a.n, lambda i: a[i] == If(i < k, o[i], o[i + 1]), a)),
            ('%s: the others by position' % f[1:], S.forall([IntSort()], lambda i: Implies(And(within(i, o.n), i != k), o[i] == a[If(i < k, i, i - 1)]), lambda i: o[i])),
            ('%s: the names left' % f[1:], S.forall([V], lambda v: a.set[v] == And(o.set[v], v != o[k]), lambda v: [a.set[v], o.set[v]]))]


def dims(S):
    t = S.old.self.np_table
    return t, t.n, t.m


def add_object(S, val):
    t, n, m = dims(S)
    return [one_more(S, '_objects', S.obj_name), same_names(S, '_attributes'), ('old cells', cells(S, n, m, lambda i, j: t[i, j])),
            ('the new row', all_i(S, m, lambda j: S.self.np_table[n, j] == val(j), Row(S.self.np_table, n)))]


class Row:
    def __init__(self, t, i):
        self.t, self.i = t, i

    def __getitem__(self, j):
        return self.t[self.i, j]


class Col(Row):
    def __getitem__(self, i):
        return self.t[i, self.i]


def add_attribute(S, val):
    t, n, m = dims(S)
    return [one_more(S, '_attributes', S.attr_name), same_names(S, '_objects'), ('old cells', cells(S, n, m, lambda i, j: t[i, j])),
            ('the new column', all_i(S, n, lambda i: S.self.np_table[i, m] == val(i), Col(S.self.np_table, m)))]


def set_row(S):
    t, n, m = dims(S)
    k = S.old.self.object_indices[S.name]
    return [same_names(S, '_objects'), same_names(S, '_attributes'), ('cells', cells(S, n, m, lambda i, j: If(i == k, S.intent[S.old.self._attributes[j]], t[i, j])))]


def set_col(S):
    t, n, m = dims(S)
    k = S.old.self.attribute_indices[S.name]
    return [same_names(S, '_objects'), same_names(S, '_attributes'), ('cells', cells(S, n, m, lambda i, j: If(j == k, S.extent[S.old.self._objects[i]], t[i, j])))]


def rename(S, f, g, ix):
    t, n, m = dims(S)
    a, o = getattr(S.self, f), getattr(S.old.self, f)
    k = getattr(S.old.self, ix)[S.old_name]
    return [same_names(S, g), ('cells', cells(S, n, m, lambda i, j: t[i, j])), ('as many names', a.n == o.n),
            ('the others keep their names', all_i(S, o.n, lambda i: Implies(And(i != k, o[i] != S.name), a[i] == o[i]), a, o)),
            ('the new name if it is free', Implies(Not(L.remove(o.set, S.old_name)[S.name]), a[k] == S.name))]


def mark_loop(new):
    def inv(S):
        r = getattr(S, new)
        return [('size', r.n == getattr(S.entry, new).n), ('marked so far', all_i(S, r.n, lambda j: r[j] == S.seen[j], r))]
    return LoopC(inv)


def edit(q, params, ens, raises, variant='', loops=None):
    return Contract(X + q, dict({'self': C}, **params), ensures=ens, raises=raises, modifies=('self',), variant=variant, props=('C01', 'C02'), loops=loops)


for v, ty in LB.items():
    contracts += [edit('add_object', {'row': ty, 'obj_name': 'V'}, lambda S: add_object(S, lambda j: truth(S.row[j])), [('ValueError', lambda S: S.row.n != S.self._attributes.n)], v),
                  edit('add_attribute', {'col': ty, 'attr_name': 'V'}, lambda S: add_attribute(S, lambda i: truth(S.col[i])), [('ValueError', lambda S: S.col.n != S.self._objects.n)], v)]
contracts += [edit('add_object_with_intent', {'intent': ('set', 'V'), 'obj_name': 'V'}, lambda S: add_object(S, lambda j: S.intent[S.old.self._attributes[j]]), []),
              edit('add_attribute_with_extent', {'extent': ('set', 'V'), 'attr_name': 'V'}, lambda S: add_attribute(S, lambda i: S.extent[S.old.self._objects[i]]), []),
              edit('set_object_intent', {'intent': ('set', 'V'), 'name': 'V'}, set_row, [('KeyError', lambda S: Or(Not(objs(S)[S.name]), Not(sub(S.intent, atts(S)))))], loops={0: mark_loop('new_row')}),
              edit('set_attribute_extent', {'extent': ('set', 'V'), 'name': 'V'}, set_col, [('KeyError', lambda S: Or(Not(atts(S)[S.name]), Not(sub(S.extent, objs(S)))))], loops={0: mark_loop('new_column')}),
              edit('delete_object', {'name': 'V'}, lambda S: [one_less(S, '_objects', S.old.self.object_indices[S.name]), same_names(S, '_attributes'),
                   ('cells', cells(S, dims(S)[1] - 1, dims(S)[2], lambda i, j: If(i < S.old.self.object_indices[S.name], dims(S)[0][i, j], dims(S)[0][i + 1, j])))],
                   [('KeyError', lambda S: Not(objs(S)[S.name]))]),
              edit('delete_attribute', {'name': 'V'}, lambda S: [one_less(S, '_attributes', S.old.self.attribute_indices[S.name]), same_names(S, '_objects'),
                   ('cells', cells(S, dims(S)[1], dims(S)[2] - 1, lambda i, j: If(j < S.old.self.attribute_indices[S.name], dims(S)[0][i, j], dims(S)[0][i, j + 1])))],
                   [('KeyError', lambda S: Not(atts(S)[S.name]))]),
              edit('rename_object', {'old_name': 'V', 'name': 'V'}, lambda S: rename(S, '_objects', '_attributes', 'object_indices'), [('KeyError', lambda S: Not(objs(S)[S.old_name]))]),
              edit('rename_attribute', {'old_name': 'V', 'name': 'V'}, lambda S: rename(S, '_attributes', '_objects', 'attribute_indices'), [('KeyError', lambda S: Not(atts(S)[S.old_name]))]),
              ]

# ---------------------------------------------------------------- several attributes, empty rows
def sublist(S, f, ix, keep):
    """the names satisfying keep, in their old order"""
    a, o = getattr(S.self, f), getattr(S.old.self, f)
    p = getattr(S.old.self, ix)
    return [('%s: the names kept' % f[1:], S.forall([V], lambda v: a.set[v] == And(o.set[v], keep(v)), lambda v: [a.set[v], o.set[v]])),
            ('%s: the others stay in order' % f[1:], S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < j, j < a.n), p[a[i]] < p[a[j]]), lambda i, j: MultiPattern(a[i], a[j])))]


def del_loop(S):
    a, o, D = S.self._attributes, S.entry.self._attributes, S.seen
    m = o.n
    return [('all positions in the end', Implies(S.k == S.n, D == S.att_inds.set)),
            ('number of names left', a.n == L.kept(D, m)),
            ('names left', S.forall([IntSort()], lambda i: Implies(And(within(i, m), Not(D[i])), a[L.kept(D, i)] == o[i]), lambda i: o[i]))]


def next_seen(S):
    s = view(S._it, S._seq.src)
    return [('the elements seen', s.sub(I(0), S.k + 1) == L.add(S.seen, s[S.k]))]


def after_del(S):
    a, o, D = S.self._attributes, S.old.self._attributes, S.seen
    pk = L.pick_f()
    ix = S.old.self.attribute_indices
    return [('positions of the names', S.forall([IntSort()], lambda i: Implies(within(i, o.n), D[i] == S.names.set[o[i]]), lambda i: [D[i], o[i]])),
            ('names left by position', S.forall([IntSort()], lambda p: Implies(within(p, a.n), And(within(pk(D, p), o.n), Not(D[pk(D, p)]), L.kept(D, pk(D, p)) == p, a[p] == o[pk(D, p)], ix[a[p]] == pk(D, p), o.set[a[p]])),
                                                lambda p: [a[p], pk(D, p)])),
            ('names left are in the list', S.forall([IntSort()], lambda i: Implies(And(within(i, o.n), Not(D[i])), And(within(L.kept(D, i), a.n), a[L.kept(D, i)] == o[i])), lambda i: o[i]))]


names_left = edit('delete_attributes', {'names': ('list', 'V')}, lambda S: [
    sublist(S, '_attributes', 'attribute_indices', lambda v: Not(S.names.set[v])), same_names(S, '_objects'),
    ('cells', cells(S, dims(S)[1], S.self._attributes.n, lambda i, j: dims(S)[0][i, S.old.self.attribute_indices[S.self._attributes[j]]]))],
    [('KeyError', lambda S: Not(sub(S.names.set, atts(S))))], loops={0: LoopC(lambda S: del_loop(S), at_body=next_seen, after=after_del)})
contracts.append(names_left)
