"""Contracts for partial contexts (C14)."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem, card
from engine.contract import Contract, LoopC, Fn, Lit, Inst, Either, Opaque
from engine.core import *
from engine.views import SHAPES, ListView, view
from .ctxdef import *
from .ctxdef import wf as ctx_wf
from .ctxnew import INT2, within, all_i, Row
from .ctxalg import same_list, table_is, rows_loop, row_loop
from .closure import cl, LI

X = 'fca/partial_context.py:PartialContext.'
Q = 'fca/compare_context.py:'
P = ('C14',)
CE = Inst('Context', exact=True)
TAB = ('list', ('list', 'bool'))


def lcell(T, i, j):
    return L.list_a(T[i])[j] if isinstance(T, ListView) else T[i, j]


def lrow(T, i):
    return L.list_n(T[i]) if isinstance(T, ListView) else T.m


def rect(S, t):
    return BoolVal(True) if not isinstance(t, ListView) else S.forall([IntSort()], lambda i: Implies(within(i, t.n), lrow(t, i) == lrow(t, I(0))), lambda i: t[i])


def different(a, b):
    return Or(a.n != b.n, And(a.n != 0, lrow(a, I(0)) != lrow(b, I(0))))


def below(S, a, b, n, m):
    return S.forall(INT2, lambda i, j: Implies(And(within(i, n), within(j, m)), Implies(lcell(a, i, j), lcell(b, i, j))), lambda i, j: [lcell(a, i, j), lcell(b, i, j)])


def bwidth(t):
    return If(t.n == 0, I(0), lrow(t, I(0)))


def seen_cells(S):
    a, b = S.table_left, S.table_right
    n = a.n
    d, r = L.idiv(S.k, n), L.imod(S.k, n)
    return [('cells seen', S.forall(INT2, lambda i, j: Implies(And(within(i, n), within(j, bwidth(a)), Or(j < d, And(j == d, i < r))), Implies(lcell(a, i, j), lcell(b, i, j))), lambda i, j: [lcell(a, i, j), lcell(b, i, j)]))]


def inv(w):
    it = w._it
    x, q = w.x_context, w.q_context
    out = [('certain: ' + l, f) for l, f in ctx_wf(x)] + [('possible: ' + l, f) for l, f in ctx_wf(q)]
    for nm, f in (('objects', '_objects'), ('attributes', '_attributes')):
        o, a, b = getattr(w, nm), getattr(x, f), getattr(q, f)
        out += [('%s: as many' % nm, And(a.n == o.n, b.n == o.n)),
                ('%s: the same names' % nm, it.forall([IntSort()], lambda i: Implies(within(i, o.n), And(a[i] == o[i], b[i] == o[i])), lambda i: [o[i], a[i], b[i]]))]
    return out + [('certain within possible', it.forall(INT2, lambda i, j: Implies(And(within(i, x.np_table.n), within(j, x.np_table.m)), Implies(x.np_table[i, j], q.np_table[i, j])), lambda i, j: [x.np_table[i, j], q.np_table[i, j]]))]


SHAPES['PartialContext'] = {'fields': {'objects': ('list', 'V'), 'attributes': ('list', 'V'), 'x_context': CE, 'q_context': CE}, 'inv': inv}
PC = Inst('PartialContext')
PE = Inst('PartialContext', exact=True)
NEW = Inst('PartialContext', empty=True)
SV = ('set', 'V')


def xc(S):
    return ctx(S.self.x_context)


def qc(S):
    return ctx(S.self.q_context)


def same_shape(S, a, b, lab=''):
    return [same_list(S, a.objects, b.objects, lab + 'objects'), same_list(S, a.attributes, b.attributes, lab + 'attributes')]


def tables(S, w, n, m, x, q):
    return [table_is(S, w.x_context.np_table, n, m, x, 'certain cells'), table_is(S, w.q_context.np_table, n, m, q, 'possible cells')]


def tr_rows(lst, t):
    return rows_loop(lst, lambda S: S.self.objects.n, lambda S, i, j: t(S)[j, i]).inv


def both(*fs):
    return lambda S: [x for f in fs for x in f(S)]


XT, QT = (lambda S: S.self.x_context.np_table), (lambda S: S.self.q_context.np_table)
ROWS = ('list', ('list', 'bool'))

contracts = []
for v, t in (('lists', TAB), ('array', ('nd2', 'bool'))):
    contracts += [
        Contract(Q + 'subseteq_table', {'table_left': t, 'table_right': t}, returns='bool', props=P, variant=v,
                 requires=lambda S: [('rows of equal length', And(rect(S, S.table_left), rect(S, S.table_right)))],
                 raises=[('ValueError', lambda S: different(S.table_left, S.table_right))],
                 ensures=lambda S: [('inclusion', S.result == below(S, S.table_left, S.table_right, S.table_left.n, bwidth(S.table_left)))],
                 loops={0: LoopC(seen_cells)}),
        Contract(X + '__init__', {'self': NEW, 'x_table': t, 'q_table': t, 'objects': ('list', 'V'), 'attributes': ('list', 'V')}, rebinds=('self',), props=P, variant=v,
                 requires=lambda S: [('rows of equal length', And(rect(S, S.x_table), rect(S, S.q_table))), ('distinct names', And(L.dist(S.objects.arr, I(0), S.objects.n), L.dist(S.attributes.arr, I(0), S.attributes.n)))],
                 raises=[('ValueError', lambda S: different(S.x_table, S.q_table)), ('ValueError', lambda S: Not(below(S, S.x_table, S.q_table, S.x_table.n, bwidth(S.x_table)))),
                         ('ValueError', lambda S: Or(S.x_table.n != S.objects.n, And(S.x_table.n != 0, bwidth(S.x_table) != S.attributes.n)), True)],
                 ensures=lambda S: [same_shape(S, S.self, S), tables(S, S.self, S.objects.n, S.attributes.n, lambda i, j: lcell(S.x_table, i, j), lambda i, j: lcell(S.q_table, i, j))])]

contracts += [
    Contract(X + '__deepcopy__', {'self': PC, 'memo': ('dict', 'V', 'int')}, returns=PE, props=P,
             ensures=lambda S: [same_shape(S, S.result, S.self), tables(S, S.result, XT(S).n, XT(S).m, lambda i, j: XT(S)[i, j], lambda i, j: QT(S)[i, j])]),
    Contract(X + 'transpose', {'self': PC}, returns=PE, props=P,
             requires=lambda S: [('not empty', S.self.objects.n > 0)],
             ensures=lambda S: [same_list(S, S.result.objects, S.self.attributes, 'objects'), same_list(S, S.result.attributes, S.self.objects, 'attributes'),
                                tables(S, S.result, XT(S).m, XT(S).n, lambda i, j: XT(S)[j, i], lambda i, j: QT(S)[j, i])],
             loops={0: LoopC(both(tr_rows('new_x_table', XT), tr_rows('new_q_table', QT)), types={'new_x_table': ROWS, 'new_q_table': ROWS}),
                    1: LoopC(both(row_loop('x_line', lambda S, i: XT(S)[i, S.j]).inv, row_loop('q_line', lambda S, i: QT(S)[i, S.j]).inv), types={'x_line': ('list', 'bool'), 'q_line': ('list', 'bool')})}),
    Contract(X + 'xq_aclosure', {'self': PC, 'aset': SV}, returns=SV, props=P, raises=[('KeyError', lambda S: Not(sub(S.aset, atts(xc(S)))))],
             ensures=lambda S: [('attributes possible for all objects certainly having the set', S.result == OPRIME(qc(S), APRIME(xc(S), S.aset)))]),
    Contract(X + '_intent_to_str', {'self': PC, 'xintent': SV, 'qintent': SV}, returns='V', props=P, loops={0: LoopC(types={'line': 'V'})}),
    Contract(X + 'intents', {'self': PC}, returns=('list', ('tuple', SV, SV)), props=P,
             ensures=lambda S: [('one pair per object', S.result.n == S.self.objects.n),
                                ('certain and possible intents', all_i(S, S.result.n, lambda i: And(L.proj(S.result[i], 0) == ROW(xc(S), i), L.proj(S.result[i], 1) == ROW(qc(S), i)), S.result))],
             loops={0: LoopC(lambda S: [('one per object', S.yielded.n == S.k), ('pairs', all_i(S, S.k, lambda i: And(L.proj(S.yielded[i], 0) == ROW(xc(S), i), L.proj(S.yielded[i], 1) == ROW(qc(S), i)), S.yielded))])}),
    Contract(X + 'add_object_with_intent', {'self': PC, 'intent': ('tup', SV, SV), 'name': 'V'}, modifies=('self',), props=P,
             requires=lambda S: [('a new name', Not(mem(S.name, S.self.objects.set)))],
             raises=[('ValueError', lambda S: Not(sub(S.intent[0], S.intent[1])))],
             ensures=lambda S: [('one more object', And(S.self.objects.n == S.old.self.objects.n + 1, S.self.objects[S.old.self.objects.n] == S.name)),
                                ('the others keep their names', all_i(S, S.old.self.objects.n, lambda i: S.self.objects[i] == S.old.self.objects[i], S.self.objects, S.old.self.objects)),
                                same_list(S, S.self.attributes, S.old.self.attributes, 'attributes'),
                                tables(S, S.self, XT(S).n, XT(S).m, lambda i, j: If(i < XT(S.old).n, XT(S.old)[i, j], S.intent[0][S.old.self.attributes[j]]), lambda i, j: If(i < XT(S.old).n, QT(S.old)[i, j], S.intent[1][S.old.self.attributes[j]]))]),
]


def new_x(S, i):
    return cl(S, S.implications, ROW(ctx(S.old.self.x_context), i))


def new_q(S, i, m):
    q = ROW(ctx(S.old.self.q_context), i)
    return And(q[m], sub(cl(S, S.implications, L.add(new_x(S, i), m)), q))


def same_ctx_names(S, c):
    a, b = getattr(S.self, c), getattr(S.old.self, c)
    return [same_list(S, a._objects, b._objects, c + ' objects'), same_list(S, a._attributes, b._attributes, c + ' attributes')]


def completing(S):
    x, q, ox, oq = XT(S), QT(S), XT(S.old), QT(S.old)
    at = S.old.self.attributes
    return same_ctx_names(S, 'x_context') + same_ctx_names(S, 'q_context') + [
        table_is(S, x, ox.n, ox.m, lambda i, j: If(i < S.k, new_x(S, i)[at[j]], ox[i, j]), 'certain so far'),
        table_is(S, q, ox.n, ox.m, lambda i, j: If(i < S.k, new_q(S, i, at[j]), oq[i, j]), 'possible so far'),
        ('completed so far', S.forall([IntSort()], lambda i: Implies(within(i, S.k), sub(new_x(S, i), ROW(qc(S.old), i))), lambda i: [ROW(xc(S.old), i), ROW(qc(S.old), i), S.self.objects[i]])),
        ('certain stays possible', S.forall([IntSort(), V], lambda i, m: Implies(And(within(i, S.k), mem(m, new_x(S, i))), new_q(S, i, m)), lambda i, m: mem(m, new_x(S, i))))]


def the_row(S):
    k, o = S.k, S.o
    hx, hq, x, q = xc(S), qc(S), xc(S.old), qc(S.old)
    return [('names', And(objs(hx) == objs(x), atts(hx) == atts(x), objs(hq) == objs(q), atts(hq) == atts(q), atts(hq) == atts(x), objs(hq) == objs(x))),
            ('the object', And(o == S.old.self.objects[k], oi(hx, o) == k, oi(hq, o) == k)),
            ('places', S.forall([V], lambda m: Implies(atts(x)[m], And(ai(hx, m) == ai(x, m), ai(hq, m) == ai(x, m), ai(q, m) == ai(x, m), within(ai(x, m), cm(x)), S.old.self.attributes[ai(x, m)] == m)), lambda m: atts(x)[m])),
            ('certain row', S.forall([V], lambda m: INTENT(hx, o)[m] == ROW(x, k)[m], lambda m: [INTENT(hx, o)[m], ROW(x, k)[m]])), ('certain row is the old one', INTENT(hx, o) == ROW(x, k)),
            ('possible row', S.forall([V], lambda m: INTENT(hq, o)[m] == ROW(q, k)[m], lambda m: [INTENT(hq, o)[m], ROW(q, k)[m]])), ('possible row is the old one', INTENT(hq, o) == ROW(q, k))]


def the_new_row(S):
    x, k = new_x(S, S.k), S.k
    return [('new certain row', S.new_xintent == x), ('completed', sub(x, ROW(qc(S.old), k))),
            ('closed', cl(S, S.implications, x) == x),
            ('nothing new', S.forall([V], lambda m: Implies(mem(m, x), L.add(x, m) == x), lambda m: mem(m, x))),
            ('certain is possible', S.forall([V], lambda m: Implies(mem(m, x), new_q(S, k, m)), lambda m: mem(m, x))),
            ('possible before', S.qintent == ROW(qc(S.old), k)),
            ('certain ones stay', S.forall([V], lambda m: Implies(mem(m, x), sub(cl(S, S.implications, L.add(x, m)), ROW(qc(S.old), k))), lambda m: mem(m, x))),
            ('what the loop keeps', S.forall([V], lambda m: mem(m, S.new_qintent) == And(mem(m, S.qintent), Or(mem(m, S.new_xintent), sub(cl(S, S.implications, L.add(S.new_xintent, m)), S.qintent))), lambda m: mem(m, S.new_qintent))),
            ('what stays possible', S.forall([V], lambda m: Implies(mem(m, S.new_qintent), new_q(S, k, m)), lambda m: mem(m, S.new_qintent))),
            ('all of it stays', S.forall([V], lambda m: Implies(new_q(S, k, m), mem(m, S.new_qintent)), lambda m: cl(S, S.implications, L.add(x, m)))),
            ('new possible row', S.forall([V], lambda m: mem(m, S.new_qintent) == new_q(S, k, m), lambda m: mem(m, S.new_qintent)))]


contracts += [
    Contract(X + 'complete', {'self': PC, 'implications': LI}, modifies=('self',), props=P,
             raises=[('ValueError', lambda S: S.exists([IntSort()], lambda i: And(within(i, S.self.objects.n), Not(sub(cl(S, S.implications, ROW(xc(S), i)), ROW(qc(S), i))))), True)],
             ensures=lambda S: same_shape(S, S.self, S.old.self) + tables(S, S.self, XT(S.old).n, XT(S.old).m, lambda i, j: new_x(S, i)[S.old.self.attributes[j]], lambda i, j: new_q(S, i, S.old.self.attributes[j])),
             loops={0: LoopC(completing, at_body=the_row, at_end=the_new_row)}),
]
