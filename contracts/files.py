"""Contexts written to and read from text files (C17).  A path is the list of the lines of the file."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem, card
from engine.contract import Contract, LoopC, Lit, Inst
from engine.core import *
from engine.files import *
from . import mvals
from .ctxdef import *
from .ctxnew import within, all_i, INT2
from .ctxalg import Fun, names_of, table_is, rows_loop, row_loop, C, CE

P17 = ('C17',)
M = 'fca/readwrite/cxt.py:'
LINES = ('list', 'V')
Q = [IntSort()]


def name_read(t):
    return If(And(LITERAL(t), HASHABLE(LITVAL(t))), LITVAL(t), t)


def sizes(S, c='context'):
    c = getattr(S, c)
    return c._objects.n, c._attributes.n


def line(S, p, lo, n, f):
    """lines lo .. lo+n of p"""
    return S.forall(Q, lambda q: Implies(And(lo <= q, q < lo + n), f(p[q], q - lo)), lambda q: p[q])


def is_row(S, p, lo, n, m, t):
    """lines lo .. lo+n are the rows of a table: crosses and points"""
    return [line(S, p, lo, n, lambda x, i: And(SLEN(x) == m, STRIP(x) == x, LF(x))),
            S.forall(INT2, lambda q, j: Implies(And(lo <= q, q < lo + n, within(j, m)), CHAR(p[q], j) == If(t[q - lo, j], strconst('X'), strconst('.'))), lambda q, j: CHAR(p[q], j))]


def head(p, no, na):
    return And(p[0] == strconst('B'), p[1] == strconst(''), p[2] == STRI(no), p[3] == STRI(na), p[4] == strconst(''), STRIP(p[0]) == strconst('B'))


def written(text):
    """what is in the file after a number of names and rows"""
    def f(S, p, no, na, rows):
        c = S.context
        n, m = sizes(S)
        out = [('number of lines', p.n == 5 + no + na + rows), ('head', head(p, n, m)), ('objects', line(S, p, 5, no, lambda x, i: x == text(c._objects[i])))]
        if na is not None and not (is_int_value(na) and na.as_long() == 0):
            out.append(('attributes', line(S, p, 5 + n, na, lambda x, i: x == text(c._attributes[i]))))
        if not (is_int_value(rows) and rows.as_long() == 0):
            a, b = is_row(S, p, 5 + n + m, rows, m, c.np_table)
            out += [('rows as text', a), ('crosses', b)]
        return out
    return f


def writer(q, text, names):
    W = written(text)
    Z = IntVal(0)
    return Contract(M + q, {'context': Inst('Context', exact=True), 'path': LINES}, modifies=('path',), props=P17,
                    requires=lambda S: [('names of one line', S.forall([V], lambda v: Implies(Or(S.context._objects.set[v], S.context._attributes.set[v]), names(v)), lambda v: [S.context._objects.set[v], S.context._attributes.set[v]]))],
                    loops={0: LoopC(lambda S: W(S, S.path, S.k, Z, Z)), 1: LoopC(lambda S: W(S, S.path, sizes(S)[0], S.k, Z)), 2: LoopC(lambda S: W(S, S.path, sizes(S)[0], sizes(S)[1], S.k))},
                    ensures=lambda S: W(S, S.path, sizes(S)[0], sizes(S)[1], sizes(S)[0]))


contracts = [writer('write_cxt', STRV, lambda v: And(LF(STRV(v)), ATOM(v))), writer('uwrite_cxt', lambda v: v, lambda v: And(TEXT(v), LF(v)))]


def reader(q, name):
    no = lambda S: INTOF(STRIP(S.path[2]))
    na = lambda S: INTOF(STRIP(S.path[3]))
    bad = lambda S: Or(S.path.n == 0, STRIP(S.path[0]) != strconst('B'))
    st = lambda S, q: STRIP(S.path[q])

    def fmt(S):
        p, n, m = S.path, no(S), na(S)
        return Implies(Not(bad(S)), And(p.n >= 5 + 2 * n + m, n >= 0, m >= 0, ISINT(STRIP(p[2])), ISINT(STRIP(p[3])), S.forall(Q, lambda q: Implies(And(5 + n + m <= q, q < 5 + n + m + n), SLEN(st(S, q)) == m), lambda q: p[q])))

    def ens(S):
        n, m = no(S), na(S)
        return names_at(S, S.result._objects, 5, n, 'objects') + names_at(S, S.result._attributes, 5 + n, m, 'attributes') + \
            [('size of the table', And(S.result.np_table.n == n, S.result.np_table.m == m)), table_is(S, S.result.np_table, n, m, lambda i, j: CHAR(st(S, 5 + n + m + i), j) == strconst('X'))]

    def once(S, lo, n, i):
        return S.forall(Q, lambda q: Implies(And(lo <= q, q < lo + n, q != lo + i), name(st(S, q)) != name(st(S, lo + i))), lambda q: S.path[q])

    def names_at(S, a, lo, n, lab):
        return [(lab + ': as many', a.n == n), (lab + ': names', S.forall(Q, lambda i: Implies(And(within(i, n), once(S, lo, n, i)), a[i] == name(st(S, lo + i))), lambda i: a[i]))]

    def listed(S):
        out = []
        for f, lo in (('objects', 5), ('attributes', 5 + no(S))):
            l = S.local(f)
            out += [(f + ' by position', all_i(S, l.n, lambda i: l[i] == name(st(S, lo + i)), l)),
                    (f + ' once in the file', S.forall(Q, lambda i: Implies(And(within(i, l.n), once(S, lo, l.n, i)),
                                                                          S.forall(Q, lambda j: Implies(And(within(j, l.n), j != i), l[j] != l[i]), lambda j: l[j])), lambda i: l[i]))]
        return out

    def names_so_far(var, lo):
        def inv(S):
            l = getattr(S, var)
            return [('names so far', And(l.n == S.k, all_i(S, S.k, lambda i: l[i] == name(st(S, lo(S) + i)), l))), ('lines read', S._it.content(S.raw('input_file')).pos == lo(S) + S.k)]
        return LoopC(inv, types={var: ('list', 'V')})

    def rows(S):
        r = S.table
        lo = 5 + no(S) + na(S)
        return [('rows so far', r.n == S.k), ('lengths', all_i(S, S.k, lambda i: L.list_n(r[i]) == na(S), r)), ('lines read', S._it.content(S.raw('input_file')).pos == lo + S.k),
                ('crosses so far', S.forall(INT2, lambda i, j: Implies(And(within(i, S.k), within(j, na(S))), L.list_a(r[i])[j] == (CHAR(st(S, lo + i), j) == strconst('X'))), lambda i, j: L.list_a(r[i])[j]))]
    table = LoopC(rows, types={'table': ('list', ('list', 'bool'))})
    loops = {0: names_so_far('objects', lambda S: 5), 1: names_so_far('attributes', lambda S: 5 + no(S)), 2: table} if q == 'read_cxt' else {0: table}
    return Contract(M + q, {'path': LINES}, returns=CE, props=P17, requires=lambda S: [('format', fmt(S))], raises=[('AssertionError', bad)], ensures=ens, loops=loops, exit_lemmas=listed)


contracts += [reader('read_cxt', name_read), reader('uread_cxt', lambda t: t)]


def round_trip(q, w, r, names):
    def ens(S):
        a, b = S.result, S.context
        out = []
        for lab in ('_objects', '_attributes'):
            x, y = getattr(a, lab), getattr(b, lab)
            out += [(lab[1:] + ': as many', x.n == y.n), (lab[1:], S.forall(Q, lambda i: Implies(within(i, y.n), x[i] == y[i]), lambda i: [x[i], y[i]]))]
        n, m = sizes(S)
        return out + [table_is(S, a.np_table, n, m, lambda i, j: b.np_table[i, j])]
    return Contract(M + q, {'context': Inst('Context', exact=True), 'path': LINES}, source='def lemma(context, path):\n    %s(context, path)\n    return %s(path)\n' % (w, r), returns=CE, nocall=True, props=P17, modifies=('path',),
                    requires=lambda S: [('names', S.forall([V], lambda v: Implies(Or(S.context._objects.set[v], S.context._attributes.set[v]), names(v)), lambda v: [S.context._objects.set[v], S.context._attributes.set[v]]))],
                    ensures=ens)


text = lambda v: And(TEXT(v), LF(v), STRIP(v) == v)
contracts += [round_trip('lemma_cxt', 'write_cxt', 'read_cxt', lambda v: Or(WHOLE(v), And(text(v), Not(LITERAL(v))))),
              round_trip('lemma_ucxt', 'uwrite_cxt', 'uread_cxt', text)]

# ---- tables with delimiters
TAB, COMMA = strconst('\t'), strconst(',')
MV = Inst('ManyValuedContext', exact=True)


def exactly(S, a, o, lab):
    return [(lab + ': as many', a.n == o.n), (lab + ': names', S.forall(Q, lambda i: Implies(within(i, o.n), a[i] == o[i]), lambda i: a[i]))]


def table_reader(q, sep, head, cell, ok, many, stripped=False, raises=()):
    """head: which lists the first lines give; then rows; named: the first value of a row is the name of the object"""
    M = 'fca/readwrite/%s.py:' % ('comma_separated' if sep is COMMA else 'tab_separated')
    R = lambda S, i: RECORD(S.path[i], sep)
    rn, ra = (lambda S, i: L.list_n(R(S, i))), (lambda S, i, k: L.list_a(R(S, i))[k])
    first = len(head) + (0 if sep is COMMA else 1)
    at = head.index('attributes')
    named = 'objects' not in head and q != 'read_txt'
    off = 1 if named else 0
    name = STRIP if stripped else (lambda v: v)
    m = lambda S: rn(S, at)
    n = lambda S: S.path.n - first

    def fmt(S):
        out = [('lines', S.path.n >= first + (0 if sep is COMMA else 1)), ('no quotes', S.forall(Q, lambda i: Implies(within(i, S.path.n), SIMPLE(S.path[i])), lambda i: S.path[i])),
               ('values in each row', S.forall(Q, lambda i: Implies(And(first <= i, i < S.path.n), rn(S, i) == m(S) + off), lambda i: S.path[i]))]
        if 'objects' in head:
            out.append(('names of objects', rn(S, head.index('objects')) == n(S)))
        if ok is not None:
            out.append(('values', S.forall(INT2, lambda i, j: Implies(And(first <= i, i < S.path.n, off <= j, j < off + m(S)), ok(ra(S, i, j))), lambda i, j: ra(S, i, j))))
        return out

    def obj(S, i):
        if 'objects' in head:
            return STRIP(ra(S, head.index('objects'), i))
        return name(ra(S, first + i, 0)) if named else strcat(strconst('g'), STRI(i + 1))

    def ens(S):
        r = S.result
        kept = names_of if named or 'objects' in head else exactly
        return kept(S, r._objects, Fun(n(S), lambda i: obj(S, i)), 'objects') + names_of(S, r._attributes, Fun(m(S), lambda j: STRIP(ra(S, at, j))), 'attributes') + \
            [('size of the table', And(r.np_table.n == n(S), r.np_table.m == m(S))), table_is(S, r.np_table, n(S), m(S), lambda i, j: cell(ra(S, first + i, off + j)))]

    def names(lab, i):
        def inv(S):
            l = getattr(S, lab)
            return [('names so far', And(l.n == S.k, all_i(S, S.k, lambda j: l[j] == STRIP(ra(S, i, j)), l)))]
        return LoopC(inv, types={lab: ('list', 'V')})

    def rows(S):
        r = S.table
        out = [('rows so far', r.n == S.k), ('lengths', all_i(S, S.k, lambda i: L.list_n(r[i]) == m(S), r)),
               ('values so far', S.forall(INT2, lambda i, j: Implies(And(within(i, S.k), within(j, m(S))), L.list_a(r[i])[j] == cell(ra(S, first + i, off + j))), lambda i, j: L.list_a(r[i])[j]))]
        if named:
            out += [('objects so far', And(S.objects.n == S.k, all_i(S, S.k, lambda i: S.objects[i] == obj(S, i), S.objects)))]
        return out

    def row(S):
        l = S.line
        o = S.outer(1)[0]
        return [('values of the row so far', And(l.n == S.k, all_i(S, S.k, lambda j: l[j] == cell(ra(S, first + o, off + j)), l)))]
    ety = 'V' if many else 'bool'
    types = {'table': ('list', ('list', ety))}
    if named:
        types['objects'] = ('list', 'V')
    loops = {i: names(lab, i) for i, lab in enumerate(head)}
    loops[len(head)] = LoopC(rows, types=types)
    loops[len(head) + 1] = LoopC(row, types={'line': ('list', ety)})
    return Contract(M + q, {'path': LINES}, returns=MV if many else CE, props=P17, requires=fmt, ensures=ens, loops=loops if q != 'read_csv' else {})


zero_one = lambda v: Or(v == strconst('0'), v == strconst('1'))
same = lambda v: v
contracts += [table_reader('read_txt_with_names', TAB, ['attributes'], lambda v: v == strconst('1'), zero_one, False),
              table_reader('read_txt', TAB, ['attributes'], lambda v: v == strconst('1'), zero_one, False),
              table_reader('read_mv_txt', TAB, ['objects', 'attributes'], same, None, True),
              table_reader('uread_mv_txt', TAB, ['objects', 'attributes'], same, None, True),
              table_reader('read_csv', COMMA, ['attributes'], lambda v: And(STRIP(v) != strconst(''), STRIP(v) != strconst('0')), None, False, stripped=True),
              table_reader('read_mv_csv', COMMA, ['attributes'], same, None, True, stripped=True)]


# ---- many-valued tables written and read
def joined(S, l, f):
    """the line of a record"""
    return lambda x: And(L.list_n(RECORD(x, TAB)) == l.n, SIMPLE(x), S.forall(Q, lambda k: Implies(within(k, l.n), L.list_a(RECORD(x, TAB))[k] == f(l[k])), lambda k: L.list_a(RECORD(x, TAB))[k]))


def values(S):
    """text that can be written in this format, as names and as values"""
    c = S.context
    n, m = sizes(S)
    name = lambda v: And(TEXT(v), PLAIN(v, TAB))
    return [('rows', And(n > 0, m > 0)), ('names', And(*[all_i(S, l.n, lambda i, l=l: And(name(l[i]), STRIP(l[i]) == l[i], l[i] != strconst('')), l) for l in (c._objects, c._attributes)])),
            ('values', S.forall(INT2, lambda i, j: Implies(And(within(i, n), within(j, m)), And(PLAIN(STRV(c.np_table[i, j]), TAB), Or(m > 1, STRV(c.np_table[i, j]) != strconst('')))), lambda i, j: c.np_table[i, j]))]


def table_written(S, k):
    c, p = S.context, S.path
    n, m = sizes(S)
    same = lambda v: v
    return [('number of lines', p.n == 3 + k), ('names of objects', joined(S, c._objects, same)(p[0])), ('names of attributes', joined(S, c._attributes, same)(p[1])), ('empty line', And(p[2] == strconst(''), SIMPLE(p[2]))),
            ('lengths', S.forall(Q, lambda q: Implies(And(3 <= q, q < 3 + k), And(L.list_n(RECORD(p[q], TAB)) == m, SIMPLE(p[q]))), lambda q: p[q])),
            ('values', S.forall(INT2, lambda q, j: Implies(And(3 <= q, q < 3 + k, within(j, m)), L.list_a(RECORD(p[q], TAB))[j] == STRV(c.np_table[q - 3, j])), lambda q, j: L.list_a(RECORD(p[q], TAB))[j]))]


def mv_round(S):
    a, b = S.result, S.context
    n, m = sizes(S)
    return exactly(S, a._objects, b._objects, 'objects') + exactly(S, a._attributes, b._attributes, 'attributes') + [table_is(S, a.np_table, n, m, lambda i, j: STRV(b.np_table[i, j]), 'values')]


M2 = 'fca/readwrite/tab_separated.py:'
for u in ('', 'u'):
    contracts.append(Contract(M2 + u + 'write_mv_txt', {'context': MV, 'path': LINES}, modifies=('path',), props=P17, requires=values, ensures=lambda S: table_written(S, sizes(S)[0]), loops={0: LoopC(lambda S: table_written(S, S.k))}))
    contracts.append(Contract(M2 + u + 'lemma_mv_txt', {'context': MV, 'path': LINES}, modifies=('path',), returns=MV, nocall=True, props=P17, requires=values, ensures=mv_round,
                              source='def lemma(context, path):\n    %swrite_mv_txt(context, path)\n    return %sread_mv_txt(path)\n' % (u, u)))
