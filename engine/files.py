"""Model of text files and of csv readers.  A path is the list of the lines of the file it names (without the line
ends); a file object is a position in it.  Writing text with line ends completes lines; other text that is written
must be shown to have none."""
import ast
from z3 import *
from . import logic as L
from .logic import V, mem
from .core import *

VN, IN = L.sname(V), L.sname(IntSort())
STRIP = Function('str.strip/' + VN, V, V)
STRI = Function('str/' + IN, IntSort(), V)
STRV = Function('str/' + VN, V, V)
EOL = Function('line_with_end', V, V)
LF = Function('no_line_break', V, BoolSort())
TEXT = Function('is_text', V, BoolSort())
ATOM = Function('is_no_tuple', V, BoolSort())     # '%s' % v takes a tuple apart
WHOLE = Function('is_whole_number', V, BoolSort())
ISINT = Function('reads_as_int', V, BoolSort())
INTOF = Function('int_read', V, IntSort())
LITERAL = Function('is_literal', V, BoolSort())
LITVAL = Function('literal_value', V, V)
HASHABLE = Function('has_hash', V, BoolSort())
SLEN = Function('str_len', V, IntSort())
CHAR = Function('str_char', V, IntSort(), V)
ONE = Function('one_visible_char', V, BoolSort())
LT, LLT = L.list_dt(V), None
JOIN = Function('str.join/%s_%s' % (VN, L.sname(L.list_dt(V))), V, L.list_dt(V), V)
PLAIN = Function('plain_in_csv', V, V, BoolSort())
RECORD = Function('csv_record', V, V, L.list_dt(V))
SIMPLE = Function('no_quotes', V, BoolSort())

_i = Int('i')
_v, _d = Consts('v d', V)
_l = Const('l', L.list_dt(V))
L.axiom('str/' + IN, 'text of an integer: reads as it, no spaces around, one line', ForAll([_i], And(INTOF(STRI(_i)) == _i, ISINT(STRI(_i)), LF(STRI(_i)), STRIP(STRI(_i)) == STRI(_i)), patterns=[STRI(_i)]))
L.axiom('str/' + VN, 'text of a text is that text', ForAll([_v], Implies(TEXT(_v), STRV(_v) == _v), patterns=[STRV(_v)]))
L.axiom('str/' + VN, 'text of a whole number is a literal for it, without spaces or line breaks', ForAll([_v], Implies(WHOLE(_v), And(LITERAL(STRV(_v)), LITVAL(STRV(_v)) == _v, HASHABLE(_v), LF(STRV(_v)), STRIP(STRV(_v)) == STRV(_v))), patterns=[STRV(_v)]))
L.axiom('is_no_tuple', 'texts and numbers are no tuples', ForAll([_v], Implies(Or(TEXT(_v), WHOLE(_v)), ATOM(_v)), patterns=[ATOM(_v)]))
L.axiom('is_no_tuple', 'text forms are no tuples', ForAll([_v], And(ATOM(STRV(_v)), ATOM(STRIP(_v))), patterns=[STRV(_v)]))
L.axiom('str_len', 'lengths are not negative', ForAll([_v], SLEN(_v) >= 0, patterns=[SLEN(_v)]))


def plain_list(l, d):
    """a record that can be written by joining: text without delimiters, quotes or line breaks, not one empty text"""
    k = Int('k')
    return And(L.list_n(l) > 0, Or(L.list_n(l) > 1, L.list_a(l)[0] != strconst('')), ForAll([k], Implies(And(0 <= k, k < L.list_n(l)), PLAIN(L.list_a(l)[k], d)), patterns=[L.list_a(l)[k]]))


L.axiom('plain_in_csv', 'a joined record is read as it was', ForAll([_d, _l], Implies(plain_list(_l, _d), And(L.list_n(RECORD(JOIN(_d, _l), _d)) == L.list_n(_l), SIMPLE(JOIN(_d, _l)), LF(JOIN(_d, _l)),
        ForAll([_i], Implies(And(0 <= _i, _i < L.list_n(_l)), L.list_a(RECORD(JOIN(_d, _l), _d))[_i] == L.list_a(_l)[_i]), patterns=[L.list_a(RECORD(JOIN(_d, _l), _d))[_i]]))), patterns=[JOIN(_d, _l)]))
L.axiom('csv_record', 'records consist of text', ForAll([_v, _d, _i], TEXT(L.list_a(RECORD(_v, _d))[_i]), patterns=[L.list_a(RECORD(_v, _d))[_i]]))
L.axiom('csv_record', 'records are lists', ForAll([_v, _d], L.list_n(RECORD(_v, _d)) >= 0, patterns=[RECORD(_v, _d)]))
TEXTS = ('str/', 'str.join', 'str_concat', 'line_with_end', 'str.strip')


class CFile:
    """a file object: where it is in the lines of its path; the parts of the line being written"""
    def __init__(self, path, mode, pos, cur=(), done=False):
        self.path, self.mode, self.pos, self.cur, self.done = path, mode, pos, tuple(cur), done


class CRows:
    """a csv reader"""
    def __init__(self, path, delim, pos):
        self.path, self.delim, self.pos = path, delim, pos


def literal_text(t):
    for s, c in strconsts():
        if c.eq(t):
            return s
    return None


class Files:
    # ------------------------------------------------------------ facts about literals
    def lit_facts(self, *ts):
        for t in ts:
            todo = [t]
            while todo:
                u = todo.pop()
                s = literal_text(u) if is_const(u) else None
                if s is not None:
                    self.assume(SLEN(u) == len(s))
                    self.assume(LF(u) == BoolVal(not set(s) & set('\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029')))
                    self.assume(ONE(u) == BoolVal(len(s) == 1 and not s.isspace()))
                    self.assume(TEXT(u))
                    self.assume(SIMPLE(u) == BoolVal('"' not in s))
                    self.assume(STRIP(u) == strconst(s.strip()))
                elif is_app(u):
                    todo += u.children()

    def bi_open(self, args, kwargs, e, env):
        mode = args[1] if len(args) > 1 else kwargs.get('mode', VStr('r'))
        enc = args[3] if len(args) > 3 else kwargs.get('encoding')
        if not isinstance(args[0], VCell) or not isinstance(self.content(args[0]), (CList, CListC)) or not isinstance(mode, VStr) or mode.s not in ('r', 'w', 'rt', 'wt') or set(kwargs) - {'mode', 'encoding'} or len(args) > 2:
            raise Unsupported('open')
        if mode.s[0] == 'w':
            self.set_content(args[0], CList('V', I(0), self.fresh('lines', ArraySort(IntSort(), V))))
        return self.new_cell(CFile(args[0], mode.s[0], I(0)))

    def file_method(self, o, name, args, kwargs):
        c = self.content(o)
        if name in ('close', '__exit__'):
            if c.cur:
                self.add_line(c.path, c.cur)
            self.set_content(o, CFile(c.path, 'closed', c.pos))
            return NONE
        if name == '__enter__':
            return o
        if c.mode == 'closed':
            raise SymRaise('ValueError')
        if name == 'readline' and not args:
            if c.mode != 'r':
                raise SymRaise('OSError')
            return self.readline(o, c)
        if name == 'write':
            if c.mode != 'w':
                raise SymRaise('OSError')
            return self.write(o, c, args[0])
        if name == 'writelines' and isinstance(self.iterable(args[0]), list):
            for x in self.iterable(args[0]):
                self.write(o, self.content(o), x)
            return NONE
        raise Unsupported('file method ' + name)

    def line_at(self, c, k):
        l = self.content(c.path)
        l = self.sym_list(l, 'V') if isinstance(l, CListC) else l
        return If(And(0 <= k, k < l.n), EOL(l.at(k)), strconst(''))

    def readline(self, o, c):
        if c.done:
            raise Unsupported('readline after iteration')
        if self.binders:
            if getattr(self, 'reads', None) is None or len(self.binders) != self.reads[0]:
                raise Unsupported('readline inside a comprehension')
            self.reads[1].add(o.i)
            return VZ('V', self.line_at(c, c.pos + self.binders[-1]))
        l = self.content(c.path)
        n = l.n if isinstance(l, CList) else I(len(l.items))
        t = self.line_at(c, c.pos)
        if self.proved(And(c.pos >= 0, c.pos < n)):
            t = t.arg(1)
            self.set_content(o, CFile(c.path, 'r', simplify(c.pos + 1)))
        else:
            self.set_content(o, CFile(c.path, 'r', If(c.pos < n, c.pos + 1, c.pos)))
        return VZ('V', t)

    def one_line_each(self, e):
        """does each evaluation of the comprehension read one line"""
        if not isinstance(e, (ast.ListComp, ast.GeneratorExp)) or len(e.generators) != 1 or e.generators[0].ifs:
            return False
        reads = lambda x: sum(isinstance(y, ast.Attribute) and y.attr == 'readline' for y in ast.walk(x))

        def inside(x):
            """under a condition or another loop"""
            if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                return reads(x) - reads(x.generators[0].iter) > 0 or inside(x.generators[0].iter)
            if isinstance(x, (ast.IfExp, ast.BoolOp, ast.Lambda, ast.DictComp)):
                return reads(x) > 0
            return any(inside(y) for y in ast.iter_child_nodes(x))
        return reads(e.elt) == 1 and not inside(e.elt)

    def lines_read(self, cells, n):
        for i in cells:
            c = self.cells[i]
            m = self.rows_n(c)
            self.set_content(VCell(i), CFile(c.path, 'r', If(c.pos + n <= m, c.pos + n, If(c.pos < m, m, c.pos))))

    def text_concat(self, vs):
        """text made of parts"""
        ts = [self.encode(v, 'V') for v in vs if not (isinstance(v, VStr) and not v.s)]
        if not ts:
            return VStr('')
        r = ts[0]
        for t in ts[1:]:
            r = strcat(r, t)
        return VZ('V', r) if len(ts) > 1 or not isinstance(vs[0], VStr) else vs[0]

    def parts(self, v):
        if isinstance(v, VStr):
            return [v.s]
        if not (isinstance(v, VZ) and v.ty == 'V'):
            raise SymRaise('TypeError')
        s = literal_text(v.t)
        if s is not None:
            return [s]
        if is_app(v.t) and v.t.decl().name() == 'str_concat':
            return self.parts(VZ('V', v.t.arg(0))) + self.parts(VZ('V', v.t.arg(1)))
        if is_app(v.t) and v.t.decl().name() == 'line_with_end':
            return self.parts(VZ('V', v.t.arg(0))) + ['\n']
        return [v.t]

    def is_text(self, t):
        return t.get_id() in self.text or is_app(t) and t.decl().name().startswith(TEXTS)

    def write(self, o, c, v):
        cur = list(c.cur)
        for p in self.parts(v):
            if isinstance(p, str):
                ls = p.split('\n')
                if '\r' in p:
                    raise Unsupported('carriage return written')
                for x in ls[:-1]:
                    cur += [x] if x else []
                    self.add_line(c.path, cur)
                    cur = []
                cur += [ls[-1]] if ls[-1] else []
            else:
                if not self.is_text(p):
                    self.maybe_raise(Not(TEXT(p)), 'TypeError')
                self.lit_facts(p)
                self.oblige(LF(p), 'text written has no line break', 'pre')
                cur.append(p)
        self.set_content(o, CFile(c.path, c.mode, c.pos, cur))
        return VZ('int', self.fresh('written', IntSort()))

    def add_line(self, path, cur):
        ts = [strconst(p) if isinstance(p, str) else p for p in cur]
        r = ts[0] if ts else strconst('')
        for t in ts[1:]:
            r = strcat(r, t)
        self.lit_facts(r)
        self.list_append(path, VZ('V', r))

    def strip(self, t):
        """of a line: without its end"""
        if is_app(t) and t.decl().name() == 'line_with_end':
            return self.strip(t.arg(0))
        if is_app(t) and t.decl().kind() == Z3_OP_ITE:
            return If(t.arg(0), self.strip(t.arg(1)), self.strip(t.arg(2)))
        s = literal_text(t)
        if s is not None:
            return strconst(s.strip())
        self.lit_facts(t)
        return STRIP(t)

    def chars(self, t):
        self.lit_facts(t)
        return VSeq(SLEN(t), lambda k: VZ('V', CHAR(t, k)))

    def read_int(self, t):
        self.lit_facts(t)
        self.maybe_raise(Not(ISINT(t)), 'ValueError')
        return VZ('int', INTOF(t))

    def x_ast_literal_eval(self, args, kwargs, e, env):
        if len(args) != 1 or not self.is_str(args[0]):
            raise Unsupported('literal_eval')
        t = self.encode(args[0], 'V')
        if not self.decide(LITERAL(t)):
            raise SymRaise('ValueError' if self.decide(self.fresh('not_an_expression', BoolSort())) else 'SyntaxError')
        return VZ('V', LITVAL(t))

    def join_facts(self, sep, t, l):
        """of single characters, without separator"""
        if not (isinstance(sep, VStr) and sep.s == '') or self.binders:
            return
        k = Int('k')
        n, a = L.list_n(l), L.list_a(l)
        for s, c in strconsts():
            self.lit_facts(c)
        self.assume(Implies(ForAll([k], Implies(And(0 <= k, k < n), ONE(a[k]))), And(SLEN(t) == n, LF(t), STRIP(t) == t, ForAll([k], Implies(And(0 <= k, k < n), CHAR(t, k) == a[k]), patterns=[CHAR(t, k)]))))

    # ------------------------------------------------------------ csv
    def x_csv_reader(self, args, kwargs, e, env):
        c = self.content(args[0]) if isinstance(args[0], VCell) else None
        d = kwargs.get('delimiter', VStr(','))
        if not isinstance(c, CFile) or c.mode != 'r' or len(args) > 1 or set(kwargs) - {'delimiter'} or not isinstance(d, VStr):
            raise Unsupported('csv.reader')
        l = self.content(c.path)
        l = self.sym_list(l, 'V') if isinstance(l, CListC) else l
        self.oblige(self.forall([IntSort()], lambda k: Implies(And(0 <= k, k < l.n), SIMPLE(l.at(k))), lambda k: l.at(k)), 'csv: no quotes in the file', 'pre')
        self.set_content(args[0], CFile(c.path, 'r', c.pos, done=True))
        return self.new_cell(CRows(c.path, strconst(d.s), c.pos))

    def rows_n(self, c):
        l = self.content(c.path)
        return l.n if isinstance(l, CList) else I(len(l.items))

    def record(self, c, k):
        l = self.content(c.path)
        l = self.sym_list(l, 'V') if isinstance(l, CListC) else l
        return RECORD(l.at(k), c.delim)

    def bi_next(self, args, kwargs, e, env):
        c = self.content(args[0]) if isinstance(args[0], VCell) else None
        if not isinstance(c, CRows) or len(args) > 1 or self.binders:
            raise Unsupported('next')
        self.maybe_raise(c.pos >= self.rows_n(c), 'StopIteration')
        self.set_content(args[0], CRows(c.path, c.delim, simplify(c.pos + 1)))
        return self.new_cell(self.unpack(self.record(c, c.pos), ('list', 'V')))

    def file_items(self, v, c):
        if isinstance(c, CFile):
            if c.mode != 'r' or c.done:
                raise Unsupported('iteration over this file')
            n, p = self.rows_n(c), c.pos
            self.set_content(v, CFile(c.path, 'r', n, done=True))
            return VSeq(If(n > p, n - p, I(0)), lambda k: VZ('V', self.line_at(c, p + k)))
        n, p = self.rows_n(c), c.pos
        self.set_content(v, CRows(c.path, c.delim, n))
        return VSeq(If(n > p, n - p, I(0)), lambda k: self.new_cell(self.unpack(self.record(c, simplify(p + k)), ('list', 'V'))))

    def havoc_file(self, o):
        if isinstance(o, CRows):
            r = CRows(o.path, o.delim, self.fresh('row_no', IntSort()))
        else:
            if o.cur:
                raise Unsupported('unfinished line at a loop')
            r = CFile(o.path, o.mode, self.fresh('line_no', IntSort()), (), o.done)
        self.assume(r.pos >= 0)
        return r

    def check_file(self, o, h, name):
        if isinstance(o, CFile):
            ok = not o.cur and o.mode == h.mode and o.done == h.done
            if not ok:
                self.add_ob(B(False), '%s: a file is at the end of a line and open after each iteration' % name, 'alias')
