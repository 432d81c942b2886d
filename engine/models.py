"""Models of the builtins and of the parts of numpy, copy, functools, itertools and collections
that the verified code uses.  Every model here is part of the trusted base; cross-checked
against CPython by the concrete runs of the checks."""
import ast
import builtins
from z3 import *
from . import logic as L
from .logic import V, sort_of, key_sort, sub, mem, card, rng, conj
from .core import *
from .files import CFile, CRows, JOIN, LITVAL, HASHABLE

LIVE = (VCell, VLoc)


class Models:
    # ------------------------------------------------------------ iteration
    def seq_n(self, it):
        return it.n() if callable(it.n) else it.n

    def iterable(self, v):
        """list of values | VSeq | VSetIter"""
        if isinstance(v, VMaybe):
            v = self.force(v)
        if isinstance(v, (list, VSeq, VSetIter)):
            return v
        if isinstance(v, VTuple):
            return list(v.items)
        if isinstance(v, VStr):
            return [VStr(c) for c in v.s]
        if isinstance(v, (VCell, VFro, VLoc)):
            c = self.content(v)
            if isinstance(c, CListC):
                return list(c.items)
            if isinstance(c, CInst):
                m = self.class_attr(c.cls, '__iter__')
                if m is not None:
                    return self.iterable(self.call(VBound(m, v), [], {}))
                g = self.class_attr(c.cls, '__getitem__')
                ln = self.class_attr(c.cls, '__len__')
                if g is None or ln is None:
                    raise Unsupported('iteration over an object')
                n = self.call(VBound(ln, v), [], {}).t
                return VSeq(n, lambda k: self.call(VBound(g, v), [VZ('int', k)], {}))
            if isinstance(c, (CFile, CRows)):
                return self.file_items(v, c)
            if isinstance(c, CNd2):
                return VSeq(c.n, lambda k: self.row(v, k))
            if isinstance(c, CList):
                if isinstance(v, LIVE):
                    r = VSeq(lambda: self.content(v).n, lambda k: self.decode(self.content(v).at(k), self.content(v).ety))
                else:
                    r = VSeq(c.n, lambda k: self.decode(c.at(k), c.ety))
                r.src = v
                return r
            if isinstance(c, CSet):
                if c.arr is None:
                    return []
                return VSetIter(c.arr, c.ety, lambda x: self.unkey(x, c.ety))
            if isinstance(c, CDict):
                if c.dom is None:
                    return []
                return self.dict_iter(v, c, lambda x: self.stored_key(c, x))
        if isinstance(v, VZ) and v.ty == 'V':
            return self.chars(v.t)
        raise Unsupported('iteration over %s' % type(v).__name__)

    def dict_iter(self, v, c, get):
        r = VSetIter(c.dom, c.kty, get)
        if isinstance(v, VCell):
            r.order = (v.i, c.dom.get_id(), c.val.get_id())
            self.keep += [c.dom, c.val]
        return r

    def row(self, v, k):
        if isinstance(v, VFro):
            c = v.content
            return VFro(CNd1(c.ety, c.m, c.arr[k]))
        return VLoc('row', v, k, 'row', ('nd1', self.content(v).ety))

    def length(self, v):
        if isinstance(v, VMaybe):
            v = self.force(v)
        if isinstance(v, VTuple):
            return I(len(v.items))
        if isinstance(v, VStr):
            return I(len(v.s))
        if isinstance(v, VSeq):
            return self.seq_n(v)
        if isinstance(v, VSetIter):
            return card(v.arr)
        if isinstance(v, (VCell, VFro, VLoc)):
            c = self.content(v)
            if isinstance(c, CListC):
                return I(len(c.items))
            if isinstance(c, CNd2):
                return c.n
            if isinstance(c, CList):
                return c.n
            if isinstance(c, CSet):
                if c.arr is not None and is_app(c.arr) and c.arr.decl().name().startswith('Rng_') and not self.binders:
                    a, lo, hi = c.arr.children()
                    self.assume(Implies(lo <= hi, And(card(c.arr) <= hi - lo, L.dist(a, lo, hi) == (card(c.arr) == hi - lo))))
                return I(0) if c.arr is None else card(c.arr)
            if isinstance(c, CDict):
                return I(0) if c.dom is None else card(c.dom)
            if isinstance(c, CInst):
                m = self.class_attr(c.cls, '__len__')
                if m is None:
                    raise SymRaise('TypeError')
                return self.call(VBound(m, v), [], {}).t
        if isinstance(v, VZ) and v.ty == 'V':
            return self.uf('str_len', IntSort(), v.t)
        if v is NONE:
            raise SymRaise('TypeError')
        raise Unsupported('len of %s' % type(v).__name__)

    # ------------------------------------------------------------ subscripts
    def norm_index(self, k, n):
        self.maybe_raise(Not(And(-n <= k, k < n)), 'IndexError')
        if is_int_value(k):
            return simplify(k + n) if k.as_long() < 0 else k
        if self.nobranch:
            if self.proved(k >= 0):
                return k
            raise NeedBranch()
        if self.decide(k < 0):
            return simplify(k + n)
        return k

    def index_term(self, v):
        if isinstance(v, VMaybe):
            v = self.force(v)
        if isinstance(v, VZ) and v.ty == 'int':
            return v.t
        if isinstance(v, VZ) and v.ty == 'bool':
            return If(v.t, I(1), I(0))
        return None

    def subscript(self, o, i):
        if isinstance(i, VSlice):
            return self.slice(o, i.lo, i.hi)
        if isinstance(o, VMaybe):
            o = self.force(o)
        if isinstance(o, VZ) and isinstance(o.ty, tuple) and o.ty[0] == 'tuple':
            o = self.decode(o.t, o.ty)
        if isinstance(o, VTuple):
            k = self.index_term(i)
            if k is not None and is_int_value(simplify(k)):
                j = simplify(k).as_long()
                if not -len(o.items) <= j < len(o.items):
                    raise SymRaise('IndexError')
                return o.items[j]
            raise Unsupported('tuple index')
        if isinstance(o, (VCell, VFro, VLoc)):
            c = self.content(o)
            if isinstance(c, CInst):
                m = self.class_attr(c.cls, '__getitem__')
                return self.call(VBound(m, o), [i], {})
            if isinstance(c, CDict):
                return self.dict_get(o, c, i)
            k = self.index_term(i)
            if k is None:
                raise Unsupported('index')
            if isinstance(c, CListC):
                k = simplify(k)
                if is_int_value(k):
                    j = k.as_long()
                    if not -len(c.items) <= j < len(c.items):
                        raise SymRaise('IndexError')
                    return c.items[j]
                ty = self.list_ety(c)
                if ty is None:
                    raise SymRaise('IndexError')
                c = self.sym_list(c, ty)
            if isinstance(c, CNd2):
                return self.row(o, self.norm_index(k, c.n))
            if isinstance(c, CList):
                j = self.norm_index(k, c.n)
                return self.decode(c.at(j), c.ety)
        if isinstance(o, VSeq) :
            k = self.norm_index(self.index_term(i), self.seq_n(o))
            return o.get(k)
        raise Unsupported('subscript of %s' % type(o).__name__)

    def dict_get(self, o, c, i):
        if c.dom is None:
            if c.default is None:
                raise SymRaise('KeyError')
            raise Unsupported('untyped defaultdict')
        k = self.key(i, c.kty)
        if c.default is None:
            self.maybe_raise(Not(mem(k, c.dom)), 'KeyError')
        else:
            miss = Not(mem(k, c.dom))
            dv = self.encode(c.default(), c.vty)
            self.set_content(o, CDict(c.kty, c.vty, L.add(c.dom, k), Store(c.val, k, If(miss, dv, Select(c.val, k))), c.default))
            c = self.content(o)
        if isinstance(c.vty, tuple) and c.vty[0] in ('set', 'list'):
            if isinstance(o, VFro):
                return VFro(self.unpack(Select(c.val, k), c.vty))
            return VLoc('item', o, k, 'item', c.vty)
        return self.decode(Select(c.val, k), c.vty)

    def subscript2(self, o, idx):
        if isinstance(o, VExt) and o.name == 'numpy.c_':
            return self.np_append_col(idx[0], idx[1])
        c = self.content(o)
        if isinstance(c, CInst):
            return self.call(VBound(self.class_attr(c.cls, '__getitem__'), o), [VTuple(idx)], {})
        if isinstance(c, CNd2) and len(idx) == 2:
            i, j = idx
            if i is not None and j is None:
                return self.row(o, self.norm_index(self.index_term(i), c.n))
            if i is None and j is not None:
                k = self.norm_index(self.index_term(j), c.m)
                if isinstance(o, VFro):
                    return VFro(self.col_content(c, k))
                return VLoc('col', o, k, 'col', ('nd1', c.ety))
            if i is not None and j is not None:
                ii, jj = self.norm_index(self.index_term(i), c.n), self.norm_index(self.index_term(j), c.m)
                return VZ(c.ety, c.arr[ii][jj])
        raise Unsupported('two-dimensional subscript')

    def col_content(self, c, k):
        self.fresh_n += 1
        i = Int('cv!%d' % self.fresh_n)
        return CNd1(c.ety, c.n, Lambda([i], c.arr[i][k]))

    def setitem(self, o, i, v):
        if isinstance(o, VMaybe):
            o = self.force(o)
        c = self.content(o)
        if isinstance(c, CInst):
            self.call(VBound(self.class_attr(c.cls, '__setitem__'), o), [i, v], {})
            return
        if isinstance(c, CDict):
            if c.dom is None:
                self.learn_type(o, (self.typeof(i), self.typeof(v)))
            k = self.key(i, c.kty)
            t = self.encode(v, c.vty)
            self.set_content(o, CDict(c.kty, c.vty, L.add(c.dom, k), Store(c.val, k, t), c.default))
            if isinstance(c.vty, tuple) and c.vty[0] in ('set', 'list'):
                self.move(v, VLoc('item', o, k, 'item', c.vty))
            return
        k = self.index_term(i)
        if k is None:
            raise Unsupported('index assignment')
        if isinstance(c, CListC):
            k = simplify(k)
            if is_int_value(k) and -len(c.items) <= k.as_long() < len(c.items):
                it = list(c.items)
                it[k.as_long()] = v
                self.set_content(o, CListC(it))
                self.freeze(v, 'list')
                return
            if self.list_ety(c) is None:
                raise SymRaise('IndexError')
            c = self.sym_list(c, self.list_ety(c))
        if isinstance(c, CNd2):
            j = self.norm_index(k, c.n)
            r = self.as_list_content(v, c.ety)
            self.np_fit(r.n, c.m)
            arr = self.fresh('row', ArraySort(IntSort(), sort_of(c.ety)))
            q = self.forall([IntSort()], lambda x: Implies(And(0 <= x, x < c.m), arr[x] == r.at(x)), lambda x: arr[x])
            self.assume(q)
            self.set_content(o, CNd2(c.ety, c.n, c.m, Store(c.arr, j, arr)))
            return
        if isinstance(c, CList):
            j = self.norm_index(k, c.n)
            n = type(c)(c.ety, c.n, Store(c.arr, simplify(c.off + j), self.encode(v, c.ety)), c.off)
            n.site = getattr(c, 'site', None)
            self.set_content(o, n)
            self.freeze(v, 'list')
            return
        raise Unsupported('item assignment')

    def np_fit(self, n, m):
        """assignment of a sequence of length n to m array cells"""
        self.maybe_raise(And(n != m, n != 1), 'ValueError')
        self.oblige(n == m, 'no broadcasting of a single value')

    def setitem2(self, o, idx, v):
        c = self.content(o)
        if isinstance(c, CInst):
            self.call(VBound(self.class_attr(c.cls, '__setitem__'), o), [VTuple(idx), v], {})
            return
        if isinstance(c, CNd2) and len(idx) == 2:
            i, j = idx
            if i is None and j is not None:
                k = self.norm_index(self.index_term(j), c.m)
                r = self.as_list_content(v, c.ety)
                self.np_fit(r.n, c.n)
                a = self.fresh('tab', c.arr.sort())
                self.assume(self.forall([IntSort(), IntSort()], lambda x, y: Implies(And(0 <= x, x < c.n), a[x][y] == If(y == k, r.at(x), c.arr[x][y])), lambda x, y: a[x][y]))
                self.set_content(o, CNd2(c.ety, c.n, c.m, a))
                return
            if i is not None and j is None:
                self.setitem(o, i, v)
                return
            if i is not None and j is not None:
                ii, jj = self.norm_index(self.index_term(i), c.n), self.norm_index(self.index_term(j), c.m)
                self.set_content(o, CNd2(c.ety, c.n, c.m, Store(c.arr, ii, Store(c.arr[ii], jj, self.encode(v, c.ety)))))
                return
        raise Unsupported('array assignment')

    def delitem(self, o, i):
        c = self.content(o)
        if isinstance(c, CDict):
            if c.dom is None:
                raise SymRaise('KeyError')
            k = self.key(i, c.kty)
            self.maybe_raise(Not(mem(k, c.dom)), 'KeyError')
            self.set_content(o, CDict(c.kty, c.vty, L.remove(c.dom, k), c.val, c.default))
            return
        if isinstance(c, CListC):
            k = simplify(self.index_term(i))
            if is_int_value(k) and -len(c.items) <= k.as_long() < len(c.items):
                it = list(c.items)
                del it[k.as_long()]
                self.set_content(o, CListC(it))
                return
            c = self.sym_list(c, self.list_ety(c))
        if isinstance(c, CList) and not isinstance(c, CNd1):
            j = self.norm_index(self.index_term(i), c.n)
            self.set_content(o, self.without(c, j))
            return
        raise Unsupported('del')

    def without(self, c, j):
        a = self.fresh('del', ArraySort(IntSort(), sort_of(c.ety)))
        self.assume(self.forall([IntSort()], lambda k: a[k] == If(k < j, c.at(k), c.at(k + 1)), lambda k: a[k]))
        self.assume(self.forall([IntSort()], lambda k: Implies(k != j, If(k < j, a[k], a[k - 1]) == c.at(k)), lambda k: c.at(k)))
        r = CList(c.ety, simplify(c.n - 1), a)
        r.site = getattr(c, 'site', None)
        return r

    def clamp(self, v, n, default):
        if v is None:
            return default
        if v is NONE:
            return default
        k = simplify(self.index_term(v))
        if is_int_value(k):
            z = k.as_long()
            if z == 0:
                return I(0)
            if z < 0:
                return simplify(n + z) if self.proved(n + z >= 0) else simplify(If(n + z < 0, I(0), n + z))
            return k if self.proved(k <= n) else simplify(If(k > n, n, k))
        if self.proved(And(0 <= k, k <= n)):
            return k
        return If(k < 0, If(k + n < 0, I(0), k + n), If(k > n, n, k))

    def slice(self, o, lo, hi):
        if isinstance(o, VMaybe):
            o = self.force(o)
        if isinstance(o, VTuple):
            def ci(x, d):
                return d if x is None else simplify(self.index_term(x)).as_long()
            return VTuple(o.items[ci(lo, 0):ci(hi, len(o.items))])
        if self.is_str(o):
            return self.opaque_str('slice', [o] + [x for x in (lo, hi) if x is not None])
        c = self.content(o)
        if isinstance(c, CInst):
            return self.call(VBound(self.class_attr(c.cls, '__getitem__'), o), [VSlice(lo, hi)], {})
        if isinstance(c, CListC):
            a = None if lo is None else simplify(self.index_term(lo))
            b = None if hi is None else simplify(self.index_term(hi))
            if all(x is None or is_int_value(x) for x in (a, b)):
                r = CListC(c.items[slice(a.as_long() if a is not None else None, b.as_long() if b is not None else None)])
                if hasattr(c, 'hint'):
                    r.hint = c.hint
                if not r.items:
                    r.site = getattr(c, 'site', None)
                return self.new_cell(r)
            if self.list_ety(c) is None:
                return self.new_cell(CListC([]))
            c = self.sym_list(c, self.list_ety(c))
        if isinstance(c, CNd2):
            raise Unsupported('array slice')
        if isinstance(c, CList):
            a = self.clamp(lo, c.n, I(0))
            b = self.clamp(hi, c.n, c.n)
            n = simplify(b - a)
            if not (lo is None or self.proved(a <= b)):
                n = If(a <= b, b - a, I(0))
            r = type(c)(c.ety, n, c.arr, simplify(c.off + a))
            return self.new_cell(r)
        raise Unsupported('slice')

    # ------------------------------------------------------------ lists
    def list_append(self, o, v):
        c = self.content(o)
        if isinstance(c, CListC) and not self.watch_inside(o):
            self.set_content(o, self.keep_site(CListC(c.items + [v]), c))
            self.freeze(v, 'list')
            return
        if isinstance(c, CListC):
            ty = self.list_ety(c)
            if ty is None:
                self.learn_type(o, self.typeof(v))
            c = self.keep_site(self.sym_list(c, ty), c)
        if not isinstance(c, CList):
            raise Unsupported('append')
        r = CList(c.ety, simplify(c.n + 1), Store(c.arr, simplify(c.off + c.n), self.encode(v, c.ety)), c.off)
        self.set_content(o, self.keep_site(r, c))
        self.freeze(v, 'list')

    def watch_inside(self, o):
        """is o older than the innermost loop (so that its length is not known)?"""
        if not isinstance(o, VCell):
            return True
        return any(o.i <= w['mark'] for w in self.watch)

    def keep_site(self, r, c):
        r.site = getattr(c, 'site', None)
        if hasattr(c, 'hint'):
            r.hint = c.hint
        return r

    def list_extend(self, o, v):
        it = self.iterable(v)
        c = self.content(o)
        if isinstance(it, list):
            for x in it:
                self.list_append(o, x)
            return
        other = self.to_list_content(it)
        if isinstance(c, CListC):
            ty = self.list_ety(c)
            if ty is None:
                if not c.items and not self.watch_inside(o):
                    self.set_content(o, self.keep_site(CList(other.ety, other.n, other.arr, other.off), c))
                    return
                self.learn_type(o, other.ety)
            c = self.keep_site(self.sym_list(c, ty), c)
        self.set_content(o, self.keep_site(self.concat(c, other), c))

    def to_list_content(self, it):
        """CList content of a sequence"""
        if isinstance(it, VSetIter):
            return self.content(self.set_to_list(it))
        return self.content(self.seq_to_list(it))

    def concat(self, a, b):
        if a.ety != b.ety:
            raise Unsupported('concatenation of lists of different types')
        C = self.fresh('cat', ArraySort(IntSort(), sort_of(a.ety)))
        n = simplify(a.n + b.n)
        self.assume(self.forall([IntSort()], lambda k: Implies(And(0 <= k, k < n), C[k] == If(k < a.n, a.at(k), b.at(k - a.n))), lambda k: C[k]))
        self.assume(self.forall([IntSort()], lambda k: Implies(And(0 <= k, k < a.n), C[k] == a.at(k)), lambda k: a.at(k)))
        self.assume(self.forall([IntSort()], lambda p: Implies(And(b.off <= p, p < b.off + b.n), C[p - b.off + a.n] == b.arr[p]), lambda p: b.arr[p]))
        if a.ety == 'int':
            o = lambda c, v: L.occ(c.arr, c.off, simplify(c.off + c.n), v)
            self.assume(self.forall([IntSort()], lambda v: L.occ(C, I(0), n, v) == o(a, v) + o(b, v), lambda v: L.occ(C, I(0), n, v)))
        return CList(a.ety, n, C)

    def list_concat(self, a, b):
        ca, cb = self.content(a), self.content(b)
        if isinstance(ca, CListC) and isinstance(cb, CListC):
            for x in ca.items + cb.items:
                self.freeze(x, 'list')
            return self.new_cell(CListC(ca.items + cb.items))
        if isinstance(cb, CListC):
            r = self.new_cell(CList(ca.ety, ca.n, ca.arr, ca.off))
            for x in cb.items:
                c = self.content(r)
                self.cells[r.i] = CList(c.ety, simplify(c.n + 1), Store(c.arr, simplify(c.off + c.n), self.encode(x, c.ety)), c.off)
                self.freeze(x, 'list')
            return r
        if isinstance(ca, CListC):
            if not ca.items:
                return self.new_cell(CList(cb.ety, cb.n, cb.arr, cb.off))
            ca = self.sym_list(ca, cb.ety)
        return self.new_cell(self.concat(ca, cb))

    def list_repeat(self, a, b):
        c = self.content(a)
        if isinstance(c, CListC) and len(c.items) == 1:
            ty = self.typeof(c.items[0])
            n = b.t if self.proved(b.t >= 0) else If(b.t < 0, I(0), b.t)
            return self.new_cell(CList(ty, n, K(IntSort(), self.encode(c.items[0], ty))))
        raise Unsupported('list repetition')

    def as_list_content(self, v, ety=None):
        c = self.content(v) if isinstance(v, (VCell, VFro, VLoc)) else None
        if isinstance(c, CListC):
            t = self.list_ety(c)
            if t is None:
                t = ety
            c = self.sym_list(c, t)
        if isinstance(c, CList):
            if ety is not None and c.ety != ety:
                if ety == 'bool' and c.ety == 'int':
                    raise Unsupported('numbers as truth values')
                raise Unsupported('element type %s for %s' % (c.ety, ety))
            return c
        it = self.iterable(v)
        return self.to_list_content(it)

    def seq_to_list(self, it, e=None, kind='list'):
        if isinstance(it, list):
            return self.collect(it, kind, e)
        if isinstance(it, VSetIter):
            return self.map_filter(it, None, None, None, [], kind, e, direct=it.get)
        return self.map_filter(it, None, None, None, [], kind, e, direct=it.get)

    def set_to_list(self, it):
        return self.map_filter(it, None, None, None, [], 'list', None, direct=it.get)

    # ------------------------------------------------------------ proofs on the way
    def proved(self, f):
        """quick attempt at showing f from the current path condition"""
        f = simplify(f)
        if is_true(f):
            return True
        if is_false(f):
            return False
        key = ('p', self.trail_key(), self.fresh_n, len(self.pc), f.get_id(), len(self.binders))
        r = self.prune_cache.get(key)
        if r is None:
            s = Solver()
            s.set('timeout', 250)
            s.set('auto_config', False)
            s.set('smt.mbqi', False)
            fs = self.pc + [Not(f)]
            s.add(*fs)
            ax, _ = L.background(fs)
            s.add(*ax)
            r = s.check() == unsat
            self.prune_cache[key] = r
            self.keep.append(f)
        return r

    # ------------------------------------------------------------ builtins
    def call_ext(self, name, args, kwargs, e=None, env=None):
        args = list(args)
        short = name[9:] if name.startswith('builtins.') else None
        if short is not None:
            m = getattr(self, 'bi_' + short.replace('.', '_'), None)
            if m is not None:
                return m(args, kwargs, e, env)
            cls = getattr(builtins, short, None)
            if isinstance(cls, type) and issubclass(cls, BaseException):
                return VExc(short)
            if short == 'object.__init__':
                return NONE
        m = getattr(self, 'x_' + name.replace('.', '_'), None)
        if m is not None:
            return m(args, kwargs, e, env)
        raise Unsupported('call of %s' % name)

    def bi_len(self, args, kwargs, e, env):
        return VZ('int', self.length(args[0]))

    def bi_range(self, args, kwargs, e, env):
        ts = []
        for a in args:
            k = self.index_term(a)
            if k is None:
                raise Unsupported('range argument')
            ts.append(simplify(k))
        if len(ts) == 1:
            lo, hi, st = I(0), ts[0], 1
        elif len(ts) == 2:
            lo, hi, st = ts[0], ts[1], 1
        else:
            lo, hi, st = ts[0], ts[1], ts[2].as_long() if is_int_value(ts[2]) else None
        if st not in (1, -1):
            raise Unsupported('range step')
        if st == 1:
            n = simplify(hi - lo)
            if not self.proved(n >= 0):
                n = If(n > 0, n, I(0))
            if is_int_value(n) and is_int_value(lo) and n.as_long() <= 4:
                return [VZ('int', I(lo.as_long() + k)) for k in range(n.as_long())]
            r = VSeq(n, lambda k: VZ('int', simplify(lo + k)), 'range')
            r.lo = lo
            return r
        n = simplify(lo - hi)
        if not self.proved(n >= 0):
            n = If(n > 0, n, I(0))
        r = VSeq(n, lambda k: VZ('int', simplify(lo - k)), 'rrange')
        r.lo = lo
        return r

    def bi_enumerate(self, args, kwargs, e, env):
        it = self.iterable(args[0])
        if isinstance(it, list):
            return [VTuple([VZ('int', I(k)), v]) for k, v in enumerate(it)]
        if isinstance(it, VSetIter):
            raise Unsupported('enumerate over a set')
        return VSeq(it.n, lambda k: VTuple([VZ('int', k), it.get(k)]))

    def bi_zip(self, args, kwargs, e, env):
        its = [self.iterable(a) for a in args]
        if all(isinstance(i, list) for i in its):
            return [VTuple(list(t)) for t in zip(*its)]
        if any(isinstance(i, (list, VSetIter)) for i in its):
            raise Unsupported('zip')
        ns = [self.seq_n(i) for i in its]
        n = ns[0]
        for m in ns[1:]:
            if self.proved(m == n):
                continue
            n = If(m < n, m, n)
        return VSeq(n, lambda k: VTuple([i.get(k) for i in its]))

    def bi_list(self, args, kwargs, e, env):
        if not args:
            return self.typed_cell(e, env, CListC([])) if e is not None else self.new_cell(CListC([]))
        v = args[0]
        if isinstance(v, (VCell, VFro, VLoc)):
            c = self.content(v)
            if isinstance(c, CListC):
                return self.typed_cell(e, env, CListC(c.items)) if e is not None else self.new_cell(CListC(c.items))
            if isinstance(c, CList):
                return self.new_cell(CList(c.ety, c.n, c.arr, c.off))
        it = self.iterable(v)
        if isinstance(it, VSeq) and getattr(it, 'effect', None):
            return it.effect()
        return self.seq_to_list(it, e)

    bi_tuple = bi_list

    def bi_set(self, args, kwargs, e, env):
        if not args:
            return self.typed_cell(e, env, CSet(None, None)) if e is not None else self.new_cell(CSet(None, None))
        v = args[0]
        if isinstance(v, (VCell, VFro, VLoc)):
            c = self.content(v)
            if isinstance(c, CSet):
                return self.new_cell(CSet(c.ety, c.arr))
            if isinstance(c, CDict) and c.dom is not None:
                return self.new_cell(CSet(c.kty, c.dom))
            if isinstance(c, CListC):
                return self.collect(c.items, 'set', e)
            if isinstance(c, CList):
                if isinstance(c.ety, tuple) and c.ety[0] == 'ref':
                    return self.seq_to_list(self.iterable(v), e, 'set')
                return self.new_cell(CSet(c.ety, rng(c.arr, c.off, simplify(c.off + c.n))))
        it = self.iterable(v)
        if isinstance(it, list):
            return self.collect(it, 'set', e)
        return self.seq_to_list(it, e, 'set')

    bi_frozenset = bi_set

    def bi_dict(self, args, kwargs, e, env):
        if not args:
            return self.typed_cell(e, env, CDict(None, None, None, None)) if e is not None else self.new_cell(CDict(None, None, None, None))
        v = args[0]
        if isinstance(v, (VCell, VFro, VLoc)):
            c = self.content(v)
            if isinstance(c, CDict):
                return self.new_cell(CDict(c.kty, c.vty, c.dom, c.val, None))
        it = self.iterable(v)
        if isinstance(it, list):
            if not it:
                return self.new_cell(CDict(None, None, None, None))
            d = self.new_cell(CDict(None, None, None, None))
            vs = [self.unpack_seq(x, 2) for x in it]
            kt, vt = self.typeof(vs[0][0]), self.typeof(vs[0][1])
            self.cells[d.i] = CDict(kt, vt, L.empty(key_sort(kt)), self.fresh('dv', ArraySort(key_sort(kt), sort_of(vt))))
            for a, b in vs:
                self.setitem(d, a, b)
            return d
        return self.seq_to_list(it, e, 'dict')

    def bi_sorted(self, args, kwargs, e, env):
        v = args[0]
        key = kwargs.get('key')
        rev = kwargs.get('reverse')
        it = self.iterable(v)
        if isinstance(it, list):
            it = self.iterable(self.new_cell(self.sym_list(CListC(it), self.list_ety(CListC(it))))) if it else it
            if isinstance(it, list):
                return self.new_cell(CListC([]))
        if isinstance(it, VSetIter):
            r = self.set_to_list(it)
            c = self.content(r)
        else:
            src = self.to_list_content(it)
            c = self.permutation(src)
            r = self.new_cell(c)
        self.order_facts(c, key, rev)
        return r

    def permutation(self, src):
        A = self.fresh('perm', ArraySort(IntSort(), sort_of(src.ety)))
        p = self.fresh_fn('pi', IntSort(), IntSort())
        q = self.fresh_fn('pinv', IntSort(), IntSort())
        n = src.n
        j = Const('j!%d' % self.fresh_n, IntSort())
        rngj = And(0 <= j, j < n)
        self.assume(ForAll([j], Implies(rngj, And(0 <= p(j), p(j) < n, q(p(j)) == j, A[j] == src.at(p(j)))), patterns=[A[j]]))
        self.assume(ForAll([j], Implies(rngj, And(0 <= q(j), q(j) < n, p(q(j)) == j, A[q(j)] == src.at(j))), patterns=[src.at(j)]))
        return CList(src.ety, n, A)

    def order_facts(self, c, key, rev):
        r = bool(rev is not None and isinstance(rev, VZ) and is_true(simplify(rev.t)))
        if rev is not None and not (isinstance(rev, VZ) and (is_true(simplify(rev.t)) or is_false(simplify(rev.t)))):
            return
        if key is not None:
            try:
                def body(k):
                    return self.call(key, [self.decode(c.at(k), c.ety)], {})
                xs, g, res, asm, raises = self.lam_eval([IntSort()], lambda k: And(0 <= k, k < c.n), body)
            except Unsupported:
                return
            self.raise_some(xs, g, B(True), [], raises)
            for a in asm:
                self.assume_each(xs, g, a)
            t = self.num(res) if res is not None else None
            if t is None:
                return
            j = Const('oj!%d' % self.fresh_n, IntSort())
            i = Const('oi!%d' % self.fresh_n, IntSort())
            a, b = substitute(t, (xs[0], i)), substitute(t, (xs[0], j))
            self.assume(ForAll([i, j], Implies(And(0 <= i, i < j, j < c.n), (a >= b) if r else (a <= b)),
                               patterns=[MultiPattern(c.at(i), c.at(j))]))
            return
        if c.ety in ('int', 'real'):
            self.assume(self.forall([IntSort(), IntSort()], lambda i, j: Implies(And(0 <= i, i < j, j < c.n),
                        (c.at(i) >= c.at(j)) if r else (c.at(i) <= c.at(j))), lambda i, j: [(c.at(i), c.at(j))]))

    def bi_reversed(self, args, kwargs, e, env):
        it = self.iterable(args[0])
        if isinstance(it, list):
            return list(reversed(it))
        n = self.seq_n(it)
        return VSeq(n, lambda k: it.get(simplify(n - 1 - k)))

    def bi_map(self, args, kwargs, e, env):
        f = args[0]
        it = self.iterable(args[1])
        if isinstance(it, list):
            return [self.call(f, [x], {}) for x in it]
        if isinstance(it, VSetIter):
            return VSetIter(it.arr, it.ety, lambda k: self.call(f, [it.get(k)], {}))
        r = VSeq(it.n, lambda k: self.call(f, [it.get(k)], {}))
        if isinstance(f, VFunc) and self.effectful(f):
            r.effect = lambda: self.effect_map(f, it, e, env)
        return r

    def effectful(self, f):
        """does the body of f assign to anything but its own variables?"""
        if isinstance(f.node, ast.Lambda):
            return False
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(not isinstance(t, ast.Name) for t in ts):
                    return True
            if isinstance(n, (ast.Nonlocal, ast.Global)):
                return True
        return False

    def effect_map(self, f, it, e, env):
        fn, fenv = self.funcs[-1]
        hint = (self.loop_hints.get(fn.qual) or {}).get('map')
        out = self.typed_cell(e, env, CListC([])) if e is not None else self.new_cell(CListC([]))
        env2 = self.new_env(fenv, self.envs[fenv]['mod'])
        self.envs[env2]['vars']['map_result'] = out

        def body():
            self.list_append(out, self.call(f, [self.cur_item], {}))
        fake = ast.Pass()
        fake.body, fake.orelse = [], []
        fake.lineno, fake.col_offset, fake.end_lineno = e.lineno, e.col_offset, e.end_lineno
        self.loop(fake, env2, it, body=body, hint=hint or self.nohint, name='%s map' % fn.node.name)
        return out

    def bi_filter(self, args, kwargs, e, env):
        f = args[0]
        it = self.iterable(args[1])
        return self.map_filter(it, None, None, None, [lambda v: self.truth(self.call(f, [v], {}))], 'list', e, direct=it.get if not isinstance(it, list) else None, dcond=True)

    def bi_str(self, args, kwargs, e, env):
        v = args[0]
        if isinstance(v, VStr):
            return v
        return self.opaque_str('str', [v])

    def bi_repr(self, args, kwargs, e, env):
        return self.opaque_str('repr', [args[0]])

    def bi_eval(self, args, kwargs, e, env):
        """the value of an expression over one variable: a function of both (expressions do not raise)"""
        c = self.content(args[1]) if len(args) == 2 and isinstance(args[1], VCell) else None
        if not isinstance(c, CDict) or c.dom is None or c.vty != 'V' or c.kty != 'V':
            raise Unsupported('eval')
        k = next((x for n, x in strconsts() if c.dom.eq(L.add(L.empty(V), x))), None)
        if k is None:
            raise Unsupported('eval with other variables')
        return VZ('V', self.uf('eval', V, k, self.encode(args[0], 'V'), simplify(c.val[k])))

    def bi_int(self, args, kwargs, e, env):
        v = args[0]
        if isinstance(v, VZ) and v.ty in ('int', 'bool'):
            return VZ('int', self.num(v))
        if isinstance(v, VZ) and v.ty == 'real':
            return VZ('int', If(v.t >= 0, ToInt(v.t), -ToInt(-v.t)))
        if isinstance(v, VZ) and v.ty == 'V' and len(args) == 1:
            return self.read_int(v.t)
        raise Unsupported('int()')

    def bi_float(self, args, kwargs, e, env):
        v = args[0]
        t = self.num(v)
        if isinstance(v, VZ) and v.ty == 'V':
            fails = self.uf('float_fails', IntSort(), v.t)
            for k, x in enumerate(('ValueError', 'TypeError', 'OverflowError')):
                self.maybe_raise(fails == k + 1, x)
            return VZ('V', self.uf('float', V, v.t))
        if t is None:
            raise Unsupported('float()')
        return VZ('real', ToReal(t) if t.is_int() else t)

    def bi_bool(self, args, kwargs, e, env):
        return VZ('bool', self.truth(args[0]))

    def bi_abs(self, args, kwargs, e, env):
        t = self.num(args[0])
        return VZ(args[0].ty, If(t >= 0, t, -t))

    def bi_type(self, args, kwargs, e, env):
        v = args[0]
        if isinstance(v, VMaybe):
            v = self.force(v)
        if isinstance(v, (VCell, VFro, VLoc)):
            c = self.content(v)
            if isinstance(c, CInst):
                return c.cls
            return VType({CSet: 'set', CList: 'list', CListC: 'list', CDict: 'dict', CNd1: 'ndarray', CNd2: 'ndarray'}[type(c)])
        if isinstance(v, VTuple):
            return VType('tuple')
        if v is NONE:
            return VType('NoneType')
        if isinstance(v, VZ):
            if v.ty in ('int', 'bool'):
                return VType(v.ty)
            if v.ty == 'real':
                return VType('float')
            if isinstance(v.ty, tuple) and v.ty[0] == 'ref':
                return self.class_named(v.ty[1])
            if v.t.get_id() in self.text:
                return VType('str')
        if isinstance(v, VStr):
            return VType('str')
        raise Unsupported('type of an unknown value')

    def bi_isinstance(self, args, kwargs, e, env):
        t = self.bi_type([args[0]], {}, e, env)
        cs = args[1].items if isinstance(args[1], VTuple) else [args[1]]
        for c in cs:
            if isinstance(t, VClass) and isinstance(c, VClass):
                if any(x.name == c.name for x in self.mro(t)):
                    return VZ('bool', B(True))
            elif isinstance(t, VType) and isinstance(c, (VExt, VType)):
                if c.name.replace('builtins.', '') == t.name:
                    return VZ('bool', B(True))
        return VZ('bool', B(False))

    def bi_hasattr(self, args, kwargs, e, env):
        try:
            self.getattr(args[0], args[1].s)
            return VZ('bool', B(True))
        except SymRaise as x:
            if x.cls == 'AttributeError':
                return VZ('bool', B(False))
            raise

    def bi_getattr(self, args, kwargs, e, env):
        return self.getattr(args[0], args[1].s)

    def bi_hash(self, args, kwargs, e, env):
        v = args[0]
        if isinstance(v, VMaybe):
            v = self.force(v)
        if isinstance(v, VZ) and v.ty == 'V' and is_app(v.t) and v.t.decl().eq(LITVAL):
            self.maybe_raise(Not(HASHABLE(v.t)), 'TypeError')
        if isinstance(v, VZ) and isinstance(v.ty, tuple) and v.ty[0] == 'ref':
            for c in self.mro(self.class_named(v.ty[1])):
                names = [st.name for st in c.node.body if isinstance(st, ast.FunctionDef)]
                if '__hash__' in names:
                    return self.call(VBound(self.class_attr_named(v.ty[1], '__hash__'), v), [], {})
                if '__eq__' in names:
                    raise SymRaise('TypeError')
        if isinstance(v, (VCell, VLoc)) and not isinstance(self.content(v), CInst):
            raise SymRaise('TypeError')
        ty = self.typeof(v)
        return VZ('int', self.uf('hash_' + str(ty), IntSort(), self.encode(v, ty)))

    def bi_max(self, args, kwargs, e, env):
        return self.minmax(args, kwargs, True)

    def bi_min(self, args, kwargs, e, env):
        return self.minmax(args, kwargs, False)

    def minmax(self, args, kwargs, big):
        if len(args) > 1 and not kwargs:
            ts = [self.num(a) for a in args]
            if all(t is not None for t in ts):
                r = ts[0]
                for t in ts[1:]:
                    r = If((t > r) if big else (t < r), t, r)
                return VZ('real' if any(t.is_real() for t in ts) else 'int', r)
        if len(args) == 1:
            it = self.iterable(args[0])
            if isinstance(it, list):
                raise Unsupported('max of literal')
            c = self.to_list_content(it)
            self.maybe_raise(c.n == 0, 'ValueError')
            w = self.fresh('mx', IntSort())
            self.assume(And(0 <= w, w < c.n))
            if 'key' in kwargs:
                xs, g, res, asm, raises = self.lam_eval([IntSort()], lambda k: And(0 <= k, k < c.n), lambda k: self.call(kwargs['key'], [self.decode(c.at(k), c.ety)], {}))
                self.raise_some(xs, g, B(True), [], raises)
                for a in asm:
                    self.assume_each(xs, g, a)
                t = self.num(res)
                tw = substitute(t, (xs[0], w))
                self.forall_over(xs, Implies(g, (t <= tw) if big else (t >= tw)), [t, c.at(xs[0])], xs[0])
                for a in asm:
                    self.assume(substitute(a, (xs[0], w)))
            else:
                self.assume(self.forall([IntSort()], lambda k: Implies(And(0 <= k, k < c.n), (c.at(k) <= c.at(w)) if big else (c.at(k) >= c.at(w))), lambda k: c.at(k)))
            return self.decode(c.at(w), c.ety)
        raise Unsupported('max/min')

    def bi_sum(self, args, kwargs, e, env):
        it = self.iterable(args[0])
        if isinstance(it, list):
            t = I(0)
            for x in it:
                t = t + self.num(x)
            return VZ('int', t)
        c = self.to_list_content(it)
        if c.ety == 'bool':
            c = self.map_content(c, lambda x: If(x, I(1), I(0)), 'int')
        if c.ety == 'int':
            return VZ('int', L.total(c.arr, c.off, simplify(c.off + c.n)))
        raise Unsupported('sum')

    def map_content(self, c, f, ety):
        A = self.fresh('mapc', ArraySort(IntSort(), sort_of(ety)))
        self.assume(self.forall([IntSort()], lambda k: Implies(And(0 <= k, k < c.n), A[k] == f(c.at(k))), lambda k: A[k]))
        return CList(ety, c.n, A)

    def bi_any(self, args, kwargs, e, env):
        c = self.as_list_content(args[0])
        tr = (lambda t: t) if c.ety == 'bool' else (lambda t: self.truth(self.decode(t, c.ety)))
        return VZ('bool', self.exists([IntSort()], lambda k: And(0 <= k, k < c.n, tr(c.at(k)))))

    def bi_all(self, args, kwargs, e, env):
        c = self.as_list_content(args[0])
        tr = (lambda t: t) if c.ety == 'bool' else (lambda t: self.truth(self.decode(t, c.ety)))
        return VZ('bool', self.forall([IntSort()], lambda k: Implies(And(0 <= k, k < c.n), tr(c.at(k))), lambda k: c.at(k)))

    def bi_round(self, args, kwargs, e, env):
        raise Unsupported('round')

    # ------------------------------------------------------------ copy, functools, collections, itertools
    def x_copy_copy(self, args, kwargs, e, env):
        v = args[0]
        if isinstance(v, (VCell, VFro, VLoc)):
            c = self.content(v)
            if isinstance(c, CSet):
                return self.new_cell(CSet(c.ety, c.arr))
            if isinstance(c, CListC):
                return self.new_cell(CListC(c.items))
            if isinstance(c, CNd2):
                return self.new_cell(CNd2(c.ety, c.n, c.m, c.arr))
            if isinstance(c, CList):
                return self.new_cell(type(c)(c.ety, c.n, c.arr, c.off))
            if isinstance(c, CDict):
                return self.new_cell(CDict(c.kty, c.vty, c.dom, c.val, c.default))
        if isinstance(v, VZ) and not (isinstance(v.ty, tuple) and v.ty[0] == 'ref'):
            return v
        raise Unsupported('copy')

    def x_copy_deepcopy(self, args, kwargs, e, env):
        v = args[0]
        if isinstance(v, (VCell, VFro, VLoc)):
            c = self.content(v)
            if isinstance(c, CInst):
                m = self.class_attr(c.cls, '__deepcopy__')
                if m is None:
                    raise Unsupported('deepcopy of an object')
                return self.call(VBound(m, v), [self.new_cell(CDict(None, None, None, None))], {})
            if isinstance(c, CList) and isinstance(c.ety, tuple) and c.ety[0] == 'ref':
                return self.deepcopy_refs(c)
        return self.x_copy_copy(args, kwargs, e, env)

    def deepcopy_refs(self, c):
        raise Unsupported('deepcopy of objects')

    def x_functools_reduce(self, args, kwargs, e, env):
        f = args[0]
        it = args[1]
        if isinstance(it, VSeq) and getattr(it, 'effect', None):
            it = it.effect()
        it = self.iterable(it)
        fname = f.name if isinstance(f, VExt) else None
        if isinstance(it, list):
            acc = args[2] if len(args) > 2 else None
            for x in it:
                acc = x if acc is None else self.call(f, [acc, x], {})
            if acc is None:
                raise SymRaise('TypeError')
            return acc
        if fname in ('builtins.set.union', 'builtins.set.intersection') and len(args) > 2:
            c = self.to_list_content(it)
            if not (isinstance(c.ety, tuple) and c.ety[0] == 'set'):
                raise Unsupported('reduce')
            ini = self.coerce(self.content(args[2]), c.ety)
            ks = key_sort(c.ety[1])
            S = self.fresh('red', ArraySort(ks, BoolSort()))
            w = self.fresh_fn('redw', ks, IntSort())
            x = Const('x!%d' % self.fresh_n, ks)
            k = Const('k!%d' % self.fresh_n, IntSort())
            inb = lambda kk: And(0 <= kk, kk < c.n)
            if fname.endswith('union'):
                self.assume(ForAll([x], Implies(S[x], Or(ini.arr[x], And(inb(w(x)), c.at(w(x))[x]))), patterns=[S[x]]))
                self.assume(ForAll([x, k], Implies(And(inb(k), c.at(k)[x]), S[x]), patterns=[c.at(k)[x]]))
                self.assume(sub(ini.arr, S))
            else:
                self.assume(ForAll([x], Implies(And(ini.arr[x], Not(S[x])), And(inb(w(x)), Not(c.at(w(x))[x]))), patterns=[S[x]]))
                self.assume(ForAll([x, k], Implies(And(inb(k), S[x]), c.at(k)[x]), patterns=[c.at(k)[x]]))
                self.assume(sub(S, ini.arr))
            return self.new_cell(CSet(c.ety[1], S))
        if isinstance(f, VFunc) and len(args) > 2 and isinstance(it, VSeq):
            return self.fold(f, it, args[2], e)
        raise Unsupported('reduce')

    def fold(self, f, it, start, e):
        """reduce is the loop  reduce_result = f(reduce_result, x)"""
        fn, fenv = self.funcs[-1]
        hint = (self.loop_hints.get(fn.qual) or {}).get('reduce')
        env2 = self.new_env(fenv, self.envs[fenv]['mod'])
        self.envs[env2]['vars']['reduce_result'] = start

        def body():
            self.store('reduce_result', self.call(f, [self.envs[env2]['vars']['reduce_result'], self.cur_item], {}), env2)
        fake = ast.Pass()
        fake.body, fake.orelse = [], []
        fake.lineno, fake.col_offset, fake.end_lineno = e.lineno, e.col_offset, e.end_lineno
        self.loop(fake, env2, it, body=body, hint=hint or self.nohint, name='%s reduce' % fn.node.name)
        return self.envs[env2]['vars']['reduce_result']

    def x_collections_Counter(self, args, kwargs, e, env):
        """how often each value occurs in a list (looking up a value that does not occur is not modelled)"""
        c = self.sym(args[0]) if len(args) == 1 and not kwargs else None
        if not isinstance(c, CList) or c.ety != 'int':
            raise Unsupported('Counter')
        hi = simplify(c.off + c.n)
        D = self.fresh('counts', ArraySort(IntSort(), IntSort()))
        self.assume(self.forall([IntSort()], lambda v: D[v] == L.occ(c.arr, c.off, hi, v), lambda v: D[v]))
        return self.new_cell(CDict('int', 'int', rng(c.arr, c.off, hi), D))

    def x_collections_defaultdict(self, args, kwargs, e, env):
        f = args[0] if args else NONE
        name = f.name if isinstance(f, VExt) else None
        d = {'builtins.list': lambda: self.new_cell(CListC([])), 'builtins.int': lambda: VZ('int', I(0)), 'builtins.set': lambda: self.new_cell(CSet(None, None))}.get(name)
        if d is None:
            raise Unsupported('defaultdict')
        return self.typed_cell(e, env, CDict(None, None, None, None, d))

    def each_once(self, v):
        """iteration over the values; a list without repetitions counts as the set of its elements (the order is left open)"""
        c = self.content(v) if isinstance(v, (VCell, VFro, VLoc)) else None
        if isinstance(c, CList) and self.proved(L.dist(c.arr, c.off, c.off + c.n)):
            return VSetIter(L.rng(c.arr, c.off, c.off + c.n), c.ety, lambda x: self.decode(x, c.ety))
        return self.iterable(v)

    def x_itertools_product(self, args, kwargs, e, env):
        its = [self.each_once(a) for a in args]
        if len(its) == 2 and all(isinstance(i, VSetIter) for i in its):
            a, b = its
            ty = ('tuple', a.ety, b.ety)
            s = key_sort(ty)
            P = self.fresh('prod', ArraySort(s, BoolSort()))
            p = Const('p!%d' % self.fresh_n, s)
            self.assume(ForAll([p], P[p] == And(mem(L.proj(p, 0), a.arr), mem(L.proj(p, 1), b.arr)), patterns=[P[p]]))
            return VSetIter(P, ty, lambda x: self.decode(x, ty))
        raise Unsupported('product')

    # ------------------------------------------------------------ attributes of builtin values
    def builtin_attr(self, o, name):
        if isinstance(o, (VStr,)) or (isinstance(o, VZ) and o.ty == 'V'):
            return VSpec('str.' + name, lambda it, args, kw: self.str_method(o, name, args))
        if isinstance(o, (VCell, VFro, VLoc)):
            c = self.content(o)
            if isinstance(c, CFile):
                return VSpec('file.' + name, lambda it, args, kw: self.file_method(o, name, args, kw))
            if isinstance(c, CNd2) or isinstance(c, CNd1):
                if name == 'shape':
                    return VTuple([VZ('int', c.n), VZ('int', c.m)] if isinstance(c, CNd2) else [VZ('int', c.n)])
                if name == 'T' and isinstance(c, CNd2):
                    return self.np_transpose(c)
                kind = 'nd'
            else:
                kind = {CSet: 'set', CDict: 'dict'}.get(type(c), 'list')
            m = getattr(self, 'm_%s_%s' % (kind, name), None)
            if m is None:
                known = {'set': set, 'list': list, 'dict': dict}.get(kind)
                if known is not None and not hasattr(known, name):
                    raise SymRaise('AttributeError')
                raise Unsupported('method %s.%s' % (kind, name))
            return VSpec(kind + '.' + name, lambda it, args, kw: m(o, args, kw))
        if isinstance(o, VTuple) and name in ('index', 'count'):
            raise Unsupported('tuple method')
        if isinstance(o, VTuple):
            raise SymRaise('AttributeError')
        if isinstance(o, VSeq) and name == 'tolist':
            return VSpec('tolist', lambda it, args, kw: self.seq_to_list(o))
        if isinstance(o, VExc):
            raise Unsupported('attribute of an exception')
        if o is NONE or isinstance(o, VSetIter):
            raise SymRaise('AttributeError')
        raise Unsupported('attribute %s of %s' % (name, type(o).__name__))

    def str_method(self, o, name, args):
        if isinstance(o, VStr) and all(isinstance(a, VStr) for a in args) and name in ('strip', 'lower', 'upper', 'startswith', 'endswith', 'split', 'join'):
            r = getattr(o.s, name)(*[a.s for a in args])
            if isinstance(r, str):
                return VStr(r)
            if isinstance(r, bool):
                return VZ('bool', B(r))
            return self.new_cell(CListC([VStr(x) for x in r]))
        if name in ('startswith', 'endswith', 'isdigit'):
            ts = [self.encode(o, 'V')] + [self.encode(a, 'V') for a in args]
            return VZ('bool', self.uf('str_' + name, BoolSort(), *ts))
        if name == 'join' and len(args) == 1 and isinstance(args[0], (VCell, VFro)) and isinstance(self.content(args[0]), CListC) and self.content(args[0]).items:
            its = self.content(args[0]).items
            return self.text_concat([its[0]] + [x for y in its[1:] for x in (o, y)])
        if name in ('format', 'strip', 'lower', 'upper', 'replace', 'rstrip', 'lstrip', 'encode', 'decode', 'join'):
            if name == 'strip' and not args and isinstance(o, VZ):
                return VZ('V', self.strip(o.t))
            if name == 'join' and len(args) == 1:
                if isinstance(args[0], VSeq):
                    args = [self.seq_to_list(args[0])]
                r = self.opaque_str('str.join', [o] + list(args))
                if is_app(r.t) and r.t.decl().eq(JOIN):
                    self.join_facts(o, r.t, r.t.arg(1))
                return r
            if name == 'format' and isinstance(o, VStr) and o.s.count('{') == o.s.count('{}') == o.s.count('}') == len(args):
                ps = o.s.split('{}')
                return self.text_concat([VStr(ps[0])] + [x for v, p in zip(args, ps[1:]) for x in (self.bi_str([v], {}, None, None), VStr(p))])
            if name == 'format' and isinstance(o, VStr):
                return self.opaque_str('format:' + o.s, list(args))
            return self.opaque_str('str.' + name, [o] + list(args))
        if name == 'split':
            ts = [self.encode(o, 'V')] + [self.encode(a, 'V') for a in args]
            d = L.list_dt(V)
            t = self.uf('str_split%d' % len(ts), d, *ts)
            self.assume(L.list_n(t) >= 0)
            return self.new_cell(self.unpack(t, ('list', 'V')))
        raise Unsupported('string method ' + name)

    # sets
    def m_set_copy(self, o, args, kw):
        c = self.content(o)
        r = CSet(c.ety, c.arr)
        r.site = getattr(c, 'site', None)
        return self.new_cell(r)

    def m_set_add(self, o, args, kw):
        c = self.content(o)
        if c.arr is None:
            self.learn_type(o, self.typeof(args[0]))
        n = CSet(c.ety, L.add(c.arr, self.key(args[0], c.ety)))
        self.set_content(o, self.keep_site(n, c))
        self.freeze(args[0], 'set')
        return NONE

    def m_set_remove(self, o, args, kw):
        c = self.content(o)
        if c.arr is None:
            raise SymRaise('KeyError')
        k = self.key(args[0], c.ety)
        self.maybe_raise(Not(mem(k, c.arr)), 'KeyError')
        self.set_content(o, self.keep_site(CSet(c.ety, L.remove(c.arr, k)), c))
        return NONE

    def m_set_discard(self, o, args, kw):
        c = self.content(o)
        if c.arr is None:
            return NONE
        self.set_content(o, self.keep_site(CSet(c.ety, L.remove(c.arr, self.key(args[0], c.ety))), c))
        return NONE

    def m_set_pop(self, o, args, kw):
        c = self.content(o)
        if c.arr is None:
            raise SymRaise('KeyError')
        self.maybe_raise(Not(self.nonempty(c.arr)), 'KeyError')
        k = self.fresh('popped', c.arr.sort().domain())
        self.assume(mem(k, c.arr))
        self.set_content(o, self.keep_site(CSet(c.ety, L.remove(c.arr, k)), c))
        return self.unkey(k, c.ety)

    def m_set_clear(self, o, args, kw):
        c = self.content(o)
        if c.arr is not None:
            self.set_content(o, self.keep_site(CSet(c.ety, L.empty(c.arr.sort().domain())), c))
        return NONE

    def to_set_val(self, v):
        if self.as_set(v) is not None:
            return v
        return self.bi_set([v], {}, None, None)

    def set_nary(self, op, o, args):
        r = o
        for a in args:
            r = self.binop(op, r, self.to_set_val(a))
        if r is o:
            r = self.m_set_copy(o, [], {})
        return r

    def m_set_union(self, o, args, kw):
        return self.set_nary(ast.BitOr(), o, args)

    def m_set_intersection(self, o, args, kw):
        return self.set_nary(ast.BitAnd(), o, args)

    def m_set_difference(self, o, args, kw):
        return self.set_nary(ast.Sub(), o, args)

    def m_set_symmetric_difference(self, o, args, kw):
        return self.set_nary(ast.BitXor(), o, args)

    def m_set_update(self, o, args, kw):
        for a in args:
            self.inplace(ast.BitOr(), o, self.to_set_val(a))
        return NONE

    def m_set_difference_update(self, o, args, kw):
        for a in args:
            self.inplace(ast.Sub(), o, self.to_set_val(a))
        return NONE

    def m_set_intersection_update(self, o, args, kw):
        for a in args:
            self.inplace(ast.BitAnd(), o, self.to_set_val(a))
        return NONE

    def m_set_issubset(self, o, args, kw):
        return VZ('bool', self.compare(ast.LtE(), o, self.to_set_val(args[0])))

    def m_set_issuperset(self, o, args, kw):
        return VZ('bool', self.compare(ast.GtE(), o, self.to_set_val(args[0])))

    def m_set_isdisjoint(self, o, args, kw):
        r = self.binop(ast.BitAnd(), o, self.to_set_val(args[0]))
        return VZ('bool', Not(self.truth(r)))

    def bi_set_union(self, args, kwargs, e, env):
        return self.set_nary(ast.BitOr(), args[0], args[1:])

    def bi_set_intersection(self, args, kwargs, e, env):
        return self.set_nary(ast.BitAnd(), args[0], args[1:])

    # lists
    def m_list_append(self, o, args, kw):
        self.list_append(o, args[0])
        return NONE

    def m_list_extend(self, o, args, kw):
        self.list_extend(o, args[0])
        return NONE

    def m_list_copy(self, o, args, kw):
        return self.slice(o, None, None)

    def sym(self, o):
        c = self.content(o)
        if isinstance(c, CListC):
            ty = self.list_ety(c)
            if ty is None:
                return None
            return self.sym_list(c, ty)
        return c

    def m_list_index(self, o, args, kw):
        c = self.content(o)
        c = self.sym(o)
        if c is None:
            raise SymRaise('ValueError')
        if isinstance(c.ety, tuple) and c.ety[0] == 'ref':
            kx = self.ref_key(self.encode(args[0], c.ety), c.ety[1])
            eq = lambda k: self.ref_key(c.at(k), c.ety[1]) == kx
            self.maybe_raise(Not(self.contains(o, args[0])), 'ValueError')
            j = self.fresh('pos', IntSort())
            self.assume(And(0 <= j, j < c.n, eq(j)))
            self.assume(self.forall([IntSort()], lambda k: Implies(And(0 <= k, k < j), Not(eq(k))), lambda k: c.at(k)))
            return VZ('int', j)
        t = self.encode(args[0], c.ety)
        S = rng(c.arr, c.off, simplify(c.off + c.n))
        self.maybe_raise(Not(mem(t, S)), 'ValueError')
        k = L.first(c.arr, c.off, t)
        # first position at or after the offset
        self.assume(And(c.off <= k, k < c.off + c.n, c.arr[k] == t))
        return VZ('int', simplify(k - c.off))

    def m_list_count(self, o, args, kw):
        c = self.sym(o)
        if c is None:
            return VZ('int', I(0))
        t = self.encode(args[0], c.ety)
        n = self.fresh('cnt', IntSort())
        w = self.fresh('cw', IntSort())
        w2 = self.fresh('cw', IntSort())
        inb = lambda k: And(0 <= k, k < c.n, c.at(k) == t)
        self.assume(n >= 0)
        self.assume(Implies(n >= 1, inb(w)))
        self.assume(Implies(n >= 2, And(inb(w2), w2 != w)))
        self.assume(self.forall([IntSort()], lambda k: Implies(inb(k), And(n >= 1, Implies(n == 1, k == w))), lambda k: c.at(k)))
        return VZ('int', n)

    def m_list_pop(self, o, args, kw):
        c = self.content(o)
        if isinstance(c, CListC) and not args:
            if not c.items:
                raise SymRaise('IndexError')
            self.set_content(o, self.keep_site(CListC(c.items[:-1]), c))
            return c.items[-1]
        c = self.sym(o)
        if c is None:
            raise SymRaise('IndexError')
        self.maybe_raise(c.n == 0, 'IndexError')
        if not args:
            v = self.decode(c.at(simplify(c.n - 1)), c.ety)
            self.set_content(o, self.keep_site(CList(c.ety, simplify(c.n - 1), c.arr, c.off), c))
            return v
        j = self.norm_index(self.index_term(args[0]), c.n)
        v = self.decode(c.at(j), c.ety)
        self.set_content(o, self.without(c, j))
        return v

    def m_list_remove(self, o, args, kw):
        c = self.content(o)
        c = self.sym(o)
        if c is None:
            raise SymRaise('ValueError')
        if isinstance(c.ety, tuple) and c.ety[0] == 'ref':
            kx = self.ref_key(self.encode(args[0], c.ety), c.ety[1])
            eq = lambda k: self.ref_key(c.at(k), c.ety[1]) == kx
        else:
            t = self.encode(args[0], c.ety)
            eq = lambda k: c.at(k) == t
        self.maybe_raise(Not(self.contains(o, args[0])), 'ValueError')
        j = self.fresh('rem', IntSort())
        self.assume(And(0 <= j, j < c.n, eq(j)))
        self.assume(self.forall([IntSort()], lambda k: Implies(And(0 <= k, k < j), Not(eq(k))), lambda k: c.at(k)))
        self.set_content(o, self.without(c, j))
        return NONE

    def m_list_insert(self, o, args, kw):
        c = self.sym(o)
        if c is None:
            self.list_append(o, args[1])
            return NONE
        k = self.index_term(args[0])
        j = self.clamp(args[0], c.n, None)
        t = self.encode(args[1], c.ety)
        a = self.fresh('ins', ArraySort(IntSort(), sort_of(c.ety)))
        self.assume(self.forall([IntSort()], lambda k: a[k] == If(k < j, c.at(k), If(k == j, t, c.at(k - 1))), lambda k: a[k]))
        self.assume(self.forall([IntSort()], lambda k: If(k < j, a[k], a[k + 1]) == c.at(k), lambda k: c.at(k)))
        self.set_content(o, self.keep_site(CList(c.ety, simplify(c.n + 1), a), c))
        return NONE

    def m_list_sort(self, o, args, kw):
        c = self.sym(o)
        if c is None:
            return NONE
        r = self.permutation(c)
        self.order_facts(r, kw.get('key'), kw.get('reverse'))
        self.set_content(o, self.keep_site(r, c))
        return NONE

    def m_list_reverse(self, o, args, kw):
        c = self.sym(o)
        if c is None:
            return NONE
        a = self.fresh('rev', ArraySort(IntSort(), sort_of(c.ety)))
        self.assume(self.forall([IntSort()], lambda k: a[k] == c.at(c.n - 1 - k), lambda k: a[k]))
        self.set_content(o, self.keep_site(CList(c.ety, c.n, a), c))
        return NONE

    # dicts
    def m_dict_keys(self, o, args, kw):
        return self.iterable(o)

    def stored_key(self, c, k):
        """the object a dictionary has as its key"""
        rep = getattr(c, 'rep', None)
        return VZ(c.kty, rep(k)) if rep else self.unkey(k, c.kty)

    def m_dict_items(self, o, args, kw):
        c = self.content(o)
        if c.dom is None:
            return []

        def get(k):
            c2 = self.content(o)
            if isinstance(c2.vty, tuple) and c2.vty[0] in ('set', 'list'):
                return VTuple([self.stored_key(c2, k), VLoc('item', o, k, 'item', c2.vty)])
            return VTuple([self.stored_key(c2, k), self.decode(Select(c2.val, k), c2.vty)])
        return self.dict_iter(o, c, get)

    def m_dict_values(self, o, args, kw):
        c = self.content(o)
        if c.dom is None:
            return []
        return self.dict_iter(o, c, lambda k: self.decode(Select(self.content(o).val, k), c.vty))

    def m_dict_get(self, o, args, kw):
        c = self.content(o)
        dflt = args[1] if len(args) > 1 else NONE
        if c.dom is None:
            return dflt
        k = self.key(args[0], c.kty)
        if self.decide(mem(k, c.dom)):
            return self.decode(Select(c.val, k), c.vty)
        return dflt

    def m_dict_copy(self, o, args, kw):
        c = self.content(o)
        return self.new_cell(CDict(c.kty, c.vty, c.dom, c.val, c.default))

    def m_dict_pop(self, o, args, kw):
        c = self.content(o)
        k = self.key(args[0], c.kty)
        self.maybe_raise(Not(mem(k, c.dom)), 'KeyError')
        v = self.decode(Select(c.val, k), c.vty)
        self.set_content(o, CDict(c.kty, c.vty, L.remove(c.dom, k), c.val, c.default))
        return v

    # ------------------------------------------------------------ numpy
    def m_nd_nonzero(self, o, args, kw):
        c = self.content(o)
        if isinstance(c, CNd2):
            return self.nonzero2(c)
        if c.ety != 'bool':
            raise Unsupported('nonzero of non-boolean array')
        src = self.fresh('nz', ArraySort(IntSort(), IntSort()))
        ln = self.fresh('nz_n', IntSort())
        inv = self.fresh_fn('nzi', IntSort(), IntSort())
        n = c.n
        j = Const('j!%d' % self.fresh_n, IntSort())
        k = Const('k!%d' % self.fresh_n, IntSort())
        self.assume(And(ln >= 0, ln <= n))
        at = lambda t: c.at(t) if not is_quantifier(c.arr) else simplify(Select(c.arr, t))
        self.assume(ForAll([j], Implies(And(0 <= j, j < ln), And(0 <= src[j], src[j] < n, at(src[j]), inv(src[j]) == j)), patterns=[src[j]]))
        self.assume(ForAll([j, k], Implies(And(0 <= j, j < k, k < ln), src[j] < src[k]), patterns=[MultiPattern(src[j], src[k])]))
        self.assume(ForAll([k], Implies(And(0 <= k, k < n, at(k)), And(0 <= inv(k), inv(k) < ln, src[inv(k)] == k)), patterns=[at(k)]))
        r = self.new_cell(CNd1('int', ln, src))
        return VTuple([r])

    def nonzero2(self, c):
        if c.ety != 'bool':
            raise Unsupported('nonzero of non-boolean array')
        R = self.fresh('nzr', ArraySort(IntSort(), IntSort()))
        C = self.fresh('nzc', ArraySort(IntSort(), IntSort()))
        ln = self.fresh('nz_n', IntSort())
        inv = self.fresh_fn('nzi', IntSort(), IntSort(), IntSort())
        j = Const('j!%d' % self.fresh_n, IntSort())
        k = Const('k!%d' % self.fresh_n, IntSort())
        f = Implies(And(0 <= j, j < ln), And(0 <= R[j], R[j] < c.n, 0 <= C[j], C[j] < c.m, c.arr[R[j]][C[j]], inv(R[j], C[j]) == j))
        self.assume(ln >= 0)
        self.assume(ForAll([j], f, patterns=[R[j]]))
        self.assume(ForAll([j], f, patterns=[C[j]]))
        self.assume(ForAll([j, k], Implies(And(0 <= j, j < c.n, 0 <= k, k < c.m, c.arr[j][k]),
                                           And(0 <= inv(j, k), inv(j, k) < ln, R[inv(j, k)] == j, C[inv(j, k)] == k)), patterns=[c.arr[j][k]]))
        return VTuple([self.new_cell(CNd1('int', ln, R)), self.new_cell(CNd1('int', ln, C))])

    def m_nd_copy(self, o, args, kw):
        c = self.content(o)
        if isinstance(c, CNd2):
            return self.new_cell(CNd2(c.ety, c.n, c.m, c.arr))
        if is_quantifier(c.arr):
            a = self.fresh('colcopy', ArraySort(IntSort(), sort_of(c.ety)))
            self.assume(self.forall([IntSort()], lambda k: a[k] == simplify(Select(c.arr, k)), lambda k: a[k]))
            return self.new_cell(CNd1(c.ety, c.n, a))
        return self.new_cell(CNd1(c.ety, c.n, c.arr, c.off))

    def m_nd_tolist(self, o, args, kw):
        c = self.content(o)
        if isinstance(c, CNd2):
            lt = L.list_dt(sort_of(c.ety))
            A = self.fresh('tl', ArraySort(IntSort(), lt))
            self.assume(self.forall([IntSort()], lambda k: And(L.list_n(A[k]) == c.m, L.list_a(A[k]) == c.arr[k]), lambda k: A[k]))
            return self.new_cell(CList(('list', c.ety), c.n, A))
        c = self.content(self.m_nd_copy(o, [], {}))
        return self.new_cell(CList(c.ety, c.n, c.arr, c.off))

    def m_nd_any(self, o, args, kw):
        c = self.content(o)
        return VZ('bool', self.exists([IntSort()], lambda k: And(0 <= k, k < c.n, c.at(k))))

    def m_nd_all(self, o, args, kw):
        c = self.content(o)
        return VZ('bool', self.forall([IntSort()], lambda k: Implies(And(0 <= k, k < c.n), c.at(k))))

    def m_nd_reshape(self, o, args, kw):
        c = self.content(o)
        a, b = [self.index_term(x) for x in (args[0].items if isinstance(args[0], VTuple) else args)]
        if isinstance(c, CNd2):
            if self.decide(And(c.n == a, c.m == b)):
                return self.new_cell(CNd2(c.ety, c.n, c.m, c.arr))
            if self.decide(And(Or(c.n == 0, c.m == 0), Or(a == 0, b == 0), a >= 0, b >= 0)):
                return self.new_cell(CNd2(c.ety, a, b, self.fresh('rs', c.arr.sort())))
            self.maybe_raise(c.n * c.m != a * b, 'ValueError')
        raise Unsupported('reshape')

    def np_table(self, v, ety=None):
        """CNd2 content of a table-like value; raises ValueError for ragged rows"""
        c = self.content(v) if isinstance(v, (VCell, VFro, VLoc)) else None
        if isinstance(c, CNd2):
            return CNd2(c.ety, c.n, c.m, c.arr)
        if isinstance(c, CListC):
            if not c.items:
                return CNd2(ety or 'bool', I(0), I(0), self.fresh('e', ArraySort(IntSort(), ArraySort(IntSort(), sort_of(ety or 'bool')))))
            rows = [self.as_list_content(x, ety) for x in c.items]
            m = rows[0].n
            et = rows[0].ety
            for r in rows[1:]:
                self.maybe_raise(r.n != m, 'ValueError')
            a = self.fresh('arr', ArraySort(IntSort(), ArraySort(IntSort(), sort_of(et))))
            for k, r in enumerate(rows):
                self.assume(self.forall([IntSort()], lambda x, k=k, r=r: Implies(And(0 <= x, x < m), a[k][x] == r.at(x)), lambda x, k=k: a[k][x]))
            return CNd2(et, I(len(rows)), m, a)
        if isinstance(c, CList) and isinstance(c.ety, tuple) and c.ety[0] in ('list', 'nd1'):
            et = c.ety[1]
            if self.decide(c.n == 0):
                return CNd2(et, I(0), I(0), self.fresh('e', ArraySort(IntSort(), ArraySort(IntSort(), sort_of(et)))))
            m = L.list_n(c.at(I(0)))
            k = Const('k!%d' % self.fresh_n, IntSort())
            self.fresh_n += 1
            rag = self.exists([IntSort()], lambda k: And(0 <= k, k < c.n, L.list_n(c.at(k)) != m))
            if not self.proved(Not(rag)):
                self.maybe_raise(rag, 'ValueError')
            self.assume(self.forall([IntSort()], lambda k: Implies(And(0 <= k, k < c.n), L.list_n(c.at(k)) == m), lambda k: c.at(k)))
            a = self.fresh('arr', ArraySort(IntSort(), ArraySort(IntSort(), sort_of(et))))
            self.assume(self.forall([IntSort()], lambda k: a[k] == L.list_a(c.at(k)), lambda k: a[k]))
            return CNd2(et, c.n, m, a)
        raise Unsupported('array of %s' % type(c).__name__)

    def x_numpy_array(self, args, kwargs, e, env):
        dt = kwargs.get('dtype')
        v = args[0]
        flat = self.content(v) if isinstance(v, (VCell, VFro, VLoc)) else None
        if isinstance(flat, CListC):
            ty = self.list_ety(flat)
            if ty in ('bool', 'int', 'V'):
                flat = self.sym_list(flat, ty)
        if isinstance(flat, CList) and flat.ety in ('bool', 'int', 'V'):
            return self.np_flat(flat, dt)
        c = self.np_table(v)
        want = None
        want = self.np_dtype(dt)
        if want and want != c.ety:
            if want == 'V' and c.ety == 'bool' or want == 'bool':
                if want == 'bool' and c.ety == 'int':
                    a = self.fresh('arr', ArraySort(IntSort(), ArraySort(IntSort(), BoolSort())))
                    self.assume(self.forall([IntSort(), IntSort()], lambda i, j: a[i][j] == (c.arr[i][j] != 0), lambda i, j: a[i][j]))
                    return self.new_cell(CNd2('bool', c.n, c.m, a))
            raise Unsupported('dtype conversion %s -> %s' % (c.ety, want))
        return self.new_cell(c)

    def np_dtype(self, dt):
        if dt is None or dt is NONE:
            return None
        k = dt.s if isinstance(dt, VStr) else dt.name if isinstance(dt, (VType, VExt)) else None
        k = (k or '').split('.')[-1]
        if k not in ('bool', 'object'):
            raise Unsupported('dtype %s %s' % (k, type(dt)))
        return {'bool': 'bool', 'object': 'V'}[k]

    def np_flat(self, c, dt):
        want = self.np_dtype(dt)
        a = self.fresh('arr', ArraySort(IntSort(), sort_of(want or c.ety)))
        if want in (None, c.ety):
            self.assume(self.forall([IntSort()], lambda i: a[i] == c.at(i), lambda i: a[i]))
        elif want == 'bool' and c.ety == 'int':
            self.assume(self.forall([IntSort()], lambda i: a[i] == (c.at(i) != 0), lambda i: a[i]))
        else:
            raise Unsupported('dtype conversion %s -> %s' % (c.ety, want))
        return self.new_cell(CNd1(want or c.ety, c.n, a))

    def x_numpy_asarray(self, args, kwargs, e, env):
        if isinstance(args[0], VCell) and isinstance(self.content(args[0]), CNd2):
            return args[0]
        return self.x_numpy_array(args, kwargs, e, env)

    def x_numpy_delete(self, args, kwargs, e, env):
        c = self.content(args[0])
        axis = simplify(self.index_term(args[2]))
        if not isinstance(c, CNd2) or not is_int_value(axis):
            raise Unsupported('np.delete')
        axis = axis.as_long()
        k = self.index_term(args[1])
        ln = c.n if axis == 0 else c.m
        a = self.fresh('npdel', c.arr.sort())
        if k is not None:
            j = self.norm_index(k, ln)
            if axis == 0:
                self.assume(self.forall([IntSort()], lambda i: a[i] == If(i < j, c.arr[i], c.arr[i + 1]), lambda i: a[i]))
                return self.new_cell(CNd2(c.ety, simplify(c.n - 1), c.m, a))
            self.assume(self.forall([IntSort(), IntSort()], lambda i, y: a[i][y] == If(y < j, c.arr[i][y], c.arr[i][y + 1]), lambda i, y: a[i][y]))
            return self.new_cell(CNd2(c.ety, c.n, simplify(c.m - 1), a))
        ks = self.as_list_content(args[1], 'int')
        bad = self.exists([IntSort()], lambda i: And(0 <= i, i < ks.n, Not(And(0 <= ks.at(i), ks.at(i) < ln))))
        if not self.proved(Not(bad)):
            raise Unsupported('np.delete with positions that may be out of range')
        D = rng(ks.arr, ks.off, simplify(ks.off + ks.n))
        pk = L.pick_f()
        m = L.kept(D, ln)
        if axis == 0:
            self.assume(self.forall([IntSort()], lambda i: Implies(And(0 <= i, i < m), a[i] == c.arr[pk(D, i)]), lambda i: a[i]))
            return self.new_cell(CNd2(c.ety, m, c.m, a))
        self.assume(self.forall([IntSort(), IntSort()], lambda i, y: Implies(And(0 <= y, y < m), a[i][y] == c.arr[i][pk(D, y)]), lambda i, y: a[i][y]))
        return self.new_cell(CNd2(c.ety, c.n, m, a))

    def np_append_col(self, t, col):
        c = self.content(t)
        r = self.as_list_content(col, c.ety)
        self.maybe_raise(r.n != c.n, 'ValueError')
        a = self.fresh('cc', c.arr.sort())
        self.assume(self.forall([IntSort(), IntSort()], lambda i, j: Implies(And(0 <= i, i < c.n), a[i][j] == If(j == c.m, r.at(i), c.arr[i][j])), lambda i, j: a[i][j]))
        return self.new_cell(CNd2(c.ety, c.n, simplify(c.m + 1), a))

    def x_numpy_vstack(self, args, kwargs, e, env):
        parts = self.iterable(args[0])
        if not isinstance(parts, list) or len(parts) != 2:
            raise Unsupported('vstack')
        c = self.content(parts[0])
        d = self.np_table(parts[1], c.ety)
        self.maybe_raise(c.m != d.m, 'ValueError')
        if c.ety != d.ety:
            raise Unsupported('vstack of different types')
        if is_int_value(d.n) and d.n.as_long() == 1:
            a = Store(c.arr, c.n, d.arr[0])
        else:
            a = self.fresh('vs', c.arr.sort())
            self.assume(self.forall([IntSort()], lambda i: a[i] == If(i < c.n, c.arr[i], d.arr[i - c.n]), lambda i: a[i]))
        return self.new_cell(CNd2(c.ety, simplify(c.n + d.n), c.m, a))

    def np_transpose(self, c):
        a = self.fresh('tr', c.arr.sort())
        self.assume(self.forall([IntSort(), IntSort()], lambda i, j: a[i][j] == c.arr[j][i], lambda i, j: a[i][j]))
        return VFro(CNd2(c.ety, c.m, c.n, a))

    def x_numpy_matrix(self, args, kwargs, e, env):
        c = self.np_table(args[0])
        if c.ety != 'bool':
            raise Unsupported('matrix')
        r = CNd2(c.ety, c.n, c.m, c.arr)
        r.matrix = True
        return self.new_cell(r)

    def np_binop(self, t, a, b):
        ca = self.content(a) if isinstance(a, (VCell, VFro, VLoc)) else None
        cb = self.content(b) if isinstance(b, (VCell, VFro, VLoc)) else None
        if t is ast.Mult and isinstance(ca, CNd2) and isinstance(cb, CNd2) and getattr(ca, 'matrix', 0) and getattr(cb, 'matrix', 0):
            self.maybe_raise(ca.m != cb.n, 'ValueError')
            r = self.fresh('prod', ca.arr.sort())
            w = self.fresh_fn('prodw', IntSort(), IntSort(), IntSort())
            self.assume(self.forall([IntSort(), IntSort()], lambda i, j: Implies(r[i][j], And(0 <= w(i, j), w(i, j) < ca.m, ca.arr[i][w(i, j)], cb.arr[w(i, j)][j])), lambda i, j: r[i][j]))
            self.assume(self.forall([IntSort()] * 3, lambda i, j, k: Implies(And(0 <= k, k < ca.m, ca.arr[i][k], cb.arr[k][j]), r[i][j]), lambda i, j, k: [(ca.arr[i][k], cb.arr[k][j])]))
            return self.new_cell(CNd2('bool', ca.n, cb.m, r))
        if isinstance(ca, CNd1) and isinstance(cb, CNd1) and ca.ety == cb.ety == 'bool' and t in (ast.BitAnd, ast.BitOr):
            return self.nd1_op(t, ca, cb)
        return None

    def nd1_op(self, t, ca, cb):
        self.maybe_raise(ca.n != cb.n, 'ValueError')
        r = self.fresh('ew', ArraySort(IntSort(), BoolSort()))
        f = And if t is ast.BitAnd else Or
        at = lambda c, k: simplify(Select(c.arr, k)) if is_quantifier(c.arr) else c.at(k)
        self.assume(self.forall([IntSort()], lambda k: r[k] == f(at(ca, k), at(cb, k)), lambda k: r[k]))
        return self.new_cell(CNd1('bool', ca.n, r))

    def np_inplace(self, op, old, rhs):
        if isinstance(old, (VCell, VLoc)):
            c = self.content(old)
            if isinstance(c, CNd1) and type(op) in (ast.BitAnd, ast.BitOr):
                r = self.content(self.nd1_op(type(op), c, self.content(rhs)))
                self.set_content(old, CNd1('bool', c.n, r.arr))
                return old
        return None
