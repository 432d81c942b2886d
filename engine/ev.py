"""Evaluation of expressions and statements."""
import ast
import sys
import builtins
from z3 import *
from . import logic as L
from .logic import V, sort_of, key_sort, sub, mem, card, rng, conj
from .core import *
from .core import _Ret, _Brk, _Cnt
from .models import Models
from .files import Files, CFile, CRows
from . import align


def loops_of(node):
    """loops of a function in source order, nested functions excluded"""
    out = []

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.For, ast.While)):
                out.append(c)
            go(c)
    go(node)
    return out


def assigned_names(s):
    """names bound anew in every iteration of a loop (not those updated in place)"""
    out = set()

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                out.update(x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
        if isinstance(n, ast.For):
            out.update(x.id for x in ast.walk(n.target) if isinstance(x, ast.Name))
        for c in ast.iter_child_nodes(n):
            go(c)
    if isinstance(s, ast.For):
        out.update(x.id for x in ast.walk(s.target) if isinstance(x, ast.Name))
    for x in getattr(s, "body", []):
        go(x)
    return out


STRICT = 'vtest' in sys.argv[0]


def is_datatype_like(x, t):
    """t is x taken apart and put together again"""
    return t.sort() == x.sort() and t.num_args() > 0 and all(a.num_args() == 1 and a.arg(0).eq(x) and a.eq(L.proj(x, i)) for i, a in enumerate(t.children()))


class Exec(Files, Models, Interp):
    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        if hasattr(e, 'lineno'):
            self.line = e.lineno
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, env)

    def ev_Constant(self, e, env):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return VZ('bool', B(v))
        if isinstance(v, int):
            return VZ('int', I(v))
        if isinstance(v, float):
            return VZ('real', RealVal(v))
        if isinstance(v, str):
            return VStr(v)
        raise Unsupported('constant')

    def ev_Name(self, e, env):
        return self.lookup(e.id, env)

    def ev_Tuple(self, e, env):
        return VTuple([self.ev(x, env) for x in e.elts])

    def ev_List(self, e, env):
        c = CListC([self.ev(x, env) for x in e.elts])
        return self.typed_cell(e, env, c)

    def typed_cell(self, e, env, c):
        key = self.site(e)
        t = self.celltypes.get(key)
        if t is None and self.funcs and self.binders:
            t = self.empties.get(self.funcs[-1][0].qual, {}).get({CListC: 'list', CSet: 'set', CDict: 'dict'}[type(c)])
        if isinstance(c, CListC) and not c.items and t:
            c = CList(t, I(0), self.fresh('lst', ArraySort(IntSort(), sort_of(t))))
        if isinstance(c, CSet) and c.arr is None and t:
            c = CSet(t, L.empty(key_sort(t)))
        if isinstance(c, CDict) and c.dom is None and t:
            c = CDict(t[0], t[1], L.empty(key_sort(t[0])), self.fresh('dv', ArraySort(key_sort(t[0]), sort_of(t[1]))), c.default)
        v = self.new_cell(c)
        c.site = key
        return v

    def site(self, e):
        return (getattr(e, 'lineno', 0), getattr(e, 'col_offset', 0), tuple(self.callstack), type(e).__name__)

    def learn_type(self, v, ty):
        """the element type of an initially empty container became known: restart with a typed one"""
        c = self.content(v)
        if isinstance(v, VCell):
            site = getattr(c, 'site', None)
            if site is not None and self.celltypes.get(site) is None:
                self.celltypes[site] = ty
                raise Restart()
        raise Unsupported('cannot infer element type')

    def ev_Set(self, e, env):
        vals = [self.ev(x, env) for x in e.elts]
        ty = self.typeof(vals[0])
        a = L.empty(key_sort(ty))
        for v in vals:
            a = L.add(a, self.key(v, ty))
        return self.new_cell(CSet(ty, a))

    def ev_Dict(self, e, env):
        if not e.keys:
            return self.typed_cell(e, env, CDict(None, None, None, None))
        ks = [self.ev(k, env) for k in e.keys]
        vs = [self.ev(v, env) for v in e.values]
        kt, vt = self.typeof(ks[0]), self.typeof(vs[0])
        d, a = L.empty(key_sort(kt)), self.fresh('dv', ArraySort(key_sort(kt), sort_of(vt)))
        for k, v in zip(ks, vs):
            t = self.key(k, kt)
            d, a = L.add(d, t), Store(a, t, self.encode(v, vt))
        return self.new_cell(CDict(kt, vt, d, a))

    def ev_JoinedStr(self, e, env):
        args = []
        for p in e.values:
            if isinstance(p, ast.FormattedValue):
                args.append(self.ev(p.value, env))
        if all(isinstance(p, ast.Constant) or p.conversion == -1 and p.format_spec is None for p in e.values):
            it = iter(args)
            return self.text_concat([VStr(p.value) if isinstance(p, ast.Constant) else self.bi_str([next(it)], {}, e, env) for p in e.values])
        return self.opaque_str('fstring!' + ast.unparse(e), args)

    def opaque_str(self, name, args):
        ts = []
        for a in args:
            try:
                ts.append(self.encode(a))
            except Unsupported:
                return VZ('V', self.fresh('str', V))
        if not ts:
            return VZ('V', Const(name, V))
        return VZ('V', self.uf(name + '/' + '_'.join(L.sname(t.sort()) for t in ts), V, *ts))

    def ev_Lambda(self, e, env):
        f = VFunc(e, env, self.envs[env]['mod'], None, None)
        self.bind_defaults(f, e.args, env)
        return f

    def bind_defaults(self, f, args, env):
        pos = args.posonlyargs + args.args
        for a, d in zip(pos[len(pos) - len(args.defaults):], args.defaults):
            f.defaults[a.arg] = ('node', d, env)
        for a, d in zip(args.kwonlyargs, args.kw_defaults):
            if d is not None:
                f.defaults[a.arg] = ('node', d, env)

    def ev_IfExp(self, e, env):
        c = self.truth(self.ev(e.test, env))
        if self.lam or self.nobranch:
            def go():
                return self.ev(e.body if self.decide(c) else e.orelse, env)
            return self.merge_or_raise(go)
        return self.ev(e.body if self.decide(c) else e.orelse, env)

    def merge_or_raise(self, fn):
        v, rs = self.merged(fn)
        for c, exc in rs:
            self.maybe_raise(c, exc.cls)
        if v is None:
            raise PathEnd()
        return v

    nohint = None

    def maybe_raise(self, cond, cls, what=''):
        """raise cls if cond; inside a comprehension the decision is postponed"""
        if isinstance(cond, bool):
            cond = B(cond)
        cond = simplify(cond)
        if is_false(cond) or self.proved(Not(cond)):
            return
        if self.binders and not (self.tries and self.tries[-1] == len(self.binders)):
            self.pending[-1].append((self.guards_now(), cond, cls))
            self.assume(Not(cond))
            return
        if self.nobranch:
            raise NeedBranch()
        if self.decide(cond):
            raise SymRaise(cls)

    def local_pc(self):
        return [f for f in self.pc[self.lam_pc[-1]:]] if self.lam_pc else []

    def ev_BoolOp(self, e, env):
        vals = e.values
        is_and = isinstance(e.op, ast.And)
        acc = []
        first = self.ev(vals[0], env)
        if not self.is_boolish(first) or len(vals) == 0:
            return self.boolop_values(e, first, env)
        acc.append(self.truth(first))
        for k, x in enumerate(vals[1:]):
            sofar = conj(acc) if is_and else Or(*acc) if len(acc) > 1 else acc[0]
            guard = sofar if is_and else Not(sofar)
            sg = simplify(guard)
            if is_false(sg):
                return VZ('bool', B(not is_and))
            snap = self.snapshot()
            emit = self.emit_n
            self.nobranch += 1
            mark = len(self.pc)
            self.pc.append(guard)
            try:
                v = self.ev(x, env)
                if not self.is_boolish(v):
                    raise Unsupported('and/or on values')
                t = self.truth(v)
                if not self.lam and self.effects_since(snap):
                    raise NeedBranch()
                self.nobranch -= 1
            except NeedBranch:
                self.nobranch -= 1
                self.restore(snap)
                self.emit_n = emit
                if self.nobranch:
                    raise
                rest = ast.BoolOp(op=e.op, values=vals[k + 1:]) if len(vals[k + 1:]) > 1 else vals[k + 1]
                if self.decide(sofar) == is_and:
                    return VZ('bool', self.truth(self.ev(rest, env)))
                return VZ('bool', B(not is_and))
            new = self.pc[mark + 1:]
            del self.pc[mark:]
            for a in new:
                self.pc.append(Implies(guard, a))
            acc.append(t)
        return VZ('bool', And(*acc) if is_and else Or(*acc))

    def is_boolish(self, v):
        return isinstance(v, VZ) and v.ty == 'bool'

    def boolop_values(self, e, first, env):
        """x and y / x or y on arbitrary values"""
        is_and = isinstance(e.op, ast.And)
        v = first
        for x in e.values[1:]:
            if self.decide(self.truth(v)) != is_and:
                return v
            v = self.ev(x, env)
        return v

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return VZ('bool', Not(self.truth(v)))
        if isinstance(e.op, ast.USub) and isinstance(v, VZ) and v.ty in ('int', 'real'):
            return VZ(v.ty, simplify(-v.t))
        raise Unsupported('unary operator')

    def truth(self, v):
        if isinstance(v, VMaybe):
            v = self.force(v)
        if isinstance(v, VZ):
            if v.ty == 'bool':
                return v.t
            if v.ty in ('int', 'real'):
                return v.t != 0
            if isinstance(v.ty, tuple) and v.ty[0] == 'ref':
                return B(True)
            if v.ty == 'V':
                return self.uf('truthy', BoolSort(), v.t)
        if v is NONE:
            return B(False)
        if isinstance(v, VStr):
            return B(bool(v.s))
        if isinstance(v, VTuple):
            return B(bool(v.items))
        if isinstance(v, (VFunc, VBound, VClass, VSpec)):
            return B(True)
        if isinstance(v, (VCell, VFro, VLoc)):
            c = self.content(v)
            if isinstance(c, CInst):
                m = self.class_attr(c.cls, '__len__')
                if m is not None:
                    return self.call(VBound(m, v), [], {}).t != 0
                return B(True)
            if isinstance(c, CSet):
                if c.arr is None:
                    return B(False)
                return self.nonempty(c.arr)
            if isinstance(c, CDict):
                return B(False) if c.dom is None else self.nonempty(c.dom)
            return self.length(v) != 0
        if isinstance(v, VSeq):
            return v.n != 0
        raise Unsupported('truth value of %s' % type(v).__name__)

    def nonempty(self, a):
        if L.is_empty_term(a):
            return B(False)
        return a != L.empty(a.sort().domain())

    def ev_Compare(self, e, env):
        left = self.ev(e.left, env)
        acc = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            acc.append(self.compare(op, left, right))
            left = right
        return VZ('bool', conj(acc) if len(acc) > 1 else acc[0])

    def compare(self, op, a, b):
        a = self.force(a) if isinstance(a, VMaybe) else a
        b = self.force(b) if isinstance(b, VMaybe) else b
        if isinstance(op, ast.Is) or isinstance(op, ast.IsNot):
            r = self.same(a, b)
            return Not(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, ast.In) or isinstance(op, ast.NotIn):
            r = self.contains(b, a)
            return Not(r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            return Not(self.equal(a, b))
        an, bn = self.num(a), self.num(b)
        if an is not None and bn is not None:
            t = {ast.Lt: lambda: an < bn, ast.LtE: lambda: an <= bn, ast.Gt: lambda: an > bn, ast.GtE: lambda: an >= bn}[type(op)]
            return t()
        sa, sb = self.as_set(a), self.as_set(b)
        if sa is not None and sb is not None:
            sa, sb = self.unify_sets(sa, sb)
            if isinstance(op, ast.LtE):
                return sub(sa, sb)
            if isinstance(op, ast.GtE):
                return sub(sb, sa)
            if isinstance(op, ast.Lt):
                return And(sub(sa, sb), sa != sb)
            if isinstance(op, ast.Gt):
                return And(sub(sb, sa), sa != sb)
        if isinstance(a, VZ) and isinstance(b, VZ) and a.ty == b.ty == 'bool' and isinstance(op, ast.LtE):
            return Implies(a.t, b.t)
        raise Unsupported('comparison')

    def same(self, a, b):
        if a is NONE or b is NONE:
            if a is NONE and b is NONE:
                return B(True)
            o = b if a is NONE else a
            if isinstance(o, VZ) and o.ty == 'V':
                return o.t == strconst('None')
            return B(False)
        if isinstance(a, VZ) and isinstance(b, VZ) and a.ty == b.ty:
            return a.t == b.t
        if isinstance(a, VCell) and isinstance(b, VCell):
            return B(a.i == b.i)
        if isinstance(a, VType) and isinstance(b, VExt):
            return B('builtins.' + a.name == b.name)
        raise Unsupported('identity test')

    def num(self, v):
        if isinstance(v, VZ):
            if v.ty in ('int', 'real'):
                return v.t
            if v.ty == 'bool':
                return If(v.t, I(1), I(0))
        return None

    def as_set(self, v):
        """CSet content of a set-like value, else None"""
        if isinstance(v, (VCell, VFro, VLoc)):
            c = self.content(v)
            if isinstance(c, CSet):
                return c
        return None

    def unify_sets(self, a, b):
        ty = a.ety if a.arr is not None else b.ety
        if ty is None:
            ty = 'V'
        a, b = self.coerce(a, ('set', ty)), self.coerce(b, ('set', ty))
        if a.arr.sort() != b.arr.sort():
            raise Unsupported('sets of different element types')
        return a.arr, b.arr

    def equal(self, a, b):
        if isinstance(a, VType) or isinstance(b, VType):
            def nm(x):
                if isinstance(x, VType):
                    return x.name
                if isinstance(x, VExt):
                    return x.name.replace('builtins.', '')
                if isinstance(x, VClass):
                    return x.name
                raise Unsupported('type comparison')
            return B(nm(a) == nm(b))
        if isinstance(a, (VClass, VExt)) and isinstance(b, (VClass, VExt)):
            return B(a.name == b.name)
        if a is NONE or b is NONE:
            return self.same(a, b)
        if isinstance(a, VStr) and isinstance(b, VStr):
            return B(a.s == b.s)
        an, bn = self.num(a), self.num(b)
        if an is not None and bn is not None:
            return an == bn
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            if len(a.items) != len(b.items):
                return B(False)
            return conj([self.equal(x, y) for x, y in zip(a.items, b.items)])
        sa, sb = self.as_set(a), self.as_set(b)
        if sa is not None and sb is not None:
            x, y = self.unify_sets(sa, sb)
            return x == y
        if (sa is None) != (sb is None) and not isinstance(a, VZ) and not isinstance(b, VZ):
            return B(False)
        if isinstance(a, VZ) and isinstance(b, VZ) and isinstance(a.ty, tuple) and a.ty[0] == 'ref':
            m = self.class_attr_named(a.ty[1], '__eq__')
            if isinstance(b.ty, tuple) and b.ty[0] == 'ref':
                return self.truth(self.call(VBound(m, a), [b], {}))
            raise Unsupported('equality of object and value')
        if isinstance(a, (VCell, VFro, VLoc)) and isinstance(b, (VCell, VFro, VLoc)):
            ca, cb = self.content(a), self.content(b)
            if isinstance(ca, CInst):
                m = self.class_attr(ca.cls, '__eq__')
                if m is None:
                    return self.same(a, b)
                return self.truth(self.call(VBound(m, a), [b], {}))
            return self.list_equal(ca, cb)
        if isinstance(a, VZ) and isinstance(b, VZ) and a.ty == b.ty:
            return a.t == b.t
        try:
            ty = 'V'
            return self.encode(a, ty) == self.encode(b, ty)
        except Unsupported:
            pass
        raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))

    def list_equal(self, a, b):
        ety = a.ety if isinstance(a, CList) else b.ety if isinstance(b, CList) else None
        if isinstance(a, CListC) and isinstance(b, CListC):
            if len(a.items) != len(b.items):
                return B(False)
            return conj([self.equal(x, y) for x, y in zip(a.items, b.items)])
        if ety is None:
            raise Unsupported('list comparison')
        a, b = self.coerce(a, ('list', ety)), self.coerce(b, ('list', ety))
        if not isinstance(a, CList) or not isinstance(b, CList):
            raise Unsupported('comparison of containers')
        if a.ety != b.ety:
            raise Unsupported('comparison of lists of different types')
        if isinstance(ety, tuple) and ety[0] == 'ref':
            raise Unsupported('comparison of object lists')
        if isinstance(ety, tuple) and ety[0] == 'list':
            return And(a.n == b.n, self.forall([IntSort()], lambda k: Implies(And(0 <= k, k < a.n), And(
                L.list_n(a.at(k)) == L.list_n(b.at(k)),
                self.forall([IntSort()], lambda j: Implies(And(0 <= j, j < L.list_n(a.at(k))), L.list_a(a.at(k))[j] == L.list_a(b.at(k))[j]))))))
        return And(a.n == b.n, self.forall([IntSort()], lambda k: Implies(And(0 <= k, k < a.n), a.at(k) == b.at(k))))

    def contains(self, c, x):
        if isinstance(c, VMaybe):
            c = self.force(c)
        if isinstance(c, VTuple):
            return Or(*[self.equal(x, y) for y in c.items]) if c.items else B(False)
        if isinstance(c, (VCell, VFro, VLoc)):
            k = self.content(c)
            if isinstance(k, CInst):
                return self.truth(self.call(VBound(self.class_attr(k.cls, '__contains__'), c), [x], {}))
            if isinstance(k, CSet):
                if k.arr is None:
                    return B(False)
                return mem(self.key(x, k.ety), k.arr)
            if isinstance(k, CDict):
                if k.dom is None:
                    return B(False)
                return mem(self.key(x, k.kty), k.dom)
            if isinstance(k, CListC):
                return Or(*[self.equal(x, y) for y in k.items]) if k.items else B(False)
            if isinstance(k, CList):
                return self.list_contains(k, x)
        raise Unsupported('membership test')

    def list_contains(self, k, x):
        if isinstance(k.ety, tuple) and k.ety[0] == 'ref':
            kx = self.ref_key(self.encode(x, k.ety), k.ety[1])
            return self.exists([IntSort()], lambda i: And(0 <= i, i < k.n, self.ref_key(k.at(i), k.ety[1]) == kx))
        t = self.encode(x, k.ety)
        return mem(t, rng(k.arr, k.off, simplify(k.off + k.n)))

    def ev_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env), e, env)

    def binop(self, op, a, b, e=None, env=None):
        a = self.force(a) if isinstance(a, VMaybe) else a
        b = self.force(b) if isinstance(b, VMaybe) else b
        t = type(op)
        sa, sb = self.as_set(a), self.as_set(b)
        if sa is not None and sb is not None and t in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
            if sa.arr is None and sb.arr is None:
                return self.new_cell(CSet(None, None))
            x, y = self.unify_sets(sa, sb)
            ety = sa.ety or sb.ety
            if t is ast.BitOr:
                r = L.union(x, y)
            elif t is ast.BitAnd:
                r = L.inter(x, y)
            elif t is ast.Sub:
                r = L.diff(x, y)
            else:
                r = L.union(L.diff(x, y), L.diff(y, x))
            return self.new_cell(CSet(ety, r))
        if isinstance(a, VZ) and isinstance(b, VZ) and a.ty in ('int', 'real', 'bool') and b.ty in ('int', 'real', 'bool'):
            return self.arith(t, a, b)
        if t is ast.Add and self.is_list(a) and self.is_list(b):
            return self.list_concat(a, b)
        if t is ast.Mult and self.is_list(a) and isinstance(b, VZ) and b.ty == 'int':
            return self.list_repeat(a, b)
        if t is ast.Mult and self.is_list(b) and isinstance(a, VZ) and a.ty == 'int':
            return self.list_repeat(b, a)
        if t is ast.Mod and (isinstance(a, VStr) or (isinstance(a, VZ) and a.ty == 'V')):
            args = b.items if isinstance(b, VTuple) else [b]
            if isinstance(a, VStr) and a.s.count('%') == a.s.count('%s') == len(args):
                ps = a.s.split('%s')
                r = self.text_concat([VStr(ps[0])] + [x for v, p in zip(args, ps[1:]) for x in (self.bi_str([v], {}, e, env), VStr(p))])
                if not isinstance(b, VTuple) and isinstance(b, VZ) and b.ty == 'V' and not self.is_text(b.t):
                    atom = self.uf('is_no_tuple', BoolSort(), b.t)
                    if self.binders:
                        return VZ('V', If(atom, self.encode(r, 'V'), self.uf('formatted_tuple', V, self.encode(a, 'V'), b.t)))
                    self.oblige(atom, 'formatted value is no tuple')
                return r
            return self.opaque_str('mod!' + (a.s if isinstance(a, VStr) else ''), ([] if isinstance(a, VStr) else [a]) + args)
        if t is ast.Add and self.is_str(a) and self.is_str(b):
            return VZ('V', self.uf('str_concat', V, self.encode(a, 'V'), self.encode(b, 'V')))
        for x, y, nm in ((a, b, {ast.Mult: '__mul__', ast.Add: '__add__'}.get(t)),):
            if nm and isinstance(x, VCell) and isinstance(self.content(x), CInst):
                return self.call(VBound(self.class_attr(self.content(x).cls, nm), x), [y], {})
        r = self.np_binop(t, a, b)
        if r is not None:
            return r
        raise Unsupported('operator %s' % t.__name__)

    def is_str(self, v):
        return isinstance(v, VStr) or (isinstance(v, VZ) and v.ty == 'V')

    def is_list(self, v):
        if isinstance(v, (VCell, VFro, VLoc)):
            c = self.content(v)
            return isinstance(c, (CListC, CList)) and not isinstance(c, CNd1)
        return False

    def arith(self, t, a, b):
        if t is ast.BitAnd and a.ty == b.ty == 'bool':
            return VZ('bool', And(a.t, b.t))
        if t is ast.BitOr and a.ty == b.ty == 'bool':
            return VZ('bool', Or(a.t, b.t))
        x, y = self.num(a), self.num(b)
        if t is ast.Div:
            self.maybe_raise(y == 0, 'ZeroDivisionError')
            x, y = [ToReal(u) if u.is_int() else u for u in (x, y)]
            r = simplify(x / y)
            if not is_rational_value(y) and not is_rational_value(r):
                # facts of arithmetic, spelled out for the solvers
                self.assume(simplify(Implies(y > 0, And((r > 0) == (x > 0), (r < 0) == (x < 0), (r < 1) == (x < y), (r > 1) == (x > y)))))
            return VZ('real', r)
        real = x.is_real() or y.is_real()
        if real:
            x = ToReal(x) if x.is_int() else x
            y = ToReal(y) if y.is_int() else y
        ty = 'real' if real else 'int'
        if t is ast.Add:
            return VZ(ty, simplify(x + y))
        if t is ast.Sub:
            return VZ(ty, simplify(x - y))
        if t is ast.Mult:
            if not real and not is_int_value(x) and not is_int_value(y):
                return VZ('int', L.mul(x, y))
            return VZ(ty, simplify(x * y))
        if t is ast.FloorDiv and not real:
            self.maybe_raise(y == 0, 'ZeroDivisionError')
            self.oblige(y > 0, 'divisor is positive')
            return VZ('int', x / y if is_int_value(y) else L.idiv(x, y))
        if t is ast.Mod and not real:
            self.maybe_raise(y == 0, 'ZeroDivisionError')
            self.oblige(y > 0, 'divisor is positive')
            return VZ('int', x % y if is_int_value(y) else L.imod(x, y))
        if t is ast.Pow and not real:
            if is_int_value(x) and x.as_long() == 2:
                self.oblige(y >= 0, 'exponent is not negative')
                return VZ('int', L.pow2(y))
            return VZ('int', self.uf('pow', IntSort(), x, y))
        if t is ast.BitAnd and not real:
            return VZ('int', L.band(x, y))
        if t is ast.LShift and not real:
            if is_int_value(y) and y.as_long() == 1:
                return VZ('int', simplify(2 * x))
            if is_int_value(x) and x.as_long() == 1:
                self.maybe_raise(y < 0, 'ValueError')
                return VZ('int', L.ones(y) + 1)
            return VZ('int', self.uf('shl', IntSort(), x, y))
        raise Unsupported('arithmetic operator %s' % t.__name__)

    # ------------------------------------------------------------ attributes and subscripts
    def ev_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            out.append(c)
            for b in c.node.bases:
                if isinstance(b, ast.Name) and b.id == 'object':
                    continue
                env = self.new_env(None, c.mod)
                try:
                    bv = self.ev(b, env)
                except (Unsupported, SymRaise):
                    continue
                if isinstance(bv, VClass):
                    todo.append(bv)
        return out

    def class_named(self, name):
        for m in self.prog.mods.values():
            for s in m.tree.body:
                if isinstance(s, ast.ClassDef) and s.name == name:
                    return VClass(m, s)
        raise Unsupported('class ' + name)

    def class_attr_named(self, cname, attr):
        return self.class_attr(self.class_named(cname), attr)

    def class_attr(self, cls, name, after=None):
        """VFunc | ('property', VFunc) | value | None"""
        skip = after is not None
        for c in self.mro(cls):
            if skip:
                if c.name == after.name:
                    skip = False
                continue
            for s in reversed(c.node.body):
                if isinstance(s, ast.FunctionDef) and s.name == name:
                    f = VFunc(s, None, c.mod, c, c.mod.path + ':' + c.name + '.' + s.name)
                    decs = [d.id for d in s.decorator_list if isinstance(d, ast.Name)]
                    if 'property' in decs:
                        return ('property', f)
                    if 'classmethod' in decs:
                        return ('classmethod', f, c)
                    if 'staticmethod' in decs:
                        return ('static', f)
                    return self.decorate(f, s)
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    v = s.value
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                        g = v.args[0].id
                        # the getter is the function of that name in this class body
                        for s2 in c.node.body:
                            if isinstance(s2, ast.FunctionDef) and s2.name == g:
                                f = VFunc(s2, None, c.mod, c, c.mod.path + ':' + c.name + '.' + g)
                                return ('property', self.decorate(f, s2))
                        raise Unsupported('property getter ' + g)
                    env = self.new_env(None, c.mod)
                    return self.ev(v, env)
        return None

    def getattr(self, o, name):
        if isinstance(o, VMaybe):
            o = self.force(o)
        if isinstance(o, VCell):
            c = self.content(o)
            if isinstance(c, CInst):
                if name in c.fields:
                    return c.fields[name]
                a = self.class_attr(c.cls, name)
                if a is None:
                    if name == '__class__':
                        return c.cls
                    raise SymRaise('AttributeError')
                return self.bind(a, o, c.cls)
        if isinstance(o, VZ) and isinstance(o.ty, tuple) and o.ty[0] == 'ref':
            f = FIELDS[ROOT[o.ty[1]]]
            if name in f:
                return VLoc('field', (o.t, o.ty[1]), None, name, f[name])
            a = self.class_attr_named(o.ty[1], name)
            if a is None:
                raise SymRaise('AttributeError')
            return self.bind(a, o, None)
        if isinstance(o, VMod):
            r = self.prog.attr(o.name, name)
            if r is None:
                raise SymRaise('AttributeError')
            return self.from_entry(r)
        if isinstance(o, VExt):
            return VExt(o.name + '.' + name)
        if isinstance(o, VSuper):
            a = self.class_attr(o.cls[0], name, after=o.cls[1])
            if a is None:
                return VExt('builtins.object.' + name)
            return self.bind(a, o.self_, o.cls[0])
        if isinstance(o, VClass):
            a = self.class_attr(o, name)
            if name == '__init__' and a is None:
                return VExt('builtins.object.__init__')
            if isinstance(a, tuple) and a[0] == 'classmethod':
                return VBound(a[1], o)
            if a is None:
                raise SymRaise('AttributeError')
            return a
        if isinstance(o, (VFunc,)):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return VStr(getattr(o.node, 'name', '<lambda>'))
            raise SymRaise('AttributeError')
        if isinstance(o, VSpec) and name == '__name__':
            return VStr(o.name)
        if isinstance(o, VBound):
            if name == '__name__':
                return VStr('method')
            raise SymRaise('AttributeError')
        return self.builtin_attr(o, name)

    def bind(self, a, o, cls):
        if isinstance(a, tuple):
            if a[0] == 'property':
                return self.call(VBound(a[1], o), [], {})
            if a[0] == 'classmethod':
                return VBound(a[1], VClass(a[2].mod, a[2].node))
            if a[0] == 'static':
                return a[1]
        if isinstance(a, (VFunc, VSpec)) or isinstance(a, VExt) and not a.name.startswith('builtins.'):
            return VBound(a, o)
        return a

    def ev_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, env) if e.slice.lower else None
            hi = self.ev(e.slice.upper, env) if e.slice.upper else None
            if e.slice.step is not None:
                raise Unsupported('slice step')
            return self.slice(o, lo, hi)
        if isinstance(e.slice, ast.Tuple):
            return self.subscript2(o, [None if (isinstance(x, ast.Slice) and x.lower is None and x.upper is None and x.step is None)
                                       else self.ev(x, env) if not isinstance(x, ast.Slice) else self.bad('slice') for x in e.slice.elts])
        return self.subscript(o, self.ev(e.slice, env))

    def bad(self, m):
        raise Unsupported(m)

    def ev_Call(self, e, env):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and len(e.args) in (0, 2):
            fn, fenv = self.funcs[-1]
            cls = fn.cls
            selfv = self.lookup(fn.node.args.args[0].arg, fenv)
            if e.args:
                cls, selfv = self.ev(e.args[0], env), self.ev(e.args[1], env)
                if not isinstance(cls, VClass) or not isinstance(selfv, (VCell, VZ)):
                    raise Unsupported('super of other values')
            dyn = cls
            if isinstance(selfv, VCell):
                dyn = self.content(selfv).cls
            elif isinstance(selfv, VZ):
                dyn = self.class_named(selfv.ty[1])
            return VSuper((dyn, cls), selfv)
        if isinstance(f, ast.Name) and f.id == 'print' and self.mod_builtin('print', env):
            return NONE
        fv = self.ev(f, env)
        if isinstance(fv, VSuper):
            raise Unsupported('super')
        if isinstance(fv, VExt) and fv.name.startswith(('logging.', 'global:logging')):
            return NONE
        if isinstance(fv, VExt) and fv.name.startswith('builtins.') and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp):
            nm = fv.name[9:]
            if nm in ('any', 'all'):
                return self.quantified(e.args[0], env, nm)
            if nm == 'next':
                raise Unsupported('next')
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(v, VTuple):
                    args.extend(v.items)
                else:
                    args.append(('star', v))
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, env)
                if isinstance(v, dict):
                    kwargs.update(v)
                    continue
                raise Unsupported('** argument')
            kwargs[k.arg] = self.ev(k.value, env)
        self.line = e.lineno
        return self.call(fv, args, kwargs, e, env)

    def mod_builtin(self, name, env):
        try:
            v = self.lookup(name, env)
            return isinstance(v, VExt)
        except Exception:
            return True

    # ------------------------------------------------------------ calls
    def call(self, fv, args, kwargs, e=None, env=None):
        if isinstance(fv, VBound):
            return self.call(fv.fn, [fv.self_] + list(args), kwargs, e, env)
        if isinstance(fv, VSpec):
            return fv.call(self, args, kwargs)
        if isinstance(fv, VFunc):
            if any(isinstance(a, tuple) for a in args):
                raise Unsupported('starred argument')
            return self.call_func(fv, args, kwargs)
        if isinstance(fv, VClass):
            return self.instantiate(fv, args, kwargs)
        if isinstance(fv, VExt):
            return self.call_ext(fv.name, args, kwargs, e, env)
        if isinstance(fv, VType):
            return self.call_ext('builtins.' + fv.name, args, kwargs, e, env)
        raise Unsupported('call of %s' % type(fv).__name__)

    def bind_args(self, fv, args, kwargs):
        a = fv.node.args
        pos = a.posonlyargs + a.args
        out = {}
        args = list(args)
        for k, p in enumerate(pos):
            if k < len(args):
                out[p.arg] = args[k]
            elif p.arg in kwargs:
                out[p.arg] = kwargs.pop(p.arg)
            else:
                d = self.default(fv, p.arg)
                if d is None:
                    raise SymRaise('TypeError')
                out[p.arg] = d
        rest = args[len(pos):]
        if a.vararg:
            out[a.vararg.arg] = VTuple(rest)
        elif rest:
            raise SymRaise('TypeError')
        for p in a.kwonlyargs:
            out[p.arg] = kwargs.pop(p.arg) if p.arg in kwargs else self.default(fv, p.arg)
        if a.kwarg:
            out[a.kwarg.arg] = dict(kwargs)
        elif kwargs:
            raise SymRaise('TypeError')
        return out

    def default(self, fv, name):
        d = fv.defaults.get(name)
        if d is None:
            a = fv.node.args
            pos = a.posonlyargs + a.args
            ds = dict(zip([p.arg for p in pos[len(pos) - len(a.defaults):]], a.defaults))
            ds.update({p.arg: x for p, x in zip(a.kwonlyargs, a.kw_defaults) if x is not None})
            if name not in ds:
                return None
            env = self.new_env(None, fv.mod)
            return self.ev(ds[name], env)
        return self.ev(d[1], d[2])

    def call_func(self, fv, args, kwargs):
        kwargs = dict(kwargs)
        bound = self.bind_args(fv, args, kwargs)
        q = fv.qual
        if q in self.contracts and not (q == self.target and self.inline_depth == 0 and not self.funcs) and fv.node is not self.within_target:
            for c in self.contracts[q]:
                if c.matches(self, bound):
                    return c.apply(self, bound)
        return self.inline(fv, bound)

    def inline(self, fv, bound):
        if len(self.callstack) > 25:
            raise Unsupported('recursion')
        if fv.qual:
            self.inlined.add(fv.qual)
        def scope():
            env = self.new_env(fv.env, fv.mod)
            self.envs[env]['vars'].update(bound)
            return env
        if isinstance(fv.node, ast.Lambda):
            return self.ev(fv.node.body, scope())
        if (self.nobranch or self.binders) and self.has_branch(fv.node):
            return self.merge_or_raise(lambda: self.run_body(fv, scope()))
        return self.run_body(fv, scope())

    def has_branch(self, node):
        return any(isinstance(n, (ast.If, ast.For, ast.While, ast.Try, ast.IfExp, ast.BoolOp)) for n in ast.walk(node))

    def is_gen(self, node):
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        return False

    def run_body(self, fv, env):
        node = fv.node
        self.callstack.append((node.name, node.lineno))
        self.funcs.append((fv, env))
        gen = self.is_gen(node)
        for s in ast.walk(node):
            if isinstance(s, ast.Global):
                self.envs[env]['globals'].update(s.names)
            elif isinstance(s, ast.Nonlocal):
                self.envs[env]['nonlocals'].update(s.names)
        if gen:
            t = next((c.returns[1] for c in self.contracts.get(fv.qual, []) if isinstance(c.returns, tuple) and c.returns[0] == 'list'), None)
            t = t or next((h.types['yielded'] for h in self.loop_hints.get(fv.qual, {}).values() if h.types and 'yielded' in h.types), None)
            if t is not None:
                self.celltypes.setdefault(self.site(node), t)
            out = self.typed_cell(node, env, CListC([]))
            self.yields.append(out)
        try:
            self.block(node.body, env)
            r = NONE
        except _Ret as x:
            r = x.v
        finally:
            self.callstack.pop()
            self.funcs.pop()
            self.last_env = self.fenv[node.name] = env
            if gen:
                self.yields.pop()
        return out if gen else r

    def instantiate(self, cls, args, kwargs):
        names = [c.name for c in self.mro(cls)]
        for c in self.mro(cls):
            for b in c.node.bases:
                if isinstance(b, ast.Name) and (b.id == 'Exception' or b.id.endswith('Error')):
                    return VExc(cls.name)
        if cls.name in ROOT:
            r = self.alloc(cls.name)
            init = self.class_attr(cls, '__init__')
            self.call(VBound(init, r), args, kwargs)
            return r
        o = self.new_cell(CInst(cls, {}))
        init = self.class_attr(cls, '__init__')
        if init is not None:
            self.call(VBound(init, o), args, kwargs)
        return o

    # ------------------------------------------------------------ comprehensions
    def ev_ListComp(self, e, env):
        return self.comprehension(e, e.elt, e.generators, env, 'list')

    def ev_GeneratorExp(self, e, env):
        return self.comprehension(e, e.elt, e.generators, env, 'list')

    def ev_SetComp(self, e, env):
        return self.comprehension(e, e.elt, e.generators, env, 'set')

    def ev_DictComp(self, e, env):
        return self.comprehension(e, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), e.generators, env, 'dict')

    def comprehension(self, e, elt, gens, env, kind):
        if len(gens) == 2:
            return self.nested(elt, gens, env, kind, e)
        if len(gens) > 2:
            raise Unsupported('nested comprehension')
        g = gens[0]
        it = self.iterable(self.ev(g.iter, env))

        def bind(env2, v):
            self.assign(g.target, v, env2)

        return self.map_filter(it, env, bind, lambda env2: self.ev(elt, env2), [lambda env2, c=c: self.truth(self.ev(c, env2)) for c in g.ifs], kind, e)

    def lam_eval(self, sorts, guard_fn, body, names='k'):
        """evaluate body(*xs) for bound xs under guard; returns (xs, guard, result, raises)"""
        self.fresh_n += 1
        xs = [Const('%s%d!%d' % (names, i, self.fresh_n), s) for i, s in enumerate(sorts)]
        base = self.snapshot()
        mark = len(self.pc)
        self.lam_pc.append(mark)
        self.pending.append([])
        self.binders = self.binders + xs
        g = guard_fn(*xs)
        self.pc.append(g)
        self.lam_frames.append((xs, g))
        ndefs = len(self.lam_defs)
        try:
            r, rs = self.merged(lambda: body(*xs))
            contents = self.contents_of_any(r)
            asm = self.pc[mark + 1:]
            pend = self.pending[-1]
        finally:
            self.binders = self.binders[:len(self.binders) - len(xs)]
            self.lam_pc.pop()
            self.pending.pop()
            self.lam_frames.pop()
            defs = self.lam_defs[ndefs:]
            del self.lam_defs[ndefs:]
        enc = None
        del self.pc[mark:]
        for g2, f, ks, t in defs:
            if any(k.eq(x) for k in ks for x in xs):
                self.assume(ForAll(ks, Implies(g2, f), patterns=[t, g2] if is_select(g2) else [t]))
            else:
                self.lam_defs.append((g2, f, ks, t))
        # facts established inside hold for every instance
        raises = []
        for c, exc in rs:
            raises.append((c, exc.cls))
        for lp, c, cls in pend:
            raises.append((conj(list(lp) + [c]), cls))
        return xs, g, r, asm, raises

    def contents_of_any(self, r):
        return None

    def generalise(self, xs, g, asm, pats=None):
        for a in asm:
            if is_true(a):
                continue
            self.assume(ForAll(xs, Implies(g, a), patterns=pats) if pats else ForAll(xs, Implies(g, a)))

    def map_filter(self, it, env, bind, elt, conds, kind, e=None, direct=None, dcond=False):
        """direct: the element itself is the value; dcond: conditions take the element"""
        def item(v):
            if direct is not None or dcond:
                cs = [c(v) for c in conds]
                return cs, lambda: v
            env2 = self.new_env(env, self.envs[env]['mod'])
            bind(env2, v)
            cs = []
            for c in conds:
                t = c(env2)
                cs.append(t)
                if not isinstance(it, list):
                    self.assume_cond(t)
            return cs, lambda: elt(env2)
        if isinstance(it, list):
            out = []
            for v in it:
                cs, f = item(v)
                if all(self.decide(c) for c in cs):
                    out.append(f())
            return self.collect(out, kind, e)
        setit = isinstance(it, VSetIter)
        n = None if setit else self.seq_n(it)

        def body(x):
            cs, f = item(it.get(x))
            return VTuple([VZ('bool', conj(cs)), self.snapshot_val(f())])
        sort = it.arr.sort().domain() if setit else IntSort()
        reads, self.reads = getattr(self, 'reads', None), (len(self.binders) + 1, set()) if not setit and self.one_line_each(e) else None
        try:
            xs, g, r, asm, raises = self.lam_eval([sort], (lambda x: mem(x, it.arr)) if setit else (lambda k: And(0 <= k, k < n)), body, 'x' if setit else 'k')
        finally:
            reads, self.reads = self.reads, reads
        if reads is not None and reads[1]:
            self.lines_read(sorted(reads[1]), n)
        if r is None:
            if self.decide(self.nonempty(it.arr) if setit else n > 0):
                raise SymRaise(raises[0][1])
            return self.new_cell(CListC([]))
        cnd, val = r.items[0].t, r.items[1]
        self.raise_some(xs, g, cnd, conds, raises)
        if setit and kind == 'list':
            return self.enum_list(it, xs, g, cnd, val, asm)
        if setit and kind == 'set' and not conds and isinstance(val, VTuple) and is_datatype_like(xs[0], self.key(val, self.typeof(val))):
            return self.new_cell(CSet(self.typeof(val), it.arr))        # the elements themselves
        return self.build(xs, g, cnd, val, asm, bool(conds), n, kind, e)

    def raise_some(self, xs, g, cnd, conds, raises):
        for c, cls in raises:
            ex = Exists(xs, And(g, c))
            if self.proved(Not(ex)):
                continue
            if self.binders:
                self.pending[-1].append((self.guards_now(), ex, cls))
                self.assume(ForAll(xs, Implies(g, Not(c))))
            elif self.nobranch:
                raise NeedBranch()
            elif self.decide(ex):
                raise SymRaise(cls)

    def snapshot_val(self, v):
        """value as an immutable element (container cells become their contents)"""
        if isinstance(v, (VCell, VLoc)):
            c = self.content(v)
            if isinstance(c, CInst):
                raise Unsupported('instance inside a comprehension')
            if isinstance(c, CListC) and c.items == [] and not getattr(c, 'hint', None):
                return VFro(c)
            if isinstance(c, CDict):
                raise Unsupported('dict inside a comprehension')
            return VFro(c)
        if isinstance(v, VTuple):
            return VTuple([self.snapshot_val(x) for x in v.items])
        return v

    def collect(self, vals, kind, e):
        if kind == 'list':
            return self.typed_cell(e, None, CListC(vals)) if e is not None else self.new_cell(CListC(vals))
        if kind == 'set':
            if not vals:
                return self.typed_cell(e, None, CSet(None, None))
            ty = self.typeof(vals[0])
            a = L.empty(key_sort(ty))
            for v in vals:
                a = L.add(a, self.key(v, ty))
            return self.new_cell(CSet(ty, a))
        raise Unsupported('dict comprehension over literal')

    def build(self, xs, g, cnd, val, asm, filtered, n, kind, e):
        """container of the values val (over bound xs, guard g and condition cnd)"""
        k = xs[0]
        empty_inner = isinstance(val, VFro) and isinstance(val.content, CListC) and not val.content.items
        if empty_inner:
            val = VFro(CList('bool', I(0), K(IntSort(), B(False))))
        if kind == 'list':
            ty = self.typeof(val)
            t = self.encode(val, ty)
            A = self.fresh('comp', ArraySort(IntSort(), sort_of(ty)))
            if not filtered:
                self.assume_all(xs, And(g), asm + [A[k] == t], [A[k]], k, t)
                if self.linked:
                    for p in elements_at([t] + asm, k):
                        self.assume(ForAll([k], Implies(And(g), A[k] == t), patterns=[p]))
                return self.new_cell(CList(ty, n, A))
            ln = self.fresh('comp_n', IntSort())
            src = self.fresh_fn('src', IntSort(), IntSort())
            inv = self.fresh_fn('inv', IntSort(), IntSort())
            j = Const('j!%d' % self.fresh_n, IntSort())
            j2 = Const('jj!%d' % self.fresh_n, IntSort())
            for a in asm:
                self.assume_each(xs, g, a)
            at = lambda f, jj: substitute(f, (k, src(jj)))
            self.assume(And(ln >= 0, ln <= n))
            self.assume(ForAll([j], Implies(And(0 <= j, j < ln), And(at(g, j), at(cnd, j), A[j] == at(t, j), inv(src(j)) == j)), patterns=[A[j]]))
            self.assume(ForAll([j], Implies(And(0 <= j, j < ln), And(at(g, j), at(cnd, j), A[j] == at(t, j), inv(src(j)) == j)), patterns=[src(j)]))
            self.assume(ForAll([j, j2], Implies(And(0 <= j, j < j2, j2 < ln), src(j) < src(j2)), patterns=[MultiPattern(src(j), src(j2))]))
            body = And(0 <= inv(k), inv(k) < ln, src(inv(k)) == k, A[inv(k)] == t)
            self.forall_over(xs, Implies(And(g, cnd), body), [t, cnd], k)
            self.forall_over(xs, Implies(And(g, cnd), body), None, k, pat=inv(k))
            self.last_comp = CList(ty, ln, A)
            return self.new_cell(self.last_comp)
        if kind == 'set':
            ty = self.typeof(val)
            t = self.key(val, ty) if not isinstance(val, VFro) else self.encode(val, ty)
            S = self.fresh('scomp', ArraySort(t.sort(), BoolSort()))
            for a in asm:
                self.assume_each(xs, g, a)
            wfn = [self.fresh_fn('sw', t.sort(), x.sort()) for x in xs]
            v = Const('v!%d' % self.fresh_n, t.sort())
            sb = [(x, w(v)) for x, w in zip(xs, wfn)]
            self.assume(ForAll([v], Implies(S[v], And(substitute(g, *sb), substitute(cnd, *sb), substitute(t, *sb) == v)), patterns=[S[v]]))
            part = t.num_args() == 1 and t.arg(0).eq(k)         # a component of the element
            self.forall_over(xs, Implies(And(g, cnd), S[t]), ([g] if is_select(g) and not t.eq(k) else []) + ([] if part and is_select(g) else [t]) + [cnd], k)
            return self.new_cell(CSet(ty, S))
        if kind == 'dict':
            return self.build_dict(xs, g, cnd, val, asm, n)
        raise Unsupported(kind)

    def forall_over(self, xs, body, terms, k, pat=None):
        """ForAll with a pattern taken from a term that mentions all of xs, if there is one"""
        if pat is not None:
            self.assume(ForAll(xs, body, patterns=[pat]))
            return
        pats = []
        for t in terms or []:
            pats += [p for p in self.pattern_terms(t, xs)]
        if pats:
            self.assume(ForAll(xs, body, patterns=pats[:4]))
        else:
            self.assume(ForAll(xs, body))

    def pattern_terms(self, t, xs):
        """smallest uninterpreted applications / selects in t containing all xs"""
        out = []
        ids = {x.get_id() for x in xs}

        def vars_in(u, cache={}):
            s = set()
            st = [u]
            seen = set()
            while st:
                w = st.pop()
                if w.get_id() in seen:
                    continue
                seen.add(w.get_id())
                if w.get_id() in ids:
                    s.add(w.get_id())
                if is_app(w):
                    st.extend(w.children())
            return s

        def bad(u):
            st = [u]
            while st:
                w = st.pop()
                if is_quantifier(w):
                    return True
                if is_app(w):
                    kd = w.decl().kind()
                    if kd in (Z3_OP_AND, Z3_OP_OR, Z3_OP_NOT, Z3_OP_ITE, Z3_OP_EQ, Z3_OP_LE, Z3_OP_LT, Z3_OP_GE, Z3_OP_GT, Z3_OP_IMPLIES,
                              Z3_OP_ADD, Z3_OP_SUB, Z3_OP_MUL, Z3_OP_DIV, Z3_OP_MOD, Z3_OP_IDIV):
                        return True
                    st.extend(w.children())
            return False

        def go(u):
            if not is_app(u):
                return
            done = False
            for c in u.children():
                if vars_in(c) == ids:
                    go(c)
                    done = done or (is_app(c) and c.num_args() > 0)
            kd = u.decl().kind()
            if (kd == Z3_OP_SELECT or (kd == Z3_OP_UNINTERPRETED and u.num_args() > 0)) and vars_in(u) == ids and not bad(u):
                if not any(p.eq(u) for p in out):
                    out.append(u)
        go(t)
        return out

    def assume_all(self, xs, g, fs, pats, k, t=None):
        for f in fs:
            self.assume(ForAll(xs, Implies(g, f), patterns=pats))
            if t is not None:
                ps = self.pattern_terms(t, xs)
                if ps:
                    self.assume(ForAll(xs, Implies(g, f), patterns=ps[:2]))

    def build_dict(self, xs, g, cnd, val, asm, n):
        kv, vv = val.items
        kt, vt = self.typeof(kv), self.typeof(vv)
        kterm, vterm = self.key(kv, kt), self.encode(vv, vt)
        for a in asm:
            self.assume_each(xs, g, a)
        D = self.fresh('dom', ArraySort(kterm.sort(), BoolSort()))
        A = self.fresh('dval', ArraySort(kterm.sort(), vterm.sort()))
        w = [self.fresh_fn('dw', kterm.sort(), x.sort()) for x in xs]
        v = Const('v!%d' % self.fresh_n, kterm.sort())
        sb = [(x, f(v)) for x, f in zip(xs, w)]
        k = xs[0]
        self.assume(ForAll([v], Implies(D[v], And(substitute(g, *sb), substitute(cnd, *sb), substitute(kterm, *sb) == v,
                                                  A[v] == substitute(vterm, *sb))), patterns=[D[v]]))
        self.assume(ForAll([v], Implies(D[v], And(substitute(g, *sb), substitute(cnd, *sb), substitute(kterm, *sb) == v,
                                                  A[v] == substitute(vterm, *sb))), patterns=[A[v]]))
        last = And(D[kterm], w[0](kterm) >= k) if (len(xs) == 1 and k.sort() == IntSort()) else D[kterm]
        self.forall_over(xs, Implies(And(g, cnd), last), [kterm], k)
        return self.new_cell(CDict(kt, vt, D, A))

    def enum_list(self, it, xs, g, cnd, val, asm):
        ty = self.typeof(val)
        t = self.encode(val, ty)
        for a in asm:
            self.assume_each(xs, g, a)
        A = self.fresh('enum', ArraySort(IntSort(), sort_of(ty)))
        n = self.fresh('enum_n', IntSort())
        ks = xs[0].sort()
        src = self.fresh_fn('esrc', IntSort(), ks)
        inv = self.fresh_fn('einv', ks, IntSort())
        if it.order is not None and is_true(cnd) and not self.binders:
            n, src, inv = self.orders.setdefault(it.order, (n, src, inv))
        j = Const('j!%d' % self.fresh_n, IntSort())
        sb = lambda f, x: substitute(f, (xs[0], x))
        self.assume(n >= 0)
        if is_true(cnd) and ks != IntSort():
            self.assume(n == card(it.arr))
        f = lambda jj: Implies(And(0 <= jj, jj < n), And(sb(g, src(jj)), sb(cnd, src(jj)), A[jj] == sb(t, src(jj)), inv(src(jj)) == jj))
        self.assume(ForAll([j], f(j), patterns=[A[j]]))
        self.assume(ForAll([j], f(j), patterns=[src(j)]))
        x = xs[0]
        b = Implies(And(g, cnd), And(0 <= inv(x), inv(x) < n, src(inv(x)) == x, A[inv(x)] == t))
        self.forall_over(xs, b, [g, t], x)
        self.assume(ForAll(xs, b, patterns=[inv(x)]))
        return self.new_cell(CList(ty, n, A))

    def quantified(self, ge, env, nm):
        """any(...) / all(...) over a generator expression"""
        if len(ge.generators) != 1:
            raise Unsupported('nested generator')
        g = ge.generators[0]
        it = self.iterable(self.ev(g.iter, env))
        if isinstance(it, list):
            ts = []
            for v in it:
                env2 = self.new_env(env, self.envs[env]['mod'])
                self.assign(g.target, v, env2)
                cs = [self.truth(self.ev(c, env2)) for c in g.ifs]
                ts.append((conj(cs), self.truth(self.ev(ge.elt, env2))))
            if nm == 'any':
                return VZ('bool', Or(*[And(c, t) for c, t in ts]) if ts else B(False))
            return VZ('bool', conj([Implies(c, t) for c, t in ts]))
        setit = isinstance(it, VSetIter)
        sort = it.arr.sort().domain() if setit else IntSort()

        def body(x):
            env2 = self.new_env(env, self.envs[env]['mod'])
            self.assign(g.target, it.get(x), env2)
            cs = [self.truth(self.ev(c, env2)) for c in g.ifs]
            for c in cs:
                self.assume_cond(c)
            return VTuple([VZ('bool', conj(cs)), VZ('bool', self.truth(self.ev(ge.elt, env2)))])
        xs, gd, r, asm, raises = self.lam_eval([sort], (lambda x: mem(x, it.arr)) if setit else (lambda k: And(0 <= k, k < self.seq_n(it))), body)
        if r is None:
            raise Unsupported('generator that always raises')
        cnd, t = r.items[0].t, r.items[1].t
        if raises:
            self.raise_some(xs, gd, cnd, g.ifs, raises)
        for a in asm:
            self.assume_each(xs, gd, a)
        if nm == 'any':
            return VZ('bool', Exists(xs, And(gd, cnd, t)))
        return VZ('bool', ForAll(xs, Implies(And(gd, cnd), t)))

    def nested(self, elt, gens, env, kind, e):
        """f(a, b) for a in A for b in B(a) if ...: known by its members; a list has them in some order"""
        it1 = self.iterable(self.ev(gens[0].iter, env))
        if isinstance(it1, list):
            out = []
            for v in it1:
                env1 = self.new_env(env, self.envs[env]['mod'])
                self.assign(gens[0].target, v, env1)
                if all(self.decide(self.truth(self.ev(c, env1))) for c in gens[0].ifs):
                    it2 = self.iterable(self.ev(gens[1].iter, env1))
                    if not isinstance(it2, list):
                        raise Unsupported('nested comprehension')
                    for w in it2:
                        env2 = self.new_env(env1, self.envs[env]['mod'])
                        self.assign(gens[1].target, w, env2)
                        if all(self.decide(self.truth(self.ev(c, env2))) for c in gens[1].ifs):
                            out.append(self.ev(elt, env2))
            return self.collect(out, kind, e)
        s1 = it1.arr.sort().domain() if isinstance(it1, VSetIter) else IntSort()
        guard1 = (lambda x: mem(x, it1.arr)) if isinstance(it1, VSetIter) else (lambda k: And(0 <= k, k < self.seq_n(it1)))
        found = []

        def inner(x):
            env1 = self.new_env(env, self.envs[env]['mod'])
            self.assign(gens[0].target, it1.get(x), env1)
            cs = [self.truth(self.ev(c, env1)) for c in gens[0].ifs]
            for c in cs:
                self.assume_cond(c)
            it2 = self.iterable(self.ev(gens[1].iter, env1))
            if isinstance(it2, list):
                raise Unsupported('nested comprehension over literal')
            return env1, cs, it2

        def probe(x):
            _, _, it2 = inner(x)
            found.append(it2.arr.sort().domain() if isinstance(it2, VSetIter) else IntSort())
            return NONE
        self.lam_eval([s1], guard1, probe)
        if not found:
            raise Unsupported('nested comprehension')
        s2 = found[0]

        def body(x, y):
            env1, cs, it2 = inner(x)
            g2 = mem(y, it2.arr) if isinstance(it2, VSetIter) else And(0 <= y, y < self.seq_n(it2))
            self.assume_cond(g2)
            env2 = self.new_env(env1, self.envs[env]['mod'])
            self.assign(gens[1].target, it2.get(y), env2)
            ds = [self.truth(self.ev(c, env2)) for c in gens[1].ifs]
            for d in ds:
                self.assume_cond(d)
            return VTuple([VZ('bool', conj(cs + [g2] + ds)), self.snapshot_val(self.ev(elt, env2))])
        xs, g, r, asm, raises = self.lam_eval([s1, s2], lambda x, y: guard1(x), body)
        if r is None:
            raise Unsupported('nested comprehension that always raises')
        cnd, val = r.items[0].t, r.items[1]
        self.raise_some(xs, g, cnd, [1], raises)
        if kind in ('set', 'dict'):
            return self.build(xs, g, cnd, val, asm, True, None, kind, None)
        ty = self.typeof(val)
        t = self.encode(val, ty)
        for a in asm:
            self.assume_each(xs, g, a)
        A = self.fresh('ncomp', ArraySort(IntSort(), sort_of(ty)))
        n = self.fresh('ncomp_n', IntSort())
        srcs = [self.fresh_fn('nsrc', IntSort(), x.sort()) for x in xs]
        inv = self.fresh_fn('ninv', *[x.sort() for x in xs], IntSort())
        j = Const('j!%d' % self.fresh_n, IntSort())
        at = lambda f: substitute(f, *[(x, sr(j)) for x, sr in zip(xs, srcs)])
        self.assume(n >= 0)
        self.assume(ForAll([j], Implies(And(0 <= j, j < n), And(at(g), at(cnd), A[j] == at(t), inv(*[sr(j) for sr in srcs]) == j)), patterns=[A[j]]))
        b = Implies(And(g, cnd), And(0 <= inv(*xs), inv(*xs) < n, A[inv(*xs)] == t, *[sr(inv(*xs)) == x for sr, x in zip(srcs, xs)]))
        self.forall_over(xs, b, [t, cnd], xs[0])
        return self.new_cell(CList(ty, n, A))

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.line = s.lineno
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        m(s, env)

    def st_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def st_Pass(self, s, env):
        pass

    def st_Global(self, s, env):
        pass

    st_Nonlocal = st_Global

    def st_Import(self, s, env):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            self.store(nm, VMod(a.name) if a.name in self.prog.mods else VExt(a.name), env)

    def st_ImportFrom(self, s, env):
        for a in s.names:
            r = self.prog.attr(s.module, a.name)
            self.store(a.asname or a.name, self.from_entry(r), env)

    def st_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack_seq(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            if isinstance(t.slice, ast.Tuple):
                idx = [None if (isinstance(x, ast.Slice) and x.lower is None and x.upper is None) else self.ev(x, env) for x in t.slice.elts]
                self.setitem2(o, idx, v)
            elif isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            else:
                self.setitem(o, self.ev(t.slice, env), v)
        else:
            raise Unsupported('assignment target')

    def unpack_seq(self, v, n):
        if isinstance(v, VTuple):
            if len(v.items) != n:
                raise SymRaise('ValueError')
            return v.items
        if isinstance(v, (VCell, VFro)):
            c = self.content(v)
            if isinstance(c, CListC):
                if len(c.items) != n:
                    raise SymRaise('ValueError')
                return c.items
        if isinstance(v, VZ) and isinstance(v.ty, tuple) and v.ty[0] == 'tuple':
            return self.decode(v.t, v.ty).items
        raise Unsupported('unpacking')

    def setattr(self, o, name, v):
        if isinstance(o, VMaybe):
            o = self.force(o)
        if isinstance(o, VCell):
            c = self.content(o)
            if isinstance(c, CInst):
                self.note_write(o.i)
                f = dict(c.fields)
                f[name] = v
                self.cells[o.i] = CInst(c.cls, f)
                return
        if isinstance(o, VZ) and isinstance(o.ty, tuple) and o.ty[0] == 'ref':
            f = FIELDS[ROOT[o.ty[1]]].get(name)
            if f is None:
                raise Unsupported('new attribute %s on %s' % (name, o.ty[1]))
            loc = VLoc('field', (o.t, o.ty[1]), None, name, f)
            c = self.content(v)
            if f[0] == 'dict':
                if c.dom is None:
                    c = CDict('V', 'real', L.empty(V), K(V, RealVal(0)))
                self.set_content(loc, c)
            else:
                self.set_content(loc, self.coerce(c, f))
            self.move(v, loc)
            if isinstance(v, VLoc):
                raise Unsupported('a set owned by one object is stored in another')
            return
        if isinstance(o, VFunc):
            o.attrs[name] = v
            return
        raise Unsupported('attribute assignment')

    def st_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env)
            old = self.getattr(base, t.attr)
        elif isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
            base = self.ev(t.value, env)
            idx = self.ev(t.slice, env)
            old = self.subscript(base, idx)
        else:
            raise Unsupported('augmented assignment target')
        rhs = self.ev(s.value, env)
        new = self.inplace(s.op, old, rhs)
        if isinstance(t, ast.Name):
            self.store(t.id, new, env)
        elif isinstance(t, ast.Attribute):
            if new is not old:
                self.setattr(base, t.attr, new)
        else:
            if new is not old:
                self.setitem(base, idx, new)

    def inplace(self, op, old, rhs):
        if isinstance(old, VMaybe):
            old = self.force(old)
        st = self.as_set(old)
        if st is not None and type(op) in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
            if self.as_set(rhs) is None:
                raise SymRaise('TypeError')
            r = self.content(self.binop(op, old, rhs))
            if r.arr is not None and st.arr is None and isinstance(old, VCell):
                self.learn_type(old, r.ety)
            self.set_content(old, r)
            return old
        if type(op) is ast.Add and self.is_list(old):
            self.list_extend(old, rhs)
            return old
        r = self.np_inplace(op, old, rhs)
        if r is not None:
            return r
        return self.binop(op, old, rhs)

    def st_If(self, s, env):
        c = self.truth(self.ev(s.test, env))
        if self.decide(c):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def st_Return(self, s, env):
        raise _Ret(self.ev(s.value, env) if s.value is not None else NONE)

    def st_Break(self, s, env):
        raise _Brk()

    def st_Continue(self, s, env):
        raise _Cnt()

    def st_FunctionDef(self, s, env):
        fn, _ = self.funcs[-1] if self.funcs else (None, None)
        q = (fn.qual + '.<locals>.' + s.name) if fn is not None and fn.qual else None
        f = VFunc(s, env, self.envs[env]['mod'], None, q)
        self.bind_defaults(f, s.args, env)
        out = f
        for d in reversed(s.decorator_list):
            out = self.call(self.ev(d, env), [out], {})
        self.store(s.name, out, env)

    def st_Assert(self, s, env):
        c = self.truth(self.ev(s.test, env))
        if not self.decide(c):
            raise SymRaise('AssertionError')

    def st_Raise(self, s, env):
        if s.exc is None:
            raise SymRaise(self.exc_stack[-1])
        x = s.exc
        if isinstance(x, ast.Call):
            f = self.ev(x.func, env)
            if isinstance(f, (VClass, VExt)):
                nm = f.name.replace('builtins.', '')
                raise SymRaise(nm)
        v = self.ev(x, env)
        if isinstance(v, VExc):
            raise SymRaise(v.cls)
        if isinstance(v, (VClass, VExt)):
            raise SymRaise(v.name.replace('builtins.', ''))
        if self.is_str(v):
            raise SymRaise('TypeError')
        raise Unsupported('raise')

    def exc_is(self, name, handler):
        """is exception class `name` caught by handler name"""
        if handler in ('Exception', 'BaseException') or name == handler:
            return True
        cls = getattr(builtins, name, None)
        h = getattr(builtins, handler, None)
        if cls is not None and h is not None:
            return issubclass(cls, h)
        try:
            c = self.class_named(name)
        except Unsupported:
            return False
        for b in self.mro(c):
            if b.name == handler:
                return True
            for x in b.node.bases:
                if isinstance(x, ast.Name) and x.id == handler:
                    return True
                if isinstance(x, ast.Name) and hasattr(builtins, x.id) and h is not None and issubclass(getattr(builtins, x.id), h):
                    return True
        return False

    exc_stack = []

    def st_Try(self, s, env):
        def run():
            try:
                self.tries = self.tries + [len(self.binders)]
                try:
                    self.block(s.body, env)
                finally:
                    self.tries = self.tries[:-1]
            except SymRaise as x:
                for h in s.handlers:
                    names = [None] if h.type is None else [t.id if isinstance(t, ast.Name) else t.attr for t in
                                                          (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if any(nm is None or self.exc_is(x.cls, nm) for nm in names):
                        if h.name:
                            self.store(h.name, VExc(x.cls), env)
                        self.exc_stack = self.exc_stack + [x.cls]
                        try:
                            self.block(h.body, env)
                        finally:
                            self.exc_stack = self.exc_stack[:-1]
                        return
                raise
            else:
                self.block(s.orelse, env)
        if s.finalbody:
            try:
                run()
            except (SymRaise, _Ret, _Brk, _Cnt):
                self.block(s.finalbody, env)
                raise
            self.block(s.finalbody, env)
        else:
            run()

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.envs[env]['vars'].pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, VFunc):
                    if t.attr not in o.attrs:
                        raise SymRaise('AttributeError')
                    del o.attrs[t.attr]
                    continue
                c = self.content(o)
                if isinstance(c, CInst):
                    if t.attr not in c.fields:
                        raise SymRaise('AttributeError')
                    self.note_write(o.i)
                    f = dict(c.fields)
                    del f[t.attr]
                    self.cells[o.i] = CInst(c.cls, f)
                    continue
                raise Unsupported('del')
            elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
            else:
                raise Unsupported('del')

    def st_With(self, s, env):
        if len(s.items) != 1:
            raise Unsupported('with')
        f = self.ev(s.items[0].context_expr, env)
        if not isinstance(f, VCell) or not isinstance(self.content(f), CFile):
            raise Unsupported('with')
        if s.items[0].optional_vars is not None:
            self.assign(s.items[0].optional_vars, f, env)
        try:
            self.block(s.body, env)
        except (SymRaise, _Ret, _Brk, _Cnt):
            self.file_method(f, 'close', [], {})
            raise
        self.file_method(f, 'close', [], {})

    def ev_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else NONE
        out = self.yields[-1]
        self.on_yield(v)
        self.list_append(out, v)
        return NONE

    def on_yield(self, v):
        pass

    # ------------------------------------------------------------ loops
    def st_While(self, s, env):
        self.loop(s, env, None)

    def st_For(self, s, env):
        it = self.iterable(self.ev(s.iter, env))
        if isinstance(it, list):
            for v in it:
                self.assign(s.target, v, env)
                try:
                    self.block(s.body, env)
                except _Brk:
                    return
                except _Cnt:
                    pass
            self.block(s.orelse, env)
            return
        self.loop(s, env, it)

    def hint_for(self, s):
        """loop contract: keyed by function and loop ordinal"""
        fn, _ = self.funcs[-1]
        q = fn.qual
        ls = loops_of(fn.node)
        k = next((i for i, x in enumerate(ls) if x is s), None)
        if k is not None:
            if id(fn.node) not in self.loopmatch:
                self.loopmatch[id(fn.node)] = (fn.node, align.match(q, ls))
            k = self.loopmatch[id(fn.node)][1].get(k, 'new %d' % k)
        hs = self.loop_hints.get(q)
        if hs and k is not None and k in hs:
            return hs[k], '%s loop %d' % (fn.node.name, k)
        return None, '%s loop %s' % (getattr(fn.node, 'name', '?'), k)

    def loop(self, s, env, it, body=None, hint=None, name=None):
        if self.binders:
            raise Unsupported('loop inside a comprehension')
        if hint is None and s is not None:
            hint, name = self.hint_for(s)
        key = (getattr(s, 'lineno', id(hint)), getattr(s, 'col_offset', 0), tuple(self.callstack), self.trail_key())
        mods = self.loopmods.setdefault(key, {'vars': set(), 'cells': set(), 'heap': set(), 'alloc': False, 'ord': len(self.loopmods)})
        if s is not None and 'seeded' not in mods:
            mods['seeded'] = True
            mods['vars'] |= {(env, n) for n in assigned_names(s) if self.own_name(n, env)}
        is_for = it is not None
        setloop = isinstance(it, VSetIter)
        inv = hint.inv if hint else (lambda S: [])
        entry = self.loop_state(env)
        outer_info = list(self.loopinfo)

        def S(k=None, done=None):
            from .views import LoopView
            return LoopView(self, env, entry, k, done, it, outer_info)

        def check(stage, k=None, done=None):
            for j, f in enumerate(self.object_invs(mods['cells']) + self.heap_frame(mods['heap']) + self.flat(inv(S(k, done)))):
                lab, g = f if isinstance(f, tuple) else ('#%d' % j, f)
                self.oblige(g, '%s: invariant "%s" %s' % (name, lab, stage), 'invariant')

        if hint is not None:
            for nm, ty in hint.types.items():
                v = self.peek(nm.split('.')[0], env)
                for f in nm.split('.')[1:]:
                    v = v.attrs.get(f) if isinstance(v, VFunc) else self.content(v).fields.get(f) if isinstance(v, VCell) and isinstance(self.content(v), CInst) else None
                if isinstance(v, VCell):
                    c = self.content(v)
                    if isinstance(ty, tuple) and ((isinstance(c, CSet) and c.arr is None) or (isinstance(c, CListC) and self.list_ety(c) is None) or (isinstance(c, CDict) and c.dom is None)):
                        self.learn_type(v, ty[1:] if ty[0] == 'dict' else ty[1])
        k0 = I(0)
        n0 = self.seq_n(it) if is_for and not setloop else None
        def hints(what, k, done, lab0='lemma', pre=''):
            f = getattr(hint, what, None)
            if f is None:
                return
            try:
                fs = self.flat(f(S(k, done)))
            except Unsupported:
                fs = []        # about code that is not there (any more): the proof has to do without
                if STRICT:
                    raise
            for x in fs:
                lab, g = x if isinstance(x, tuple) else (lab0, x)
                self.oblige(g, '%s: %s%s' % (name, pre, lab), 'lemma')

        hints('at_entry', k0, L.empty(it.arr.sort().domain()) if setloop else None)
        if setloop:
            e0 = L.empty(it.arr.sort().domain())
            check('on entry', done=e0)
        elif is_for:
            check('on entry', k0)
        else:
            check('on entry')
        # havoc what the loop changes
        cells0 = self.cell_n
        for h in sorted(mods['heap'], key=str):
            old = self.heap.get(h)
            self.heap_get(*h)
            old = self.heap[h]
            if isinstance(old, tuple):
                self.heap[h] = tuple(self.fresh('hp', o.sort()) for o in old)
            else:
                self.heap[h] = self.fresh('hp_' + h[1], old.sort())
        if mods['alloc']:
            o = self.next()
            self.next_ref = self.fresh('next', IntSort())
            self.assume(self.next_ref >= o)
        for c in sorted(mods['cells']):
            self.havoc_cell(c, hint, s)
        aliases = {}
        for (ev_, nm) in sorted(mods['vars']):
            d = self.envs[ev_]['vars']
            d[nm] = self.havoc_var(d.get(nm), nm, hint, s, env)
        # restore the watch for this loop
        mark = {'mark': cells0, 'env_mark': self.env_n, 'mods': mods}
        shape = self.alias_shape(env)
        if setloop:
            done = self.fresh('done', it.arr.sort())
            self.assume(sub(done, it.arr))
            kk = None
        elif is_for:
            kk = self.fresh('k', IntSort())
            self.assume(kk >= 0)
            done = None
        else:
            kk = done = None
        self.watch.append(mark)
        self.loopinfo.append((kk, done, entry))
        for f in self.object_invs(mods['cells']) + self.heap_frame(mods['heap']) + self.flat(inv(S(kk, done))):
            self.assume(f[1] if isinstance(f, tuple) else f)
        c = self.choice(2)
        if c == 0:
            if setloop:
                x = self.fresh('x', it.arr.sort().domain())
                self.assume(And(mem(x, it.arr), Not(mem(x, done))))
                self.prune()
                arr0 = it.arr
                self.assign_iter(s, it.get(x), env, body)
            elif is_for:
                n = it.n() if callable(it.n) else it.n
                self.assume(kk < n)
                self.prune()
                self.assign_iter(s, it.get(kk), env, body)
            else:
                t = self.truth(self.ev(s.test, env))
                self.assume(t)
                self.prune()
            entry['head'] = self.loop_state(env)
            hints('at_body', kk, done)
            try:
                if body is None:
                    self.block(s.body, env)
                else:
                    body()
            except _Cnt:
                pass
            except _Ret:
                hints('on_return', kk, done)
                self.watch.pop()
                self.loopinfo.pop()
                raise
            except _Brk:
                self.watch.pop()
                self.loopinfo.pop()
                hints('on_break', kk, done, 'break', 'on break: ')
                return
            hints('at_end', kk, done)
            if setloop:
                check('is preserved', done=L.add(done, x))
            elif is_for:
                check('is preserved', simplify(kk + 1))
            else:
                check('is preserved')
            self.check_shape(shape, env, name, mods)
            for c in mods['cells']:
                if isinstance(self.cells.get(c), CInst) and isinstance(entry['head']['cells'].get(c), CInst):
                    self.check_fields(self.cells[c], entry['head']['cells'][c], name)
                elif isinstance(self.cells.get(c), CFile) and isinstance(entry['head']['cells'].get(c), CFile):
                    self.check_file(self.cells[c], entry['head']['cells'][c], name)
            raise PathEnd()
        self.watch.pop()
        self.loopinfo.pop()
        if setloop:
            self.assume(done == it.arr)
        elif is_for:
            n = self.seq_n(it)
            self.assume(kk >= n)
            if n.eq(n0):
                self.assume(Implies(n >= 0, kk == n))
        else:
            t = self.truth(self.ev(s.test, env))
            self.assume(Not(t))
        hints('after', kk, done)
        self.prune()
        if s is not None:
            self.block(s.orelse, env)

    def own_name(self, n, env):
        d = self.envs[env]
        return n not in d['nonlocals'] and n not in d['globals']

    def peek(self, nm, env):
        e = env
        while e is not None:
            d = self.envs[e]
            if nm in d['vars']:
                return d['vars'][nm]
            e = d['parent']
        return None

    def assign_iter(self, s, v, env, body):
        if body is None:
            self.assign(s.target, v, env)
        else:
            self.cur_item = v

    def flat(self, x):
        if x is None:
            return []
        out = []
        for f in x if isinstance(x, (list, tuple)) and not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str)) else [x]:
            if isinstance(f, list):
                out.extend(self.flat(f))
            else:
                out.append(f)
        return out

    def loop_state(self, env):
        """frozen copy of the state for views of values at loop entry"""
        return {'cells': dict(self.cells), 'envs': {k: dict(d, vars=dict(d['vars'])) for k, d in self.envs.items()}, 'heap': dict(self.heap),
                'next': self.next_ref}

    def havoc_cell(self, c, hint, s):
        o = self.cells[c]
        site = getattr(o, 'site', None)
        if isinstance(o, CFwd):
            return
        if isinstance(o, CSet):
            if o.arr is None:
                raise Unsupported('untyped set changes in a loop')
            n = CSet(o.ety, self.fresh('S', o.arr.sort()))
        elif isinstance(o, CListC):
            ty = self.list_ety(o) or self.celltypes.get(site)
            if ty is None:
                raise Unsupported('untyped list changes in a loop')
            n = self.fresh_list(ty, 'L')
        elif isinstance(o, CList):
            n = self.fresh_list(o.ety, 'L', type(o))
        elif isinstance(o, CDict):
            if o.dom is None:
                raise Unsupported('untyped dict changes in a loop')
            n = CDict(o.kty, o.vty, self.fresh('D', o.dom.sort()), self.fresh('W', o.val.sort()), o.default)
        elif isinstance(o, CNd2):
            n = CNd2(o.ety, o.n, o.m, self.fresh('T', o.arr.sort()))
        elif isinstance(o, CInst):
            n = CInst(o.cls, {f: self.fresh_field(o, f, v) for f, v in o.fields.items()})
            self.cells[c] = n
            return
        elif isinstance(o, (CFile, CRows)):
            self.cells[c] = self.havoc_file(o)
            return
        else:
            raise Unsupported('havoc')
        n.site = site
        self.cells[c] = n
        if isinstance(n, CNd1) and isinstance(o, CNd1):
            n.n = o.n

    def field_spec(self, o, f):
        from .views import SHAPES
        sh = next((SHAPES[k.name] for k in self.mro(o.cls) if k.name in SHAPES), None)
        return sh['fields'].get(f) if sh else None

    def fresh_field(self, o, f, v):
        """an attribute of an object that changes in a loop; one that may be None: as declared"""
        from .contract import Opt, Lit, make
        sp = self.field_spec(o, f)
        if isinstance(sp, Opt):
            return make(self, sp, f)
        if isinstance(sp, Lit) and v is NONE and sp.val() is NONE:
            return v
        return self.fresh_like(v, f)

    def check_fields(self, o, head, name):
        """attributes keep their kinds (or stay as declared) until the end of an iteration"""
        from .contract import Opt, Lit, fits
        for f, v in o.fields.items():
            w, sp = head.fields.get(f), self.field_spec(o, f)
            if v is w:
                continue
            if isinstance(sp, (Opt, Lit)):
                ok = fits(self, v, sp)
            elif isinstance(v, VZ):
                ok = isinstance(w, VZ) and w.ty == v.ty
            elif isinstance(v, VCell):
                ok = isinstance(w, VCell) and (type(self.content(v)) is type(self.content(w)) or isinstance(self.content(v), (CList, CListC)) and isinstance(self.content(w), (CList, CListC)))
            elif isinstance(v, VTuple):
                ok = isinstance(w, VTuple) and len(w.items) == len(v.items)
            else:
                ok = False
            if not ok:
                self.add_ob(B(False), '%s: attribute %s keeps its type' % (name, f), 'alias')
        for f in head.fields:
            if f not in o.fields:
                self.add_ob(B(False), '%s: attribute %s is still there' % (name, f), 'alias')

    def fresh_like(self, v, nm):
        """any value of the same type; parts of an object are separate objects (checked where loops and calls end)"""
        if isinstance(v, (VSpec, VFunc, VClass)):
            return v
        if isinstance(v, VZ):
            return self.fresh_val(v.ty, nm)
        if isinstance(v, VTuple):
            return VTuple([self.fresh_like(x, nm) for x in v.items])
        if isinstance(v, VCell):
            o = self.content(v)
            if isinstance(o, CInst):
                return v
            x = self.new_cell(o)
            self.havoc_cell(x.i, None, None)
            o = self.cells[x.i]
            if isinstance(o, CNd1):
                self.cells[x.i] = self.fresh_list(o.ety, nm, CNd1)
            elif isinstance(o, CNd2):
                self.cells[x.i] = self.content(self.fresh_val(('nd2', o.ety), nm))
            return x
        if v is NONE or isinstance(v, VStr):
            raise Unsupported('attribute %s of an object may change in a loop' % nm)
        raise Unsupported('attribute %s of an object changes in a loop' % nm)

    def heap_frame(self, fields):
        """objects that existed when the function was called keep the parts its contract does not list"""
        fr = getattr(self, 'frame0', None)
        out = []
        if fr is not None:
            nxt, heap, allowed = fr
            for h in sorted(fields, key=str):
                new = self.heap_get(*h)
                if h in allowed or isinstance(new, tuple):
                    continue
                old = heap.get(h)
                if old is None:
                    old = Const('heap0_%s_%s' % h, new.sort())
                if not old.eq(new):
                    out.append(('existing objects keep their %s' % h[1], self.forall([IntSort()], lambda r: Implies(And(0 <= r, r < nxt), new[r] == old[r]), lambda r: new[r])))
        return out

    def object_invs(self, cells):
        from .contract import inst_inv
        return [f for c in sorted(cells) if isinstance(self.cells.get(c), CInst) for f in inst_inv(self, VCell(c))]

    def havoc_var(self, v, nm, hint, s, env):
        ty = hint.types.get(nm) if hint else None
        if ty is not None and (v is None or isinstance(v, (VUndef, VMaybe))):
            return VMaybe(self.fresh('bound_' + nm, BoolSort()), self.fresh_val(ty, nm))
        if ty is not None:
            return self.fresh_val(ty, nm)
        if v is None or isinstance(v, VUndef):
            return VUndef()
        if isinstance(v, VMaybe):
            return VMaybe(self.fresh('bound_' + nm, BoolSort()), self.havoc_var(v.v, nm, hint, s, env))
        if s is not None and self.assigned_first(s, nm):
            return VUndef()
        if isinstance(v, VZ):
            return self.fresh_val(v.ty, nm)
        if isinstance(v, VTuple):
            return VTuple([self.havoc_var(x, nm, hint, None, env) for x in v.items])
        if isinstance(v, (VCell, VFro, VLoc)):
            c = self.content(v)
            if isinstance(c, CInst):
                return VUndef()
            if isinstance(c, CNd1):
                return self.new_cell(CNd1(c.ety, c.n, self.fresh(nm, c.arr.sort())))
            ty = self.typeof(v)
            if (isinstance(c, CSet) and c.arr is None) or (isinstance(c, CListC) and self.list_ety(c) is None):
                raise Unsupported('type of %s changes in a loop' % nm)
            if ty[0] == 'dict':
                raise Unsupported('dict variable reassigned in a loop')
            return self.fresh_val(ty, nm)
        return VUndef()

    def assigned_first(self, s, nm):
        """is nm certainly assigned before it is read in the loop body and not read after the loop"""
        fn, _ = self.funcs[-1]
        tgt = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)} if isinstance(s, ast.For) else set()
        reads = [n for n in ast.walk(fn.node) if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load)]
        inside = {id(n) for n in ast.walk(s)}
        if any(id(n) not in inside for n in reads if (n.lineno, n.col_offset) > (s.end_lineno, 0)):
            return False
        # an enclosing loop may read it in its next iteration before assignment
        for l in loops_of(fn.node):
            if l is not s and any(x is s for x in ast.walk(l)):
                return False
        if nm in tgt:
            return True
        if isinstance(s, ast.While) and any(isinstance(n, ast.Name) and n.id == nm for n in ast.walk(s.test)):
            return False
        for st in s.body:
            rd = [n for n in ast.walk(st) if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load)]
            wr = isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in st.targets)
            if rd:
                return False
            if wr:
                return True
            if any(isinstance(n, ast.Name) and n.id == nm for n in ast.walk(st)):
                return False
        return False

    def alias_shape(self, env):
        """which live variables share a mutable object"""
        out = {}
        e = env
        while e is not None:
            for nm, v in self.envs[e]['vars'].items():
                if isinstance(v, VMaybe):
                    v = v.v
                if isinstance(v, VCell):
                    i = v.i
                    loc = self.cells[i]
                    out[(e, nm)] = ('fwd', str(loc.loc.name), i) if isinstance(loc, CFwd) else i
                    self.part_shape(e, nm, loc, out, {i})
                elif isinstance(v, VLoc):
                    out[(e, nm)] = ('loc', id(v))
                elif isinstance(v, (VUndef,)):
                    out[(e, nm)] = None
            e = self.envs[e]['parent']
        return out

    def part_shape(self, e, nm, o, out, seen):
        if isinstance(o, CInst):
            for f, x in o.fields.items():
                if isinstance(x, VCell) and x.i not in seen:
                    out[(e, '%s.%s' % (nm, f))] = x.i
                    self.part_shape(e, '%s.%s' % (nm, f), self.cells[x.i], out, seen | {x.i})

    def check_shape(self, shape, env, name, mods):
        now = self.alias_shape(env)
        for x in shape:
            if shape[x] is None and x in now:
                now.pop(x)
        names = [x for x in now if now[x] is not None and x in shape and shape[x] is not None]
        vals = {}
        for x in names:
            for y in names:
                if x < y and now[x] == now[y] and shape[x] != shape[y]:
                    self.add_ob(B(False), '%s: %s and %s do not become the same object' % (name, x[1], y[1]), 'alias')
        # containers that moved into an object
        for x in names:
            if isinstance(now[x], tuple) and now[x][0] == 'fwd' and now[x] != shape[x]:
                self.add_ob(B(False), '%s: %s is not owned by another object at the end of an iteration' % (name, x[1]), 'alias')
        for x in names:
            if x in [(e, n) for e, n in mods['vars']] or True:
                pass
        # instances and unchanged variables keep their types
        for (e, nm) in mods['vars']:
            a = self.envs[e]['vars'].get(nm)
            if isinstance(a, VLoc):
                if (e, nm) in shape and shape[(e, nm)] is not None:
                    self.add_ob(B(False), '%s: %s does not alias an owned part' % (name, nm), 'alias')
        for c in mods['cells']:
            o = self.cells.get(c)
            if isinstance(o, CList):
                for f in self.wf_content(o):
                    self.oblige(f, '%s: list elements are allocated objects' % name, 'wf')


def elements_at(ts, k):
    """the elements at position k of lists that the terms mention"""
    out, seen, todo = {}, set(), list(ts)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if is_quantifier(t):
            todo.append(t.body())
            continue
        if is_select(t) and t.arg(1).eq(k) and is_const(t.arg(0)):
            out[t.get_id()] = t
        todo += t.children()
    return [out[i] for i in sorted(out)]
