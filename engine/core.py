"""Symbolic execution of the real Python AST with contracts at calls and invariants at loops.

One path is executed at a time by re-execution: ``decide`` consults the current decision prefix,
``explore`` enumerates the prefixes.  Obligations are collected with the path condition under
which they arise and discharged later (solve.py)."""
import ast
import builtins
from z3 import *
from . import logic as L
from .logic import V, sort_of, key_sort, sub, mem, card, rng, conj


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class Unsupported(Exception):
    pass


class NeedBranch(Exception):
    pass


class SymRaise(Exception):
    def __init__(self, cls, val=None):
        self.cls, self.val = cls, val


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cnt(Exception):
    pass


# ------------------------------------------------------------------------------ values
class VZ:
    def __init__(self, ty, t):
        self.ty, self.t = ty, t


class VNone:
    pass


class VStr:
    def __init__(self, s):
        self.s = s


class VTuple:
    def __init__(self, items):
        self.items = list(items)


class VCell:
    def __init__(self, i):
        self.i = i


class VLoc:
    """an owned mutable part of another object: a field of a heap object, a dict value or a row"""
    def __init__(self, kind, base, key, name, ty):
        self.kind, self.base, self.key, self.name, self.ty = kind, base, key, name, ty


class VFro:
    """a read-only set or list (an element of a container, or a shared result)"""
    def __init__(self, content):
        self.content = content


class VFunc:
    n = 0

    def __init__(self, node, env, mod, cls=None, qual=None):
        self.node, self.env, self.mod, self.cls, self.qual = node, env, mod, cls, qual
        self.attrs = {}
        self.defaults = {}


class VBound:
    def __init__(self, fn, self_, cls=None):
        self.fn, self.self_ = fn, self_


class VClass:
    def __init__(self, mod, node):
        self.mod, self.node = mod, node
        self.name = node.name


class VMod:
    def __init__(self, name):
        self.name = name


class VExt:
    def __init__(self, name):
        self.name = name


class VSlice:
    """a slice given to __getitem__ of an object"""
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class VSpec:
    """abstract function value with a specification: call(interp, args, kwargs) -> Val"""
    def __init__(self, name, call, tag=None):
        self.name, self.call, self.tag = name, call, tag


class VSeq:
    """lazy sequence: length term, getter(index term) -> Val"""
    def __init__(self, n, get, kind='seq'):
        self.n, self.get, self.kind = n, get, kind


class VSetIter:
    """iteration over a set's (or dict's) keys in arbitrary order; get(key term) -> Val"""
    order = None            # of a dict in one state: the same each time
    def __init__(self, arr, ety, get):
        self.arr, self.ety, self.get = arr, ety, get


class VType:
    def __init__(self, name):
        self.name = name


class VExc:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args


class VSuper:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class VUndef:
    pass


class VMaybe:
    def __init__(self, flag, v):
        self.flag, self.v = flag, v


NONE = VNone()


# ------------------------------------------------------------------------------ contents
class CSet:
    def __init__(self, ety, arr):
        self.ety, self.arr = ety, arr          # arr None while the element type is unknown (empty)


class CList:
    def __init__(self, ety, n, arr, off=None):
        self.ety, self.n, self.arr = ety, n, arr
        self.off = off if off is not None else IntVal(0)

    def at(self, k):
        return self.arr[simplify(self.off + k)]


class CListC:
    def __init__(self, items):
        self.items = list(items)


class CNd1(CList):
    pass


class CNd2:
    def __init__(self, ety, n, m, arr):
        self.ety, self.n, self.m, self.arr = ety, n, m, arr


class CDict:
    def __init__(self, kty, vty, dom, val, default=None, keyof=None):
        self.kty, self.vty, self.dom, self.val, self.default = kty, vty, dom, val, default


class CInst:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class CFwd:
    """the cell has become (an owned part of) another location"""
    def __init__(self, loc):
        self.loc = loc


# heap objects with symbolic identity
FIELDS = {'Implication': {'_premise': ('set', 'V'), '_conclusion': ('set', 'V')},
          'Concept': {'extent': ('set', 'V'), 'intent': ('set', 'V'), 'meta': ('dict', 'V', 'real')}}
ROOT = {'Implication': 'Implication', 'UnitImplication': 'Implication', 'NegativeImplication': 'Implication',
        'Concept': 'Concept'}


def I(n):
    return IntVal(n)


def B(b):
    return BoolVal(b)


_strconst = {}


def strconst(s):
    """a name constant for a literal"""
    if s not in _strconst:
        _strconst[s] = Const('lit!%d!%s' % (len(_strconst), ''.join(c if c.isalnum() else '_' for c in str(s))), V)
    return _strconst[s]


def strconsts():
    return list(_strconst.items())


def strcat(a, b):
    return Function('str_concat', V, V, V)(a, b)


_a, _x, _y = Consts('a x y', V)
L.axiom('str_concat', 'text: equal prefixes cancel', ForAll([_a, _x, _y], Implies(strcat(_a, _x) == strcat(_a, _y), _x == _y), patterns=[MultiPattern(strcat(_a, _x), strcat(_a, _y))]))


def str_distinct():
    cs = list(_strconst.values())
    return [Distinct(*cs)] if len(cs) > 1 else []


def both_inclusions(g):
    """set equalities in positive positions of a goal as two inclusions"""
    if is_quantifier(g) and g.is_forall():
        vs = [Const('%s!g%d' % (g.var_name(j), j), g.var_sort(j)) for j in range(g.num_vars())]
        ps = [[substitute_vars(t, *reversed(vs)) for t in pattern_args(g.pattern(j))] for j in range(g.num_patterns())]
        return ForAll(vs, both_inclusions(substitute_vars(g.body(), *reversed(vs))), patterns=[MultiPattern(*p) if len(p) > 1 else p[0] for p in ps])
    if is_and(g):
        return And(*[both_inclusions(c) for c in g.children()])
    if is_implies(g):
        return Implies(g.arg(0), both_inclusions(g.arg(1)))
    if is_eq(g) and g.arg(0).sort().kind() == Z3_ARRAY_SORT and g.arg(0).sort().range() == BoolSort():
        a, b = g.children()
        if not a.eq(b):
            return And(L.sub(a, b), L.sub(b, a))
    return g


BAD_PATTERN = (Z3_OP_AND, Z3_OP_OR, Z3_OP_NOT, Z3_OP_ITE, Z3_OP_EQ, Z3_OP_LE, Z3_OP_LT, Z3_OP_GE, Z3_OP_GT, Z3_OP_IMPLIES, Z3_OP_DISTINCT, Z3_OP_XOR)


def pattern_args(p):
    from z3 import z3 as z
    n = z.Z3_get_pattern_num_terms(p.ctx_ref(), p.as_ast())
    return [z._to_expr_ref(z.Z3_get_pattern(p.ctx_ref(), p.as_ast(), i), p.ctx) for i in range(n)]


def subterms(t):
    seen, todo = {}, [t]
    while todo:
        u = todo.pop()
        if u.get_id() not in seen:
            seen[u.get_id()] = u
            todo += u.children()
    return list(seen.values())


def same_fact(f, h):
    """the same formula, up to the names of the outermost bound variables"""
    if f.get_id() == h.get_id():
        return True
    return is_quantifier(f) and is_quantifier(h) and f.is_forall() and h.is_forall() and f.num_vars() == h.num_vars() and f.num_patterns() == h.num_patterns() and f.body().get_id() == h.body().get_id() and \
        all(f.var_sort(j) == h.var_sort(j) for j in range(f.num_vars())) and all(f.pattern(j).get_id() == h.pattern(j).get_id() for j in range(f.num_patterns()))


class Obligation:
    def __init__(self, name, hyps, goal, kind='assert', line=None):
        self.name, self.hyps, self.goal, self.kind, self.line = name, hyps, goal, kind, line


class Explorer:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trail = []          # (choice, total)

    def next_prefix(self):
        t = list(self.trail)
        while t:
            c, n = t.pop()
            if c + 1 < n:
                return [x for x, _ in t] + [c + 1]
        return None


MAXPATHS = 3000


class Interp:
    def __init__(self, prog, contracts, consts=None):
        self.prog, self.contracts = prog, contracts
        self.loopmods = {}
        self.celltypes = {}
        self.empties = {}
        self.prune_cache = {}
        self.used_contracts = set()
        self.inlined = set()
        self.assumptions_used = set()
        self.target = None
        self.within_target = None
        self.linked = False
        self.memo_mode = False
        self.fresh_rows = False
        self.unsupported = []
        self.inline_depth = 0
        self.loop_hints = {}
        self.loopmatch = {}
        self.changed = 10 ** 9
        self.keep = []
        self.ghosts = {}
        self.old_view = None

    # ------------------------------------------------------------ exploration
    def reset(self):
        self.explorers = [Explorer(self._prefix)]
        self.last_call = {}
        self.last_comp = None
        self.fenv = {}
        self.pc = []
        self.cells = {}
        self.envs = {}
        self.heap = {}
        self.next_ref = None
        self.fresh_n = 0
        self.lam_frames, self.lam_defs = [], []
        self.orders = {}
        self.cell_n = 0
        self.env_n = 0
        self.emit_n = 0
        self.binders = []
        self.lam = []            # active lambda frames
        self.lamtrack = []
        self.condtrack = []
        self.watch = []          # active loops
        self.callstack = []
        self.yields = []
        self.nobranch = 0
        self.funcs = []          # stack of (func value, env id)
        self.hintstack = []
        self.moved = {}
        self.loopinfo = []
        self.lam_pc = []
        self.pending = []
        self.exc_stack = []
        self.tries = []          # numbers of binders around the active try statements
        self.shared_cells = set()
        self.text = set()        # terms known to be text

    def explore(self, body):
        """run body() on every path"""
        restarts = 0
        while True:
            self.obligations = {}
            self.unsupported = []
            self._prefix = []
            n = 0
            try:
                while True:
                    n += 1
                    if n > MAXPATHS:
                        self.unsupported.append(('too many paths', None))
                        break
                    self.reset()
                    try:
                        body()
                    except PathEnd:
                        pass
                    except Unsupported as e:
                        self.unsupported.append((str(e), getattr(self, 'line', None)))
                        self.add_ob(B(False), 'within the supported subset: %s' % e, 'unsupported')
                    except SymRaise as e:
                        self.add_ob(B(False), 'no escaping exception %s' % e.cls, 'raise')
                    p = self.explorers[0].next_prefix()
                    if p is None:
                        break
                    self._prefix = p
                self.paths = n
                return
            except Restart:
                restarts += 1
                # data made after the beginning of the loop may be numbered differently now
                for m in self.loopmods.values():
                    if m['ord'] > self.changed:
                        m['cells'].clear()
                self.changed = 10 ** 9
                if restarts > 200:
                    self.unsupported.append(('loop frame inference does not converge', None))
                    self.add_ob(B(False), 'loop frame inference converges', 'unsupported')
                    return

    def trail_key(self):
        return tuple(tuple(c for c, _ in e.trail) for e in self.explorers)

    def _pick(self, n):
        if self.nobranch:
            raise NeedBranch()
        ex = self.explorers[-1]
        pos = len(ex.trail)
        replay = pos < len(ex.prefix)
        c = ex.prefix[pos] if replay else 0
        ex.trail.append((c, n))
        return c

    def choice(self, n):
        return self._pick(n)

    def decide(self, cond):
        cond = simplify(cond) if not is_quantifier(cond) else cond
        if is_true(cond):
            return True
        if is_false(cond):
            return False
        nc = simplify(Not(cond)) if not is_quantifier(cond) else Not(cond)
        for p in self.pc:
            if p.eq(cond):
                return True
            if p.eq(nc):
                return False
        c = self._pick(2)
        if self.lamtrack:
            self.lamtrack[-1].append(len(self.pc))
        self.pc.append(cond if c == 0 else nc)
        self.prune()
        return c == 0

    def prune(self):
        key = (self.trail_key(), self.fresh_n, len(self.pc))
        r = self.prune_cache.get(key)
        if r is None:
            s = Solver()
            s.set('timeout', 250)
            s.set('auto_config', False)
            s.set('smt.mbqi', False)
            s.set('smt.solve_eqs', False)
            s.add(*self.pc)
            ax, _ = L.background(self.pc)
            s.add(*ax)
            s.add(*str_distinct())
            r = s.check() == unsat
            self.prune_cache[key] = r
        if r:
            raise PathEnd()

    def assume(self, f):
        if isinstance(f, (list, tuple)):
            for g in f:
                self.assume(g)
            return
        if is_true(f) or any(same_fact(f, h) for h in self.pc):
            return
        self.pc.append(f)

    def assume_each(self, xs, g, f):
        """f for all values of the variables that satisfy g; the triggers of f are kept"""
        if is_quantifier(f) and f.is_forall() and f.num_patterns():
            self.fresh_n += 1
            vs = [Const('%s!%d' % (f.var_name(j), self.fresh_n), f.var_sort(j)) for j in range(f.num_vars())]
            inst = lambda u: substitute_vars(u, *reversed(vs))
            ids = {x.get_id() for x in xs}
            ps = []
            for j in range(f.num_patterns()):
                p = [inst(u) for u in pattern_args(f.pattern(j))]
                if ids <= {y.get_id() for u in p for y in subterms(u)}:
                    ps.append(MultiPattern(*p) if len(p) > 1 else p[0])
            if ps:
                self.assume(ForAll(list(xs) + vs, Implies(g, inst(f.body())), patterns=ps))
                return
        self.assume(ForAll(xs, Implies(g, f)))

    def add_ob(self, goal, name, kind='assert'):
        self.emit_n += 1
        key = (self.trail_key(), self.emit_n)
        if key not in self.obligations:
            self.obligations[key] = Obligation(name, list(self.pc), both_inclusions(goal), kind, getattr(self, 'line', None))

    def oblige(self, goal, name, kind='assert'):
        if isinstance(goal, bool):
            goal = B(goal)
        self.add_ob(goal, name, kind)
        self.assume(goal)

    def fresh(self, name, sort):
        self.fresh_n += 1
        n = '%s!%d' % (name, self.fresh_n)
        if self.binders:
            return Function(n, *[b.sort() for b in self.binders], sort)(*self.binders)
        return Const(n, sort)

    def fresh_fn(self, name, *sorts):
        """fresh function symbol; in lambda mode it also depends on the binders"""
        self.fresh_n += 1
        n = '%s!%d' % (name, self.fresh_n)
        bs = list(self.binders)
        f = Function(n, *[b.sort() for b in bs], *sorts)
        return lambda *a: f(*bs, *a)

    def forall(self, sorts, body, pats=None):
        self.fresh_n += 1
        xs = [Const('q%d!%d' % (i, self.fresh_n), s) for i, s in enumerate(sorts)]
        b = body(*xs)
        if is_true(b):
            return b
        if pats:
            p = pats(*xs)
            ps = []
            sub = []
            for q in (p if isinstance(p, list) else [p]):
                ts = q if isinstance(q, (list, tuple)) else (pattern_args(q) if isinstance(q, PatternRef) else [q])
                ts = [self.clean_pattern(t, xs, sub) for t in ts]
                if all(t is not None for t in ts):
                    ps.append(MultiPattern(*ts) if len(ts) > 1 else ts[0])
            if sub:
                b = substitute(b, *sub)
            if ps:
                return ForAll(xs, b, patterns=ps)
        return ForAll(xs, b)

    def clean_pattern(self, t, xs, sub):
        """t with ground subterms that may not occur in a pattern replaced by names; None if there is no such form"""
        ids = {x.get_id() for x in xs}

        def ground(u):
            st = [u]
            while st:
                w = st.pop()
                if w.get_id() in ids:
                    return False
                if is_app(w):
                    st.extend(w.children())
                elif is_quantifier(w):
                    st.append(w.body())
            return True

        def bad(u):
            if is_quantifier(u):
                return True
            if not is_app(u):
                return False
            if u.decl().kind() in BAD_PATTERN:
                return True
            return any(bad(c) for c in u.children())

        def go(u):
            if not bad(u):
                return u
            if ground(u):
                for a, c in sub:
                    if a.eq(u):
                        return c
                c = self.fresh('nm', u.sort())
                self.assume(c == u)
                sub.append((u, c))
                return c
            if not is_app(u) or u.decl().kind() in BAD_PATTERN:
                return None
            cs = [go(c) for c in u.children()]
            if any(c is None for c in cs):
                return None
            return u.decl()(*cs) if u.decl().kind() != Z3_OP_SELECT else Select(*cs)
        r = go(t)
        return r if r is not None and r.num_args() > 0 else None

    def exists(self, sorts, body):
        self.fresh_n += 1
        xs = [Const('q%d!%d' % (i, self.fresh_n), s) for i, s in enumerate(sorts)]
        return Exists(xs, body(*xs))

    # ------------------------------------------------------------ cells
    def new_cell(self, content):
        self.cell_n += 1
        self.cells[self.cell_n] = content
        return VCell(self.cell_n)

    def note_write(self, cid):
        if cid in self.shared_cells:
            raise Unsupported('change of an element of a family')
        for w in self.watch:
            if cid <= w['mark'] and cid not in w['mods']['cells']:
                w['mods']['cells'].add(cid)
                self.changed = w['mods']['ord']
                raise Restart()
        for fr in self.lam:
            if cid <= fr['mark']:
                raise Unsupported('side effect on existing data inside a comprehension or merged call')

    def note_writes(self, cids):
        """several at once (fewer restarts)"""
        again = False
        for w in self.watch:
            new = {c for c in cids if c <= w['mark']} - w['mods']['cells']
            if new:
                w['mods']['cells'] |= new
                self.changed = min(self.changed, w['mods']['ord'])
                again = True
        if again:
            raise Restart()
        for c in cids:
            self.note_write(c)

    def note_heap(self, key):
        for w in self.watch:
            if key not in w['mods']['heap']:
                w['mods']['heap'].add(key)
                self.changed = w['mods']['ord']
                raise Restart()
        for fr in self.lam:
            if not fr.get('heap_ok'):
                raise Unsupported('object mutation inside a comprehension or merged call')

    def note_alloc(self):
        for w in self.watch:
            if not w['mods']['alloc']:
                w['mods']['alloc'] = True
                self.changed = w['mods']['ord']
                raise Restart()
        for fr in self.lam:
            raise Unsupported('object creation inside a comprehension')

    def heap_get(self, cls, f):
        k = (ROOT[cls], f)
        if k not in self.heap:
            ty = FIELDS[ROOT[cls]][f]
            if ty[0] == 'dict':
                self.heap[k] = (Const('heap0_%s_%s_dom' % k, ArraySort(IntSort(), ArraySort(sort_of(ty[1]), BoolSort()))),
                                Const('heap0_%s_%s_val' % k, ArraySort(IntSort(), ArraySort(sort_of(ty[1]), sort_of(ty[2])))))
            else:
                self.heap[k] = Const('heap0_%s_%s' % k, ArraySort(IntSort(), sort_of(ty)))
        return self.heap[k]

    def next(self):
        if self.next_ref is None:
            self.next_ref = Const('next0', IntSort())
            self.pc.append(self.next_ref >= 0)
        return self.next_ref

    def alloc(self, cls):
        self.note_alloc()
        r = self.next()
        self.next_ref = simplify(r + 1)
        return VZ(('ref', cls), r)

    def content(self, v):
        if isinstance(v, VMaybe):
            v = self.force(v)
        if isinstance(v, VCell):
            c = self.cells[v.i]
            if isinstance(c, CFwd):
                return self.content(c.loc)
            return c
        if isinstance(v, VFro):
            return v.content
        if isinstance(v, VLoc):
            if v.kind == 'field':
                h = self.heap_get(v.base[1], v.name)
                if v.ty[0] == 'dict':
                    return CDict(v.ty[1], v.ty[2], Select(h[0], v.base[0]), Select(h[1], v.base[0]))
                return self.unpack(Select(h, v.base[0]), v.ty)
            if v.kind == 'item':          # value of a dict
                c = self.content(v.base)
                return self.unpack(Select(c.val, v.key), v.ty)
            if v.kind == 'row':           # view of a row of a 2-d array
                c = self.content(v.base)
                return CNd1(c.ety, c.m, c.arr[v.key])
            if v.kind == 'col':
                c = self.content(v.base)
                self.fresh_n += 1
                k = Int('cv!%d' % self.fresh_n)
                return CNd1(c.ety, c.n, Lambda([k], c.arr[k][v.key]))
            if v.kind == 'lrow':          # row of a list of lists
                c = self.content(v.base)
                return self.unpack(c.at(v.key), v.ty)
        raise Unsupported('not a container: %s' % type(v).__name__)

    def unpack(self, t, ty):
        if ty[0] == 'set':
            return CSet(ty[1], t)
        if ty[0] == 'list':
            return CList(ty[1], L.list_n(t), L.list_a(t))
        raise Unsupported('unpack %r' % (ty,))

    def pack(self, c):
        """term of a content"""
        if isinstance(c, CSet):
            if c.arr is None:
                raise Unsupported('element type of an empty set is unknown')
            return c.arr
        if isinstance(c, CListC):
            ty = self.list_ety(c)
            if ty is None:
                raise Unsupported('element type of an empty list is unknown')
            c = self.sym_list(c, ty)
        if isinstance(c, CList):
            if c.off is not None and not (is_int_value(c.off) and c.off.as_long() == 0):
                c = self.rebase(c)
            return L.list_dt(sort_of(c.ety)).constructor(0)(c.n, c.arr)
        raise Unsupported('pack %s' % type(c).__name__)

    def rebase(self, c):
        a = self.fresh('rb', ArraySort(IntSort(), sort_of(c.ety)))
        self.assume(self.forall([IntSort()], lambda k: a[k] == c.arr[k + c.off], lambda k: a[k]))
        r = type(c)(c.ety, c.n, a)
        return r

    def set_content(self, v, c):
        if isinstance(v, VCell):
            o = self.cells[v.i]
            if isinstance(o, CFwd):
                return self.set_content(o.loc, c)
            if getattr(o, 'frozen', None):
                raise Unsupported('mutation of a value that was stored elsewhere (%s)' % o.frozen)
            self.note_write(v.i)
            self.cells[v.i] = c
            return
        if isinstance(v, VLoc):
            if v.kind == 'field':
                k = (ROOT[v.base[1]], v.name)
                h = self.heap_get(v.base[1], v.name)
                self.note_heap(k)
                if v.ty[0] == 'dict':
                    self.heap[k] = (Store(h[0], v.base[0], c.dom), Store(h[1], v.base[0], c.val))
                else:
                    self.heap[k] = Store(h, v.base[0], self.pack(self.coerce(c, v.ty)))
                return
            if v.kind == 'item':
                d = self.content(v.base)
                self.set_content(v.base, CDict(d.kty, d.vty, d.dom, Store(d.val, v.key, self.pack(self.coerce(c, v.ty))), d.default))
                return
            if v.kind == 'row':
                d = self.content(v.base)
                self.set_content(v.base, CNd2(d.ety, d.n, d.m, Store(d.arr, v.key, c.arr)))
                return
            if v.kind == 'col':
                d = self.content(v.base)
                a = self.fresh('tab', d.arr.sort())
                self.assume(self.forall([IntSort(), IntSort()], lambda i, j: a[i][j] == If(j == v.key, c.at(i), d.arr[i][j]),
                                        lambda i, j: a[i][j]))
                self.set_content(v.base, CNd2(d.ety, d.n, d.m, a))
                return
        if isinstance(v, VFro):
            raise Unsupported('mutation of a shared or read-only value')
        raise Unsupported('write to %s' % type(v).__name__)

    def coerce(self, c, ty):
        if isinstance(c, CSet) and c.arr is None:
            return CSet(ty[1], L.empty(key_sort(ty[1])))
        if isinstance(c, CListC):
            return self.sym_list(c, ty[1])
        return c

    def freeze(self, v, why):
        if isinstance(v, VCell):
            c = self.cells[v.i]
            if isinstance(c, (CSet, CList, CListC, CNd1, CNd2, CDict)):
                import copy
                c2 = copy.copy(c)
                c2.frozen = why
                self.cells[v.i] = c2

    def move(self, v, loc):
        """v's object becomes the owned part loc"""
        if isinstance(v, VCell) and not isinstance(self.cells[v.i], CFwd):
            if getattr(self.cells[v.i], 'frozen', None):
                raise Unsupported('value stored twice')
            for w in self.watch:
                if v.i <= w['mark']:
                    raise Unsupported('an object created before the loop is stored in a field inside it')
            self.cells[v.i] = CFwd(loc)
            self.moved[v.i] = loc

    # ------------------------------------------------------------ types and terms
    def typeof(self, v):
        if isinstance(v, VZ):
            return v.ty
        if isinstance(v, (VStr,)) or v is NONE:
            return 'V'
        if isinstance(v, VTuple):
            return ('tuple',) + tuple(self.typeof(x) for x in v.items)
        if isinstance(v, (VCell, VFro, VLoc)):
            c = self.content(v)
            if isinstance(c, CSet):
                return ('set', c.ety)
            if isinstance(c, CListC):
                return ('list', self.list_ety(c))
            if isinstance(c, CList):
                return ('list', c.ety)
            if isinstance(c, CDict):
                return ('dict', c.kty, c.vty)
            if isinstance(c, CInst):
                return ('inst', c.cls.name)
            if isinstance(c, CNd2):
                return ('nd2', c.ety)
        raise Unsupported('no symbolic type for %s' % type(v).__name__)

    def list_ety(self, c):
        if not c.items:
            return getattr(c, 'hint', None)
        t = self.typeof(c.items[0])
        for x in c.items[1:]:
            t2 = self.typeof(x)
            if t2 != t:
                if {t, t2} == {'int', 'real'}:
                    t = 'real'
                else:
                    raise Unsupported('heterogeneous list')
        return t

    def sym_list(self, c, ety):
        if isinstance(c, CListC):
            a = self.fresh('lst', ArraySort(IntSort(), sort_of(ety)))
            for k, x in enumerate(c.items):
                a = Store(a, I(k), self.encode(x, ety))
            return CList(ety, I(len(c.items)), a)
        return c

    def encode(self, v, ty=None):
        if isinstance(v, VMaybe):
            v = self.force(v)
        if ty is None:
            ty = self.typeof(v)
        if isinstance(v, VZ):
            if v.ty == ty:
                return v.t
            if isinstance(ty, tuple) and isinstance(v.ty, tuple) and ty[0] == 'ref' and v.ty[0] == 'ref' and ROOT[ty[1]] == ROOT[v.ty[1]]:
                return v.t
            if ty == 'real' and v.ty == 'int':
                return ToReal(v.t)
            if ty == 'int' and v.ty == 'bool':
                return If(v.t, I(1), I(0))
            if ty == 'V' and v.ty == 'int':
                return self.uf('int_as_value', V, v.t)
            if ty == 'V' and v.ty == 'bool':
                return self.uf('bool_as_value', V, v.t)
            raise Unsupported('%s where %s is expected' % (v.ty, ty))
        if isinstance(v, VStr):
            if ty != 'V':
                raise Unsupported('string where %s is expected' % (ty,))
            return strconst(v.s)
        if v is NONE and ty == 'V':
            return strconst('None')
        if isinstance(v, VTuple):
            if not (isinstance(ty, tuple) and ty[0] == 'tuple' and len(ty) == len(v.items) + 1):
                raise Unsupported('tuple where %s is expected' % (ty,))
            return L.mk_tuple([self.encode(x, t) for x, t in zip(v.items, ty[1:])])
        if isinstance(v, (VCell, VFro, VLoc)):
            c = self.content(v)
            if isinstance(c, (CSet, CList, CListC)):
                c2 = self.coerce(c, ty)
                t = self.pack(c2)
                if t.sort() != sort_of(ty):
                    raise Unsupported('%s where %s is expected' % (self.typeof(v), ty))
                return t
        raise Unsupported('cannot represent %s as %s' % (type(v).__name__, ty))

    def uf(self, name, sort, *args):
        return Function(name, *[a.sort() for a in args], sort)(*args)

    def key(self, v, ty):
        """term under which v is stored in sets and dicts"""
        if isinstance(ty, tuple) and ty[0] == 'ref':
            return self.ref_key(self.encode(v, ty), ty[1])
        if isinstance(ty, tuple) and ty[0] == 'list':
            return L.tup(self.encode(v, ty))
        return self.encode(v, ty)

    def ref_key(self, r, cls):
        ts = []
        for f, ty in L.KEYS[ROOT[cls]]:
            if f == '=conclusion':
                ts.append(L.diff(Select(self.heap_get(cls, '_conclusion'), r), Select(self.heap_get(cls, '_premise'), r)))
            else:
                ts.append(Select(self.heap_get(cls, f), r))
        return L.mk_tuple(ts)

    def decode(self, t, ty):
        if isinstance(ty, tuple):
            if ty[0] == 'tuple':
                return VTuple([self.decode(L.proj(t, i), x) for i, x in enumerate(ty[1:])])
            if ty[0] in ('set', 'list'):
                return VFro(self.unpack(t, ty))
        return VZ(ty, t)

    def unkey(self, k, ty):
        """a value whose key is k"""
        if isinstance(ty, tuple) and ty[0] == 'ref':
            for xs, g in reversed(self.lam_frames):
                if any(k.eq(x) for x in xs):
                    # the object depends on the bound key only
                    self.fresh_n += 1
                    outer = self.binders[:next(i for i, b in enumerate(self.binders) if b.eq(xs[0]))]
                    r = Function('obj!%d' % self.fresh_n, *[b.sort() for b in outer], k.sort(), IntSort())(*outer, k)
                    f = And(r >= 0, r < self.next(), self.ref_key(r, ty[1]) == k)
                    self.lam_defs.append((g, f, [k], r))
                    self.assume(f)
                    return VZ(ty, r)
            r = self.fresh('obj', IntSort())
            self.assume(And(r >= 0, r < self.next(), self.ref_key(r, ty[1]) == k))
            return VZ(ty, r)
        return self.decode(k, ty)

    def fresh_val(self, ty, name='v'):
        """fresh value of a type (containers as fresh cells)"""
        if isinstance(ty, tuple):
            if ty[0] == 'tuple':
                return VTuple([self.fresh_val(t, name) for t in ty[1:]])
            if ty[0] == 'set':
                return self.new_cell(CSet(ty[1], self.fresh(name, sort_of(ty))))
            if ty[0] in ('list', 'nd1'):
                return self.new_cell(self.fresh_list(ty[1], name, CNd1 if ty[0] == 'nd1' else CList))
            if ty[0] == 'dict':
                return self.new_cell(CDict(ty[1], ty[2], self.fresh(name + '_dom', ArraySort(key_sort(ty[1]), BoolSort())),
                                           self.fresh(name + '_val', ArraySort(key_sort(ty[1]), sort_of(ty[2])))))
            if ty[0] == 'ref':
                r = self.fresh(name, IntSort())
                self.assume(And(r >= 0, r < self.next()))
                return VZ(ty, r)
            if ty[0] == 'nd2':
                n, m = self.fresh(name + '_n', IntSort()), self.fresh(name + '_m', IntSort())
                self.assume(And(n >= 0, m >= 0))
                return self.new_cell(CNd2(ty[1], n, m, self.fresh(name, ArraySort(IntSort(), ArraySort(IntSort(), sort_of(ty[1]))))))
        if ty == 'none':
            return NONE
        return VZ(ty, self.fresh(name, sort_of(ty)))

    def fresh_list(self, ety, name='l', cls=CList):
        n = self.fresh(name + '_n', IntSort())
        self.assume(n >= 0)
        a = self.fresh(name, ArraySort(IntSort(), sort_of(ety)))
        c = cls(ety, n, a)
        self.assume(self.wf_content(c))
        return c

    def wf_content(self, c):
        """what holds of every content of this shape (object references are allocated, lengths are not negative)"""
        out = []
        if isinstance(c, CList):
            out.append(c.n >= 0)
            f = self.wf_elem(c.ety)
            if f:
                nx = self.next()
                out.append(self.forall([IntSort()], lambda k: Implies(And(0 <= k, k < c.n), f(c.at(k), nx)), lambda k: c.at(k)))
        return out

    def wf_elem(self, ty):
        if isinstance(ty, tuple):
            if ty[0] == 'ref':
                return lambda t, nx: And(t >= 0, t < nx)
            if ty[0] == 'list':
                return lambda t, nx: L.list_n(t) >= 0
            if ty[0] == 'tuple':
                fs = [(i, self.wf_elem(x)) for i, x in enumerate(ty[1:])]
                fs = [(i, f) for i, f in fs if f]
                if fs:
                    return lambda t, nx: And(*[f(L.proj(t, i), nx) for i, f in fs])
        return None

    # ------------------------------------------------------------ environments
    def new_env(self, parent, mod):
        self.env_n += 1
        self.envs[self.env_n] = {'parent': parent, 'mod': mod, 'vars': {}, 'globals': set(), 'nonlocals': set()}
        return self.env_n

    def lookup(self, name, env):
        e = env
        while e is not None:
            d = self.envs[e]
            if name in d['vars'] and name not in d['globals']:
                v = d['vars'][name]
                if isinstance(v, VUndef):
                    raise Unsupported('variable %s may be read before assignment in this iteration' % name)
                if isinstance(v, VMaybe):
                    self.oblige(v.flag, 'variable %s is bound' % name)
                    return v.v
                return v
            e = d['parent']
        return self.mod_lookup(name, self.envs[env]['mod'])

    def force(self, v):
        self.oblige(v.flag, 'variable is bound')
        return v.v

    def mod_lookup(self, name, mod):
        r = mod.lookup(name)
        if r is None:
            if hasattr(builtins, name):
                return VExt('builtins.' + name)
            raise SymRaise('NameError')
        return self.from_entry(r)

    def from_entry(self, r):
        if r[0] == 'def':
            mod, node = r[1], r[2]
            if isinstance(node, ast.ClassDef):
                return VClass(mod, node)
            f = VFunc(node, None, mod, None, mod.path + ':' + node.name)
            return self.decorate(f, node)
        if r[0] == 'expr':
            if isinstance(r[2], (ast.Constant,)):
                return self.ev(r[2], self.new_env(None, r[1]))
            return VExt('global:' + ast.unparse(r[2])[:40])
        if r[0] == 'module':
            return VMod(r[1]) if r[1] in self.prog.mods else VExt(r[1])
        if r[0] == 'ext':
            return VExt(r[1])
        raise Unsupported('name')

    def held(self, v):
        """may the data be reached from a variable or from other data"""
        if not isinstance(v, VCell):
            return True
        for e in self.envs.values():
            for x in e['vars'].values():
                if self.holds(x, v.i, set()):
                    return True
        return any(self.holds(x, v.i, set()) for x in self.yields)

    def holds(self, x, i, seen):
        if isinstance(x, (VZ, VFunc, VStr, VSpec, VClass, VMod, VExt, VType)) or x is NONE:
            return isinstance(x, VFunc) and bool(x.defaults) and any(self.holds(y, i, seen) for y in x.defaults.values() if not isinstance(y, tuple))
        if isinstance(x, VCell):
            if x.i == i:
                return True
            if x.i in seen or x.i not in self.cells:
                return False
            seen.add(x.i)
            c = self.cells[x.i]
            if isinstance(c, CInst):
                return any(self.holds(y, i, seen) for y in c.fields.values())
            if isinstance(c, CListC):
                return any(self.holds(y, i, seen) for y in c.items)
            return isinstance(c, CFwd)
        if isinstance(x, VTuple):
            return any(self.holds(y, i, seen) for y in x.items)
        if isinstance(x, VMaybe):
            return self.holds(x.v, i, seen)
        if isinstance(x, VUndef):
            return False
        return True

    def function(self, qual):
        mod, cls, node = self.prog.find(qual)
        return VFunc(node, None, mod, VClass(mod, cls) if cls is not None else None, qual)

    def decorate(self, f, node):
        if not node.decorator_list:
            return f
        if f.qual in self.contracts and not getattr(self, 'raw', False) and f.qual != self.target:
            return f
        out = f
        for d in reversed(node.decorator_list):
            if isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod', 'property'):
                continue
            env = self.new_env(None, f.mod)
            out = self.call(self.ev(d, env), [out], {})
        return out

    def store(self, name, v, env):
        d = self.envs[env]
        if name in d['nonlocals']:
            e = d['parent']
            while e is not None and name not in self.envs[e]['vars']:
                e = self.envs[e]['parent']
            if e is None:
                raise Unsupported('nonlocal ' + name)
            env, d = e, self.envs[e]
        if name in d['globals']:
            raise Unsupported('assignment to global variable ' + name)
        old = d['vars'].get(name)
        same = old is v or (isinstance(old, VCell) and isinstance(v, VCell) and old.i == v.i)
        if not same:
            for w in self.watch:
                if env <= w['env_mark'] and (env, name) not in w['mods']['vars']:
                    w['mods']['vars'].add((env, name))
                    self.changed = w['mods']['ord']
                    raise Restart()
            for fr in self.lam:
                if env <= fr['env_mark']:
                    raise Unsupported('assignment inside a comprehension')
        d['vars'][name] = v

    # ------------------------------------------------------------ views for contracts
    def view(self, v):
        from .views import view
        return view(self, v)

    # ------------------------------------------------------------ merging of branches
    def snapshot(self):
        import copy
        return (dict(self.cells), {k: dict(d, vars=dict(d['vars'])) for k, d in self.envs.items()}, dict(self.heap), self.next_ref,
                len(self.pc), self.cell_n, self.env_n, dict(self.moved))

    def restore(self, s):
        self.cells, self.envs, self.heap, self.next_ref = dict(s[0]), {k: dict(d, vars=dict(d['vars'])) for k, d in s[1].items()}, dict(s[2]), s[3]
        del self.pc[s[4]:]
        self.moved = dict(s[7])

    def effects_since(self, s):
        """has existing data changed"""
        return any(self.cells.get(k) is not c for k, c in s[0].items()) or any(self.heap.get(k) is not h and not (h is not None and k in self.heap and self.heap[k].eq(h)) for k, h in s[2].items())

    def merged(self, fn):
        """evaluate fn() on all of its branches and merge the results into one value.
        fn must not change existing data.  Returns (value or None, [(cond, SymRaise)])"""
        base = self.snapshot()
        outs, raises, extra = [], [], []
        prefix = []
        nb, self.nobranch = self.nobranch, 0
        count = 0
        while True:
            count += 1
            if count > 64:
                raise Unsupported('too many branches in a merged expression')
            ex = Explorer(prefix)
            self.explorers.append(ex)
            fr = {'mark': base[5], 'env_mark': base[6]}
            self.lam.append(fr)
            dec = len(self.pc)
            track = []
            self.lamtrack.append(track)
            ctrack = []
            self.condtrack.append(ctrack)
            try:
                try:
                    v = fn()
                    outs.append((self.path_conds(dec, track), v, self.path_asm(dec, track, ctrack), self.contents_of(v)))
                except SymRaise as e:
                    raises.append((self.path_conds(dec, track + ctrack), e, self.path_asm(dec, track, ctrack)))
                except PathEnd:
                    pass
            finally:
                self.explorers.pop()
                self.lam.pop()
                self.lamtrack.pop()
                self.condtrack.pop()
            self.restore(base)
            p = ex.next_prefix()
            if p is None:
                break
            prefix = p
        self.nobranch = nb
        for conds, _, asm, _c in outs:
            for a in asm:
                self.assume(Implies(conj(conds), a) if conds else a)
        for conds, _, asm in raises:
            for a in asm:
                self.assume(Implies(conj(conds), a) if conds else a)
        rs = [(conj(c), e) for c, e, _ in raises]
        if not outs:
            return None, rs
        return self.merge_vals([(c, v, cc) for c, v, _, cc in outs]), rs

    def contents_of(self, v):
        """contents of cells reachable from v (they are dropped on restore)"""
        out = {}

        def go(x):
            if isinstance(x, VCell) and x.i not in out:
                c = self.cells[x.i]
                out[x.i] = c
                if isinstance(c, CListC):
                    for y in c.items:
                        go(y)
                if isinstance(c, CInst):
                    for y in c.fields.values():
                        go(y)
            elif isinstance(x, VTuple):
                for y in x.items:
                    go(y)
        go(v)
        return out

    def path_conds(self, start, track):
        return [self.pc[i] for i in range(start, len(self.pc)) if i in track]

    def path_asm(self, start, track, ctrack=()):
        out, guards = [], []
        for i in range(start, len(self.pc)):
            if i in ctrack:
                guards.append(self.pc[i])
            elif i not in track:
                out.append(Implies(conj(guards), self.pc[i]) if guards else self.pc[i])
        return out

    def assume_cond(self, t):
        """the rest of this evaluation is only of interest where t holds"""
        n = len(self.pc)
        self.assume(t)
        self.condtrack[-1].extend(range(n, len(self.pc)))

    def guards_now(self):
        """decisions and conditions of the evaluation under the innermost binder"""
        lo = self.lam_pc[-1] if self.lam_pc else 0
        idx = sorted({i for t in self.lamtrack + self.condtrack for i in t if lo <= i < len(self.pc)})
        return [self.pc[i] for i in idx]

    def merge_vals(self, outs):
        conds, v0, cc = outs[0]
        if len(outs) == 1:
            for i, c in cc.items():
                self.cells.setdefault(i, c)
                if i not in self.cells:
                    self.cells[i] = c
            self.cell_n = max([self.cell_n] + list(cc))
            return v0
        for _, v, cc in outs:
            for i, c in cc.items():
                if i not in self.cells:
                    self.cells[i] = c
                    self.cell_n = max(self.cell_n, i)
        vals = [v for _, v, _ in outs]
        if all(isinstance(v, VNone) for v in vals):
            return NONE
        if all(isinstance(v, (VCell, VLoc)) for v in vals) and len({(v.i if isinstance(v, VCell) else id(v)) for v in vals}) == 1:
            return vals[0]
        if all(isinstance(v, VTuple) and len(v.items) == len(vals[0].items) for v in vals):
            return VTuple([self.merge_vals([(c, v.items[i], {}) for c, v, _ in outs]) for i in range(len(vals[0].items))])
        tys = [self.typeof(v) for v in vals]
        ty = tys[0]
        for t in tys[1:]:
            if t != ty:
                if {t, ty} <= {'int', 'real'}:
                    ty = 'real'
                elif {t, ty} <= {'int', 'bool'}:
                    ty = 'int'
                elif isinstance(t, tuple) and isinstance(ty, tuple) and t[0] == ty[0] == 'set' and None in (t[1], ty[1]):
                    ty = ty if t[1] is None else t
                elif 'V' in (t, ty) and {t, ty} <= {'V', 'int', 'bool'}:
                    ty = 'V'
                else:
                    raise Unsupported('branches give values of different types')
        t = self.encode(vals[-1], ty)
        for (c, v, _) in reversed(outs[:-1]):
            t = If(conj(c), self.encode(v, ty), t)
        r = self.decode(t, ty)
        if isinstance(r, VFro):
            r = self.new_cell(r.content)
        return r
