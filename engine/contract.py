"""Contracts: specification, use at call sites, verification of bodies."""
import ast
import time
from z3 import *
from . import logic as L
from .core import *
from .core import _Ret
from .views import *
from .ev import Exec, loops_of


class LoopC:
    def __init__(self, inv=None, types=None, at_body=None, at_end=None, on_break=None, after=None, at_entry=None, on_return=None):
        self.after, self.at_entry, self.on_return = after, at_entry, on_return
        self.inv, self.types, self.at_body, self.at_end, self.on_break = inv or (lambda S: []), types or {}, at_body, at_end, on_break


class Inst:
    """parameter or result that is an instance of a class with a registered shape"""
    def __init__(self, cls, raw=False, fields=None, empty=False, exact=False):
        """raw: the invariant need not hold; empty: an object under construction; exact: no subclass"""
        self.cls, self.raw, self.fields, self.empty, self.exact = cls, raw or empty, fields or {}, empty, exact or empty


class Lit:
    """a fixed argument: None, True, False, int or str"""
    def __init__(self, v):
        self.v = v

    def val(self):
        v = self.v
        if v is None:
            return NONE
        if isinstance(v, bool):
            return VZ('bool', B(v))
        if isinstance(v, int):
            return VZ('int', I(v))
        return VStr(v)


class Fn:
    """abstract function argument: make(interp) -> VSpec; accept(value) at call sites"""
    def __init__(self, name, make, accept=None):
        self.name, self.make, self.accept = name, make, accept


class Either:
    """result of the first type when the condition (over the arguments) holds, else of the second"""
    def __init__(self, cond, yes, no):
        self.cond, self.yes, self.no = cond, yes, no


class Opt:
    """None or a value of the type (both are considered)"""
    def __init__(self, ty):
        self.ty = ty


class Opaque:
    """an argument the function only passes around"""


class Text:
    """a value that is a str"""


class Family:
    """a list of objects given by functions of the position; the code must not change them"""
    def __init__(self, cls, facts):
        self.cls, self.facts = cls, facts        # facts(position, view of the object): what it is


class Obj:
    """an object of an unknown class with the given attributes"""
    def __init__(self, fields):
        self.fields = fields


class ClassArg:
    def __init__(self, name):
        self.name = name


def make(it, spec, name):
    if isinstance(spec, Inst):
        return make_inst(it, spec, name)
    if isinstance(spec, Lit):
        return spec.val()
    if isinstance(spec, Opt):
        return NONE if it.decide(it.fresh(name + '_none', BoolSort())) else make(it, spec.ty, name)
    if isinstance(spec, Fn):
        return spec.make(it)
    if isinstance(spec, Text):
        t = it.fresh(name, V)
        it.text.add(t.get_id())
        return VZ('V', t)
    if isinstance(spec, Family):
        n = it.fresh(name + '_n', IntSort())
        it.assume(n >= 0)

        def get(k):
            if it.binders:
                raise Unsupported('element of a family inside a comprehension')
            before = it.cell_n
            v = make_inst(it, Inst(spec.cls), name + '_item')
            it.shared_cells |= set(range(before + 1, it.cell_n + 1))
            for f in spec.facts(k, view(it, v)):
                it.assume(f)
            return v
        return VSeq(n, get)
    if isinstance(spec, Opaque):
        return VZ('V', it.fresh(name, V))
    if isinstance(spec, Obj):
        mod = next(iter(it.prog.mods.values()))
        return it.new_cell(CInst(VClass(mod, ast.parse('class Unknown: pass').body[0]), {f: make(it, s, name + '_' + f) for f, s in spec.fields.items()}))
    if isinstance(spec, ClassArg):
        return it.class_named(spec.name)
    if isinstance(spec, tuple) and spec and spec[0] == 'tup':
        return VTuple([make(it, s, name) for s in spec[1:]])
    if isinstance(spec, tuple) and spec and spec[0] == 'fro':
        v = it.fresh_val(spec[1], name)
        return VFro(it.content(v))
    return it.fresh_val(spec, name)


def make_inst(it, spec, name):
    sh = SHAPES[spec.cls]
    fields = {}
    for f, s in ({} if spec.empty else sh['fields']).items():
        s = spec.fields.get(f, s)
        if s is not None:
            fields[f] = make(it, s, '%s_%s' % (name, f))
    v = it.new_cell(CInst(it.class_named(spec.cls), fields))
    if sh.get('link') and not spec.empty:
        sh['link'](it, v)
    if not spec.raw:
        for lab, f in inst_inv(it, v):
            it.assume(f)
    return v


def inst_inv(it, v, st=None, deep=False, seen=()):
    """deep: also of the objects it consists of"""
    with within(it, st):
        c = it.content(v)
    out = []
    if deep:
        for f, x in c.fields.items():
            if isinstance(x, VCell) and isinstance(it.content(x), CInst) and x.i not in seen:
                out += [('%s: %s' % (f, lab), g) for lab, g in inst_inv(it, x, st, True, seen + (v.i,))]
    w = view(it, v, st)
    for cls in [c.cls.name] + [k.name for k in it.mro(c.cls)]:
        if cls in SHAPES:
            for i, f in enumerate(SHAPES[cls]['inv'](w)):
                out.append(f if isinstance(f, tuple) else ('invariant %d' % i, f))
            break
    return out


def fits(it, v, spec):
    if isinstance(v, VMaybe):
        v = it.force(v)
    if isinstance(spec, Inst):
        if not isinstance(v, VCell) or not isinstance(it.content(v), CInst):
            return False
        if spec.exact and it.content(v).cls.name != spec.cls:
            return False
        if spec.empty:
            return True
        return any(c.name == spec.cls for c in it.mro(it.content(v).cls)) and all(
            f in it.content(v).fields and (not isinstance(s, tuple) or s[0] != 'nd2' or fits(it, it.content(v).fields[f], s))
            for f, s in SHAPES[spec.cls]['fields'].items() if spec.fields.get(f, s) is not None) and all(
            f in it.content(v).fields and fits(it, it.content(v).fields[f], s) for f, s in spec.fields.items() if s is not None)
    if isinstance(spec, Opt):
        return v is NONE or fits(it, v, spec.ty)
    if isinstance(spec, Lit):
        w = spec.val()
        if w is NONE:
            return v is NONE
        if isinstance(w, VStr):
            return isinstance(v, VStr) and v.s == w.s
        return isinstance(v, VZ) and v.ty == w.ty and simplify(v.t).eq(simplify(w.t))
    if isinstance(spec, Fn):
        return spec.accept(it, v) if spec.accept else isinstance(v, VSpec) and v.tag == spec.name
    if isinstance(spec, Opaque):
        return True
    if isinstance(spec, Obj):
        return isinstance(v, VCell) and isinstance(it.content(v), CInst) and set(spec.fields) <= set(it.content(v).fields)
    if isinstance(spec, ClassArg):
        return isinstance(v, VClass)
    if isinstance(spec, tuple) and spec[0] == 'tup':
        return isinstance(v, VTuple) and len(v.items) == len(spec) - 1 and all(fits(it, x, s) for x, s in zip(v.items, spec[1:]))
    if isinstance(spec, tuple) and spec[0] == 'fro':
        return fits(it, v, spec[1])
    try:
        if isinstance(spec, tuple) and spec[0] in ('set', 'list', 'dict', 'nd1', 'nd2'):
            if not isinstance(v, (VCell, VFro, VLoc)):
                return False
            c = it.content(v)
            if spec[0] == 'set':
                return isinstance(c, CSet) and (c.arr is None or c.ety == spec[1])
            if spec[0] == 'list':
                if isinstance(c, CListC):
                    t = it.list_ety(c)
                    return t is None or t == spec[1] or same_ref(t, spec[1])
                return isinstance(c, CList) and not isinstance(c, CNd1) and (c.ety == spec[1] or same_ref(c.ety, spec[1]))
            if spec[0] == 'dict':
                return isinstance(c, CDict) and (c.dom is None or (c.kty, c.vty) == spec[1:])
            if spec[0] == 'nd1':
                return isinstance(c, CNd1) and c.ety == spec[1]
            return isinstance(c, CNd2) and c.ety == spec[1]
        if isinstance(v, (VCell, VFro, VLoc, VTuple)) and spec == 'V':
            return False
        it.encode(v, spec)
        return True
    except Unsupported:
        return False


def same_ref(a, b):
    return isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'ref' and ROOT[a[1]] == ROOT[b[1]]


def coerce_arg(it, v, spec):
    """argument in the representation of its declared type (for views)"""
    if isinstance(spec, tuple) and spec[0] in ('set', 'list') and isinstance(v, (VCell, VFro, VLoc)):
        c = it.content(v)
        if isinstance(c, CListC) or (isinstance(c, CSet) and c.arr is None):
            return VFro(it.coerce(c, spec))
        return v
    if isinstance(spec, tuple) and spec[0] == 'dict' and it.content(v).dom is None:
        return VFro(CDict(spec[1], spec[2], L.empty(key_sort(spec[1])), it.fresh('dv', ArraySort(key_sort(spec[1]), sort_of(spec[2])))))
    if isinstance(spec, str) and spec in ('int', 'bool', 'real', 'V') and not (isinstance(v, VZ) and v.ty == spec):
        return VZ(spec, it.encode(v, spec))
    return v


class Lemma:
    """a consequence of the definitions, proved from them and available to every obligation that mentions the symbols"""
    trusted = None
    loops = {}
    empties = {}
    nocall = True

    def __init__(self, name, symbols, vs, body, pats, props, by=None, induct=None):
        """body(*variables), for all values; by(*variables): statements (label, formula) proved first
        induct: (number of the variable, its least value) when the proof is by induction over an integer variable"""
        self.qual = self.label = 'lemma:' + name
        self.props, self.name, self.by, self.vs, self.body, self.induct = props, name, by or (lambda *a: []), vs, body, induct
        ps = pats(*vs)
        b = body(*vs)
        if induct:
            b = Implies(vs[induct[0]] >= induct[1], b)
        self.upto = L.lemma(symbols, name, ForAll(vs, b, patterns=[MultiPattern(*p) if isinstance(p, (tuple, list)) else p for p in (ps if isinstance(ps, list) else [ps])]))

    def verify(self, prog, contracts, all_loops):
        it = Exec(prog, contracts)
        vs = [Const('%s!l' % v, v.sort()) for v in self.vs]

        def prove(vs, what):
            for f in self.by(*vs):
                it.oblige(f[1], '%s%s: %s' % (self.name, what, f[0]), 'lemma')
            it.oblige(self.body(*vs), self.name + what, 'lemma')

        def body():
            if not self.induct:
                return prove(vs, '')
            k, lo = self.induct
            at = lambda t: [t if j == k else v for j, v in enumerate(vs)]
            if it.decide(Bool('lemma!base')):
                it.oblige(self.body(*at(I(lo))), self.name + ', base', 'lemma')
            else:
                it.assume(vs[k] >= lo)
                it.assume(self.body(*vs))
                prove(at(vs[k] + 1), ', step')
        it.explore(body)
        for ob in it.obligations.values():
            ob.upto = self.upto
        it.exits = []
        return it

    def matches(self, it, bound):
        return False


class Contract:
    def __init__(self, qual, params, requires=None, ensures=None, returns='none', raises=(), modifies=(), loops=None,
                 alias=None, shared=False, variant='', props=(), lemmas=None, at_exit=None, ghosts=None, hidden=None, trusted=None,
                 rebinds=(), locals_=None, exit_lemmas=None, on_yield=None, inline=(), bounded=None, heap_mod=(), setup=None, nocall=False, source=None, empties=None, inner_loops=None, decorated=False, linked=False):
        """raises: (exception, condition) or (exception, condition, True) when objects under construction may be left half made
        source: a lemma - statements of a client over the contracts and code of the module, not code of the repository"""
        self.source = source
        self.linked = linked                     # elements of the lists made in comprehensions are considered wherever the elements they come from are
        self.decorated = decorated               # the function as its decorators leave it
        self.inner_loops = inner_loops or {}     # of functions executed as part of this one
        self.empties = empties or {}     # element types of empty containers made inside comprehensions
        self.qual, self.params, self.requires, self.ensures, self.returns = qual, params, requires, ensures, returns
        self.raises, self.modifies, self.loops, self.alias, self.shared = raises, tuple(modifies), loops or {}, alias or {}, shared
        self.variant, self.props = variant, props
        self.trusted = trusted
        self.exit_lemmas = exit_lemmas
        self.heap_mod = heap_mod
        self.setup = setup
        self.on_yield = on_yield
        self.nocall = nocall
        self.rebinds = tuple(rebinds)

    @property
    def label(self):
        return self.qual + ('[%s]' % self.variant if self.variant else '')

    # ------------------------------------------------------------ call site
    def matches(self, it, bound):
        if self.nocall:
            return False
        for p, s in self.params.items():
            if p not in bound or not fits(it, bound[p], s):
                return False
        return all(p in self.params for p in bound)

    def apply(self, it, bound):
        it.used_contracts.add(self.label)
        it.last_call[self.qual] = None
        name = self.qual.split(':')[1]
        bound = {p: (it.force(v) if isinstance(v, VMaybe) else v) for p, v in bound.items()}
        given = bound
        bound = {p: coerce_arg(it, v, self.params[p]) for p, v in bound.items()}
        for p, s in self.params.items():
            if isinstance(s, Inst) and not s.raw:
                for lab, f in inst_inv(it, bound[p]):
                    it.oblige(f, 'call of %s: %s satisfies "%s"' % (name, p, lab), 'pre')
        ghosts = self.setup(it, CallView(it, bound, None)) if self.setup else {}
        S = CallView(it, bound, None, ghosts=ghosts)
        for lab, f in labelled(self.requires, S):
            it.oblige(f, 'call of %s: requires "%s"' % (name, lab), 'pre')
        pre = snap(it)
        S0 = CallView(it, bound, pre, ghosts=ghosts)
        for exc, cond, *dirty in self.raises:
            c = cond(S0)
            if it.binders or it.nobranch:
                it.maybe_raise(c, exc)
            elif it.decide(c):
                for m in self.rebinds if dirty else ():
                    self.rebind(it, bound, m)
                for m in self.modifies if dirty else ():
                    self.havoc(it, bound, m)
                    v = path(it, bound, m)
                    if isinstance(v, VCell) and isinstance(it.content(v), CInst):
                        for lab, f in inst_inv(it, v):
                            it.assume(f)
                raise SymRaise(exc)
        # effects
        ws = [w for m in self.modifies for w in reach(it, path(it, bound, m), None) if not (isinstance(m, tuple) and m[0] == 'heap')]
        ws += [v.i for v in (path(it, bound, m) for m in self.rebinds) if isinstance(v, VCell)]
        it.note_writes(sorted(ws))
        for m in self.modifies:
            self.havoc(it, bound, m)
        for m in self.rebinds:
            self.rebind(it, bound, m)
        if self.heap_mod == 'new' or 'new' in self.heap_mod:
            o = it.next()
            it.note_alloc()
            it.next_ref = it.fresh('next', IntSort())
            it.assume(it.next_ref >= o)
            for h in [x for x in self.heap_mod if x != 'new']:
                it.note_heap(h)
                a = it.heap_get(*h)
                if isinstance(a, tuple):
                    b = tuple(it.fresh('hp', x.sort()) for x in a)
                    for x, y in zip(a, b):
                        it.assume(it.forall([IntSort()], lambda r: Implies(And(0 <= r, r < o), y[r] == x[r]), lambda r: y[r]))
                else:
                    b = it.fresh('hp_' + h[1], a.sort())
                    it.assume(it.forall([IntSort()], lambda r: Implies(And(0 <= r, r < o), b[r] == a[r]), lambda r: b[r]))
                it.heap[h] = b
        for p, cond in self.alias.items():
            if not it.held(given[p]):
                continue        # only the caller has it: whether the result is the argument cannot be told
            c = cond(S0) if cond else it.fresh('alias', BoolSort())
            if it.decide(c):
                r = bound[p]
                S1 = CallView(it, bound, None, S0, r, ghosts=ghosts)
                for lab, f in labelled(self.ensures, S1):
                    it.assume(f)
                it.last_call[self.qual] = CallView(it, bound, snap(it), S0, r, ghosts=ghosts)
                return r
        ret = self.returns
        while isinstance(ret, Either):
            ret = ret.yes if it.decide(ret.cond(S0)) else ret.no
        r = make(it, ret, 'r_' + name.split('.')[-1])
        if self.shared and isinstance(r, VCell) and not (self.shared == 'in computations' and it.fresh_rows):
            r = VFro(it.content(r))
        if isinstance(r, VCell) and isinstance(it.cells[r.i], CList) and not isinstance(it.cells[r.i], CNd1):
            pass
        S1 = CallView(it, bound, None, S0, r, ghosts=ghosts)
        for m in self.modifies + self.rebinds:
            v = path(it, bound, m)
            if isinstance(v, VCell) and isinstance(it.content(v), CInst):
                for lab, f in inst_inv(it, v):
                    it.assume(f)
        for lab, f in labelled(self.ensures, S1):
            it.assume(f)
        it.last_call[self.qual] = CallView(it, bound, snap(it), S0, r, ghosts=ghosts)
        return r

    def rebind(self, it, bound, m):
        """the fields of an object get new values; the old values stay as they are"""
        v = path(it, bound, m)
        c = it.content(v)
        it.note_write(v.i)
        f = dict(c.fields)
        only = m.split(':')[1].split(',') if ':' in m else None
        sh = next(SHAPES[k.name] for k in it.mro(c.cls) if k.name in SHAPES)
        for nm, s in sh['fields'].items():
            if s is not None and nm not in sh.get('const', ()) and (only is None or nm in only):
                f[nm] = make(it, s, 'm_' + nm)
        it.cells[v.i] = CInst(c.cls, f)

    def havoc(self, it, bound, m):
        v = path(it, bound, m)
        if isinstance(v, VCell) and isinstance(it.content(v), CInst):
            c = it.content(v)
            it.note_write(v.i)
            f = {}
            for nm, x in c.fields.items():
                if isinstance(x, VCell) and not isinstance(it.content(x), CInst):
                    it.havoc_cell(x.i, None, None) if False else havoc_cell(it, x)
                f[nm] = x
            sh = SHAPES.get(c.cls.name)
            if sh is None:
                for k in it.mro(c.cls):
                    if k.name in SHAPES:
                        sh = SHAPES[k.name]
                        break
            for nm, s in sh['fields'].items():
                if s is not None and nm not in sh.get('const', ()):
                    f[nm] = make(it, s, 'm_' + nm)
            it.cells[v.i] = CInst(c.cls, f)
            return
        havoc_cell(it, v)

    # ------------------------------------------------------------ body
    def verify(self, prog, contracts, all_loops):
        it = Exec(prog, contracts)
        it.target = self.qual
        it.linked = self.linked
        it.fresh_rows = getattr(self, 'fresh_rows', False)
        it.loop_hints = dict(all_loops)
        it.loop_hints[self.qual] = self.loops
        it.loop_hints.update(self.inner_loops)
        it.empties = {c.qual: c.empties for cs in contracts.values() for c in cs if c.empties}
        it.empties[self.qual] = self.empties
        it.ghosts = {}
        try:
            if self.source:
                mod = next((m for m in prog.mods.values() if m.path == self.qual.split(':')[0]), None)
                if mod is None:
                    raise KeyError(self.qual)
                cls, node = None, ast.parse(self.source).body[0]
            else:
                mod, cls, node = prog.find(self.qual)
        except KeyError as e:
            it.obligations = {}
            it.explore(lambda: it.add_ob(B(False), 'function %s exists' % self.qual, 'unsupported'))
            it.exits = []
            return it
        fv = VFunc(node, None, mod, VClass(mod, cls) if cls is not None else None, self.qual)
        exits = []
        name = self.qual.split(':')[1]

        def body():
            bound = {p: make(it, s, p) for p, s in self.params.items()}
            it.ghosts = {}
            if self.setup:
                it.ghosts = self.setup(it, CallView(it, bound, None)) or {}
            S = CallView(it, bound, None, ghosts=it.ghosts)
            for lab, f in labelled(self.requires, S):
                it.assume(f)
            it.next()
            entry = snap(it)
            entry_next = it.next_ref
            it.frame0 = (entry_next, dict(it.heap), self.heap_mod_fields())
            mark = it.cell_n
            S0 = CallView(it, bound, entry, ghosts=it.ghosts)
            it.old_view = S0
            if self.on_yield:
                it.on_yield = lambda v: [it.oblige(f, '%s: yielded value: %s' % (name, lab), 'post') for lab, f in labelled(lambda T: self.on_yield(T, view(it, v)), CallView(it, bound, None, S0, ghosts=it.ghosts))]
            args = dict(bound)
            kw = {}
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs]
            try:
                if len(names) >= len(self.params) and set(self.params) - set(names) and not set(names[:len(self.params)]) - set(names):
                    args = {names[i] if p not in names else p: bound[p] for i, p in enumerate(self.params)}
                for nm in names:
                    if nm not in args:
                        d = it.default(fv, nm)
                        if d is None:
                            raise Unsupported('contract does not describe parameter %s' % nm)
                        args[nm] = d
                for nm in list(args):
                    if nm not in names:
                        raise Unsupported('function has no parameter %s' % nm)
                if self.decorated and not self.source:
                    it.within_target = node
                    r = it.call(it.decorate(fv, node), [args[x.arg] for x in a.posonlyargs + a.args], {})
                else:
                    r = it.inline(fv, args)
            except SymRaise as x:
                conds = [c(S0) for e, c, *d in self.raises if it.exc_is(x.cls, e) or e == x.cls]
                it.add_ob(Or(*conds) if conds else B(False), '%s: raises %s only as specified' % (name, x.cls), 'raise')
                dirty = [c(S0) for e, c, *d in self.raises if d and (it.exc_is(x.cls, e) or e == x.cls)]
                self.frame(it, bound, entry, entry_next, mark, name + ' (raising)', raising=True, dirty=Or(*dirty) if dirty else None)
                return
            exits.append((list(it.pc), it.trail_key()))
            for e, c, *d in self.raises:
                it.oblige(Not(c(S0)), '%s: raises %s when specified' % (name, e), 'raise')
            r = self.check_result(it, bound, r, name, mark, S0)
            S1 = CallView(it, bound, None, S0, r, ghosts=it.ghosts)
            it.line = node.lineno
            for lab, f in labelled(self.exit_lemmas, S1):
                it.oblige(f, '%s: lemma "%s"' % (name, lab), 'lemma')
            for m in list(self.modifies) + list(self.rebinds):
                v = path(it, bound, m)
                if isinstance(v, VCell) and isinstance(it.content(v), CInst):
                    for lab, f in inst_inv(it, v, deep=True):
                        it.oblige(f, '%s: %s satisfies "%s"' % (name, m, lab), 'post')
            if isinstance(r, VCell) and isinstance(it.content(r), CInst):
                for lab, f in inst_inv(it, r, deep=True):
                    it.oblige(f, '%s: the result satisfies "%s"' % (name, lab), 'post')
            for lab, f in labelled(self.ensures, S1):
                it.oblige(f, '%s: ensures "%s"' % (name, lab), 'post')
            self.frame(it, bound, entry, entry_next, mark, name)
            self.ownership(it, bound, r, entry, mark, name)

        it.explore(body)
        it.exits = exits
        if not it.obligations and exits:
            it.obligations[((), 0)] = Obligation('%s: returns normally' % name, [], B(True), 'post')
        return it

    def check_result(self, it, bound, r, name, mark, S0):
        if isinstance(r, VMaybe):
            r = it.force(r)
        sp = self.returns
        if sp is None:
            return r
        while isinstance(sp, Either):
            a, b = fits(it, r, sp.yes), fits(it, r, sp.no)
            if a != b:
                c = sp.cond(S0)
                it.add_ob(c if a else Not(c), '%s: kind of result' % name, 'post')
                sp = sp.yes if a else sp.no
            else:
                sp = sp.yes
        if isinstance(sp, (tuple, str)) and isinstance(r, (VSeq, VSetIter)) and isinstance(sp, tuple) and sp[0] == 'list':
            r = it.seq_to_list(r)
        if isinstance(r, list):
            r = it.collect(r, 'list', None)
        if sp == 'none':
            it.add_ob(B(r is NONE), '%s: returns nothing' % name, 'post')
            return r
        ok = fits(it, r, sp)
        if not ok:
            it.add_ob(B(False), '%s: result has type %s' % (name, sp if not isinstance(sp, Inst) else sp.cls), 'post')
            raise PathEnd()
        if isinstance(r, VCell):
            for p, v in bound.items():
                if isinstance(v, VCell) and v.i == r.i:
                    c = self.alias.get(p, 0)
                    if c == 0:
                        it.add_ob(B(False), '%s: the result is a new object' % name, 'alias')
                    return coerce_arg(it, r, sp) if not isinstance(sp, Inst) else r
            if r.i <= mark and not self.shared:
                it.add_ob(B(False), '%s: the result is a new object' % name, 'alias')
        elif isinstance(r, (VFro, VLoc)) and not self.shared:
            it.add_ob(B(False), '%s: the result is a new object' % name, 'alias')
        return coerce_arg(it, r, sp) if not isinstance(sp, Inst) else r

    def frame(self, it, bound, entry, entry_next, mark, name, raising=False, dirty=None):
        allowed, half, fields = set(), set(), {}
        if not raising:
            for m in self.modifies:
                v = path(it, bound, m, entry)
                allowed |= reach(it, v, entry)
        for m in self.rebinds:
            v = path(it, bound, m, entry)
            if isinstance(v, VCell):
                if ':' in m and not raising:
                    fields[v.i] = m.split(':')[1].split(',')
                else:
                    (half if raising else allowed).add(v.i)
        if raising and dirty is not None:
            for m in self.modifies:
                half |= reach(it, path(it, bound, m, entry), entry)
                v = path(it, bound, m)
                if isinstance(v, VCell) and isinstance(it.content(v), CInst):
                    for lab, f in inst_inv(it, v):
                        it.add_ob(f, '%s: %s satisfies "%s"' % (name, m, lab), 'post')
        for i in range(1, mark + 1):
            if i in allowed:
                continue
            o, n = entry.cells.get(i), it.cells.get(i)
            if o is n or o is None:
                continue
            if i in fields and isinstance(n, CInst):
                n = CInst(n.cls, dict(n.fields, **{x: o.fields[x] for x in fields[i] if x in o.fields}))
            f = same_content(it, o, n, entry)
            if f is not None:
                if i in half and dirty is not None:
                    f = Or(dirty, f)
                it.add_ob(f, '%s: data not listed as modified is unchanged' % name, 'frame')
        for h, new in it.heap.items():
            if h in self.heap_mod_fields():
                continue
            old = entry.heap.get(h)
            if old is None:
                n0 = Const('heap0_%s_%s' % h, new.sort()) if not isinstance(new, tuple) else None
                if n0 is None:
                    continue
                old = n0
            pairs = zip(old, new) if isinstance(old, tuple) else [(old, new)]
            for a, b in pairs:
                if not a.eq(b):
                    it.add_ob(it.forall([IntSort()], lambda r: Implies(And(0 <= r, r < entry_next), b[r] == a[r])),
                              '%s: existing objects keep their %s' % (name, h[1]), 'frame')

    def heap_mod_fields(self):
        return [m[1:] for m in self.modifies if isinstance(m, tuple) and m[0] == 'heap']

    def ownership(self, it, bound, r, entry, mark, name):
        """no sharing between the result or modified objects and the other arguments"""
        roots = []
        for m in self.modifies + self.rebinds:
            v = path(it, bound, m)
            if isinstance(v, VCell) and isinstance(it.content(v), CInst):
                roots.append((m, v))
        if isinstance(r, VCell) and isinstance(it.content(r), CInst) and not any(isinstance(v, VCell) and v.i == r.i for v in bound.values()):
            roots.append(('result', r))
        for nm, v in roots:
            c = it.content(v)
            sh = next((SHAPES[k.name] for k in it.mro(c.cls) if k.name in SHAPES), None)
            share = sh.get('share', ()) if sh else ()
            mine = set()
            for f, x in c.fields.items():
                if f in share:
                    continue
                if isinstance(x, (VFro, VLoc)):
                    if sh and f in sh['fields'] and sh['fields'][f] is not None:
                        it.add_ob(B(False), '%s: field %s of %s is a separate object' % (name, f, nm), 'alias')
                    continue
                rs = reach(it, x, None)
                if rs & mine:
                    it.add_ob(B(False), '%s: the parts of %s are separate objects' % (name, nm), 'alias')
                mine |= rs
            if sh:
                for f, s in sh['fields'].items():
                    if s is None:
                        continue
                    if f not in c.fields:
                        it.add_ob(B(False), '%s: %s has attribute %s' % (name, nm, f), 'post')
                    elif not fits(it, c.fields[f], s):
                        it.add_ob(B(False), '%s: attribute %s of %s has the right type' % (name, f, nm), 'post')
            for p, w in bound.items():
                if isinstance(w, VCell) and w.i != v.i and not (isinstance(nm, str) and nm.startswith(p + '.')):
                    if reach(it, w, None) & mine:
                        it.add_ob(B(False), '%s: %s does not share data with argument %s' % (name, nm, p), 'alias')
                    elif reach(it, w, entry) & mine:
                        it.add_ob(B(False), '%s: %s does not share data with argument %s' % (name, nm, p), 'alias')


def labelled(fn, S):
    if fn is None:
        return []
    out = []

    def go(x):
        if x is None:
            return
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
            out.append(x)
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y)
        else:
            out.append(('#%d' % len(out), x))
    go(fn(S))
    return [(a, B(b) if isinstance(b, bool) else b) for a, b in out]


def path(it, bound, m, st=None):
    if isinstance(m, tuple):
        return None
    ps = m.split(':')[0].split('.')
    v = bound[ps[0]]
    for f in ps[1:]:
        with within(it, st):
            c = it.content(v)
        v = c.fields[f]
    return v


def reach(it, v, st):
    """ids of the cells reachable from v"""
    out = set()
    with within(it, st):
        def go(x):
            if isinstance(x, VCell):
                if x.i in out or x.i not in it.cells:
                    return
                out.add(x.i)
                c = it.cells[x.i]
                if isinstance(c, CInst):
                    for y in c.fields.values():
                        go(y)
                if isinstance(c, CListC):
                    for y in c.items:
                        go(y)
                if isinstance(c, CFwd):
                    go(c.loc)
            elif isinstance(x, VLoc):
                go(x.base) if isinstance(x.base, (VCell, VLoc)) else None
            elif isinstance(x, VTuple):
                for y in x.items:
                    go(y)
        go(v)
    return out


def havoc_cell(it, v):
    if isinstance(v, VFro):
        raise Unsupported('call modifies a shared value')
    o = it.content(v)
    if isinstance(o, CSet):
        n = CSet(o.ety, it.fresh('S', o.arr.sort()))
    elif isinstance(o, CListC):
        ty = it.list_ety(o)
        n = it.fresh_list(ty, 'L')
    elif isinstance(o, CList):
        n = it.fresh_list(o.ety, 'L', type(o))
    elif isinstance(o, CDict):
        n = CDict(o.kty, o.vty, it.fresh('D', o.dom.sort()), it.fresh('W', o.val.sort()), o.default)
    elif isinstance(o, CNd2):
        n = CNd2(o.ety, o.n, o.m, it.fresh('T', o.arr.sort()))
    else:
        raise Unsupported('havoc')
    n.site = getattr(o, 'site', None)
    it.set_content(v, n)


def same_content(it, o, n, entry):
    if isinstance(o, CInst):
        if not isinstance(n, CInst):
            return B(False)
        fs = []
        for f in set(o.fields) | set(n.fields):
            a, b = o.fields.get(f), n.fields.get(f)
            if a is b or (isinstance(a, VCell) and isinstance(b, VCell) and a.i == b.i):
                continue
            if isinstance(a, VZ) and isinstance(b, VZ):
                fs.append(a.t == b.t)
                continue
            return B(False)
        return conj(fs) if fs else None
    if type(o) is not type(n):
        if isinstance(o, (CList, CListC)) and isinstance(n, (CList, CListC)):
            return it.list_equal(o, n)
        return B(False)
    if isinstance(o, CSet):
        if o.arr is None or n.arr is None:
            return None if o.arr is n.arr else B(False)
        return None if o.arr.eq(n.arr) else o.arr == n.arr
    if isinstance(o, CListC):
        if len(o.items) == len(n.items) and all(x is y for x, y in zip(o.items, n.items)):
            return None
        return it.list_equal(o, n)
    if isinstance(o, CList):
        if o.n.eq(n.n) and o.arr.eq(n.arr) and o.off.eq(n.off):
            return None
        return And(o.n == n.n, it.forall([IntSort()], lambda k: Implies(And(0 <= k, k < o.n), o.at(k) == n.at(k))))
    if isinstance(o, CNd2):
        if o.arr.eq(n.arr) and o.n.eq(n.n) and o.m.eq(n.m):
            return None
        return And(o.n == n.n, o.m == n.m, it.forall([IntSort(), IntSort()], lambda i, j: Implies(And(0 <= i, i < o.n, 0 <= j, j < o.m), o.arr[i][j] == n.arr[i][j])))
    if isinstance(o, CDict):
        if o.dom is None:
            return None if n.dom is None else B(False)
        if o.dom.eq(n.dom) and o.val.eq(n.val):
            return None
        return And(o.dom == n.dom, it.forall([o.dom.sort().domain()], lambda k: Implies(o.dom[k], o.val[k] == n.val[k])))
    if isinstance(o, CFwd):
        return None
    return B(False)
