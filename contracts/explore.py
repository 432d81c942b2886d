"""Attribute exploration (C15)."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem
from engine.contract import Contract, Lemma, LoopC, Fn, Lit, Inst, Either, Opaque, Obj
from engine.core import *
from engine.views import SHAPES
from .ctxdef import *
from .ctxnew import within, all_i, INT2
from .patternc import same_context
from .closure import LI, HP, LA, CL
from .dgbasis import MOD, COND, TRUE, CONDITION, NEW, SNM, respects, function_named

P15 = ('C15',)
CX = Inst('Context', exact=True)
SETV = ('set', 'V')
IMP = ('ref', 'Implication')
E1 = 'fca/algorithms/exploration_/exploration.py:'
DB = E1 + 'ExplorationDB.'
SHAPES['ExplorationDB'] = {'fields': {'_cxt': CX, '_implications': LI, '_cond': Fn('any condition', TRUE.make, lambda it, v: TRUE.accept(it, v) or CONDITION.accept(it, v)), '_cxt_implications': LI}, 'inv': lambda w: [], 'const': ('_cond',), 'share': ('_cxt', '_implications')}
KINDS = (('', TRUE, None), ('condition', CONDITION, COND))


def db(spec):
    return Inst('ExplorationDB', fields={'_cond': spec})


def cx(S):
    return ctx(S.self._cxt)


def confirmed(S, X, n=None, S0=None):
    """the set respects the confirmed implications"""
    S0 = S0 or S
    c = S0.self._implications
    P, C = S0.hp()
    return MOD(P, C, c.arr, c.n if n is None else n, X)


def fits(S, but=None):
    """the confirmed conclusions are attributes of the context"""
    c, at = S.self._implications, S.self._cxt._attributes.set
    if but is not None:
        at = L.remove(at, but)
    return ('confirmed conclusions are attributes', all_i(S, c.n, lambda k: sub(S.concl(c[k]), at), c))


def relative(S, cond):
    """the open implications are the basis of the context relative to the confirmed implications"""
    c, R, at = cx(S), S.self._cxt_implications, S.self._cxt._attributes.set
    H = lambda X: ACL(c, X)
    P, C = (lambda k: S.prem(R[k])), (lambda k: S.concl(R[k]))
    hp, hc = S.hp()
    out = [('open premises are attributes', all_i(S, R.n, lambda k: sub(P(k), at), R)),
           ('open conclusions are closures', all_i(S, R.n, lambda k: C(k) == H(P(k)), R)),
           ('open premises are not closed', all_i(S, R.n, lambda k: P(k) != C(k), R)),
           ('open premises respect the confirmed', all_i(S, R.n, lambda k: confirmed(S, P(k)), R)),
           ('no open implication follows from the others', S.forall(INT2, lambda p, q: Implies(And(within(p, R.n), within(q, R.n), p != q), Or(Not(sub(P(q), P(p))), sub(C(q), P(p)))), lambda p, q: [[R[p], R[q]]]))]
    if cond is None:
        out.append(('open and confirmed implications derive those of the context', S.forall([SV], lambda X: Implies(And(sub(X, at), confirmed(S, X), MOD(hp, hc, R.arr, R.n, X)), H(X) == X), lambda X: H(X))))
    else:
        out.append(('open premises meet the condition', all_i(S, R.n, lambda k: cond(P(k)), R)))
    return out


def same_confirmed(S):
    a, o = S.self._implications, S.old.self._implications
    return [('confirmed implications', And(a.n == o.n)), ('confirmed implications', all_i(S, o.n, lambda i: a[i] == o[i], a))]


def heap_same(S):
    """what is confirmed did not change"""
    c = S.self._implications
    hp, hc = S.hp()
    op, oc = S.old.hp()
    return [('the confirmed mean the same', S.forall([SV], lambda X: MOD(hp, hc, c.arr, c.n, X) == MOD(op, oc, c.arr, c.n, X), lambda X: [MOD(hp, hc, c.arr, c.n, X), MOD(op, oc, c.arr, c.n, X)]))]


def same_cxt(S):
    return [('context: ' + l, f) for l, f in same_context(S, S.self._cxt, S.old.self._cxt)]


contracts = []


def change(q, params, ens, raises=(), requires=lambda S: [], **k):
    for tag, spec, cond in KINDS:
        contracts.append(Contract(DB + q, dict({'self': db(spec)}, **params), variant=tag, modifies=('self',), heap_mod=NEW, raises=raises, props=P15, decorated=True,
                                  requires=lambda S: [fits(S)] + requires(S), exit_lemmas=heap_same, ensures=lambda S, cond=cond: ens(S) + [fits(S)] + relative(S, cond), **k))


def violates(S, X):
    return Not(confirmed(S, X))


contracts.append(Contract(DB + '_check_intents', {'self': db(None), 'intents': ('list', SETV)}, props=P15,
                          raises=[('IllegalContextModification', lambda S: S.exists([IntSort()], lambda i: And(within(i, S.intents.n), violates(S, S.intents[i]))))],
                          loops={0: LoopC(lambda S: [('respected so far', all_i(S, S.k, lambda i: confirmed(S, S.intents[i]), S.intents))]),
                                 1: LoopC(lambda S: [('respected so far', confirmed(S, S.intent, S.k))])}))
change('touch', {}, lambda S: same_cxt(S) + same_confirmed(S))
change('confirm_implication', {'imp': IMP}, lambda S: same_cxt(S) + [('one more', S.self._implications.n == S.old.self._implications.n + 1), ('the implication', S.self._implications[S.old.self._implications.n] == S.imp),
       ('the others', all_i(S, S.old.self._implications.n, lambda i: S.self._implications[i] == S.old.self._implications[i], S.self._implications))],
       requires=lambda S: [('the conclusion consists of attributes', sub(S.concl(S.imp), S.self._cxt._attributes.set))])


def added(S):
    a, o, g, X = S.self._cxt, S.old.self._cxt, S.name, S.intent
    n, m = o._objects.n, o._attributes.n
    return [('one more object', a._objects.n == n + 1), ('old objects', all_i(S, n, lambda i: a._objects[i] == o._objects[i], a._objects, o._objects)), ('the new object', a._objects[n] == g),
            ('old cells', S.forall(INT2, lambda i, j: Implies(And(within(i, n), within(j, m)), a.np_table[i, j] == o.np_table[i, j]), lambda i, j: a.np_table[i, j])),
            ('the new row', S.forall([IntSort()], lambda j: Implies(within(j, m), a.np_table[n, j] == X[o._attributes[j]]), lambda j: o._attributes[j]))]


change('add_example', {'name': 'V', 'intent': SETV}, lambda S: added(S) + same_confirmed(S),
       [('IllegalContextModification', lambda S: violates(S, S.intent)), ('NotUniqueObjectName', lambda S: S.self._cxt._objects.set[S.name])])


def less(S, f, ix):
    a, o, g = S.self._cxt, S.old.self._cxt, S.name
    x, y, k = getattr(a, f), getattr(o, f), getattr(o, ix)[g]
    t, u = a.np_table, o.np_table
    up = lambda i: If(i < k, i, i + 1)
    obj = f == '_objects'
    other = '_attributes' if obj else '_objects'
    p, q = getattr(a, other), getattr(o, other)
    return [('one less', x.n == y.n - 1), ('the others stay in order', all_i(S, x.n, lambda i: x[i] == y[up(i)], x)), ('other names: as many', p.n == q.n), ('other names', all_i(S, q.n, lambda i: p[i] == q[i], p, q)),
            ('cells', S.forall(INT2, lambda i, j: Implies(And(within(i, a._objects.n), within(j, a._attributes.n)), t[i, j] == (u[up(i), j] if obj else u[i, up(j)])), lambda i, j: t[i, j]))]


def edited(S, f, ix, value):
    """the row or column is as given, its name is the new one, and all else stays"""
    a, o, old = S.self._cxt, S.old.self._cxt, S.old_name
    k, t, u = getattr(o, ix)[old], a.np_table, o.np_table
    obj = f == '_objects'
    x, y = getattr(a, f), getattr(o, f)
    other = '_attributes' if obj else '_objects'
    p, q = getattr(a, other), getattr(o, other)
    return [('as many names', x.n == y.n), ('the new name', x[k] == S.name), ('other names', all_i(S, y.n, lambda i: Implies(i != k, x[i] == y[i]), x, y)), ('names of the other kind', And(p.n == q.n)),
            ('names of the other kind', all_i(S, q.n, lambda i: p[i] == q[i], p, q)),
            ('cells', S.forall(INT2, lambda i, j: Implies(And(within(i, a._objects.n), within(j, a._attributes.n)), t[i, j] == (If(i == k, value[q[j]], u[i, j]) if obj else If(j == k, value[q[i]], u[i, j]))), lambda i, j: t[i, j]))]


def obj(S):
    return S.self._cxt._objects.set


def att(S):
    return S.self._cxt._attributes.set


def taken(S, names):
    return And(S.name != S.old_name, names(S)[S.name])


change('delete_example', {'name': 'V'}, lambda S: less(S, '_objects', 'object_indices') + same_confirmed(S), [('KeyError', lambda S: Not(obj(S)[S.name]))])
change('delete_attribute', {'name': 'V'}, lambda S: less(S, '_attributes', 'attribute_indices') + same_confirmed(S), [('KeyError', lambda S: Not(att(S)[S.name]))], requires=lambda S: [fits(S, S.name)])
change('edit_example', {'name': 'V', 'old_name': 'V', 'intent': SETV}, lambda S: edited(S, '_objects', 'object_indices', S.intent) + same_confirmed(S),
       [('NotUniqueObjectName', lambda S: taken(S, obj)), ('KeyError', lambda S: And(Not(taken(S, obj)), Or(Not(obj(S)[S.old_name]), And(Not(violates(S, S.intent)), Not(sub(S.intent, att(S))))))),
        ('IllegalContextModification', lambda S: And(Not(taken(S, obj)), obj(S)[S.old_name], S.intent != INTENT(cx(S), S.old_name), violates(S, S.intent)))])


def changed_row(S, g):
    """the attributes of the object with the edited attribute as in the extent"""
    r = INTENT(cx(S), g)
    return L.add(r, S.old_name), L.remove(r, S.old_name)


def new_row(S, g):
    a, b = changed_row(S, g)
    return If(S.extent[g], a, b)


def some_row_violates(S):
    o = S.self._cxt._objects
    return S.exists([IntSort()], lambda i: And(within(i, o.n), violates(S, new_row(S, o[i]))))


change('edit_attribute', {'name': 'V', 'old_name': 'V', 'extent': SETV}, lambda S: edited(S, '_attributes', 'attribute_indices', S.extent) + same_confirmed(S),
       [('NotUniqueAttributeName', lambda S: And(Not(some_row_violates(S)), taken(S, att))), ('IllegalContextModification', some_row_violates),
        ('KeyError', lambda S: And(Not(some_row_violates(S)), Not(taken(S, att)), Or(Not(att(S)[S.old_name]), Not(sub(S.extent, obj(S))))))],
       requires=lambda S: [('a renamed attribute is not in a confirmed conclusion', Or(S.name == S.old_name, fits(S, S.old_name)[1]))],
       loops={0: LoopC(lambda S: [('as many', S.intents.n == S.k), ('the new rows', all_i(S, S.k, lambda i: S.intents[i] == new_row(S.old, S.self._cxt._objects[i]), S.intents))], types={'intents': ('list', SETV)})})


def added_att(S):
    a, o = S.self._cxt, S.old.self._cxt
    n, m = o._objects.n, o._attributes.n
    return [('one more attribute', a._attributes.n == m + 1), ('old attributes', all_i(S, m, lambda i: a._attributes[i] == o._attributes[i], a._attributes, o._attributes)), ('the new attribute', a._attributes[m] == S.name),
            ('same objects', And(a._objects.n == n)), ('same objects', all_i(S, n, lambda i: a._objects[i] == o._objects[i], a._objects, o._objects)),
            ('old cells', S.forall(INT2, lambda i, j: Implies(And(within(i, n), within(j, m)), a.np_table[i, j] == o.np_table[i, j]), lambda i, j: a.np_table[i, j])),
            ('the new column', S.forall([IntSort()], lambda i: Implies(within(i, n), a.np_table[i, m] == S.extent[o._objects[i]]), lambda i: o._objects[i]))]


change('add_attribute', {'name': 'V', 'extent': SETV}, lambda S: added_att(S) + same_confirmed(S), [('NotUniqueAttributeName', lambda S: att(S)[S.name])])


def alike(S, a, b):
    return And(S.prem(a) == S.prem(b), L.diff(S.concl(a), S.prem(a)) == L.diff(S.concl(b), S.prem(b)))


def taken_out(S):
    a, o, T = S.self._implications, S.old.self._implications, S.old
    return [('one less', a.n == o.n - 1),
            ('the first one like it is gone', S.exists([IntSort()], lambda j: And(within(j, o.n), alike(T, o[j], S.imp), all_i(S, j, lambda i: Not(alike(T, o[i], S.imp)), o), all_i(S, a.n, lambda i: a[i] == o[If(i < j, i, i + 1)], a))))]


change('unconfirm_implication', {'imp': IMP}, lambda S: same_cxt(S) + taken_out(S), [('ValueError', lambda S: Not(S.exists([IntSort()], lambda j: And(within(j, S.self._implications.n), alike(S, S.self._implications[j], S.imp)))))])
for tag, spec, cond in KINDS:
    contracts.append(Contract(DB + '__init__', {'self': Inst('ExplorationDB', empty=True), 'context': CX, 'implications': LI, 'cond': spec}, variant=tag, modifies=('self',), heap_mod=NEW, props=P15,
                              requires=lambda S: [('confirmed conclusions are attributes', all_i(S, S.implications.n, lambda k: sub(S.concl(S.implications[k]), S.context._attributes.set), S.implications))],
                              alias={}, ensures=lambda S, cond=cond: [fits(S)] + relative(S, cond) + [('confirmed', S.self._implications.n == S.implications.n), ('confirmed', all_i(S, S.implications.n, lambda k: S.self._implications[k] == S.implications[k], S.implications))] +
                              [('context: ' + l, f) for l, f in same_context(S, S.self._cxt, S.context)]))


def copy_of(S, name):
    r, o = S.result, getattr(S.self, name)
    return [('as many', r.n == o.n), ('the same', all_i(S, o.n, lambda k: r[k] == o[k], o))]


for q, f in (('get_open_implications', '_cxt_implications'), ('get_base', '_implications')):
    contracts.append(Contract(DB + q, {'self': db(None)}, returns=LI, props=P15, ensures=lambda S, f=f: copy_of(S, f)))
for q, f in (('get_object_names', '_objects'), ('get_attribute_names', '_attributes')):
    contracts.append(Contract(DB + q, {'self': db(None)}, returns=('list', 'V'), shared=True, props=P15,
                              ensures=lambda S, f=f: [('as many', S.result.n == getattr(S.self._cxt, f).n), ('the names', all_i(S, S.result.n, lambda k: S.result[k] == getattr(S.self._cxt, f)[k], S.result))]))
contracts.append(Contract(DB + 'complete', {'self': db(None)}, props=P15))


# ---------------------------------------------------------------- exploration with an expert
AE = E1 + 'AttributeExploration.'
NAME, EXAMPLE = Const('expert_name', V), Const('expert_intent', ArraySort(V, BoolSort()))


def answer(it, a, k):
    return VTuple([VZ('V', NAME), it.new_cell(CSet('V', EXAMPLE))])


SHAPES['AttributeExploration'] = {'fields': {'db': db(TRUE), 'expert': Obj({'provide_counterexample': Fn('expert', lambda it: VSpec('expert', answer, 'expert'))})}, 'inv': lambda w: [], 'share': ('db', 'expert'), 'const': ('expert',)}
AEX = Inst('AttributeExploration')


class At:
    """the state of a part"""
    def __init__(self, S, path):
        self._S, self._path = S, path

    def __getattr__(self, n):
        if n == 'self':
            v = self._S.self
            for f in self._path:
                v = getattr(v, f)
            return v
        if n == 'old':
            return At(self._S.old, self._path)
        return getattr(self._S, n)


def of_db(f):
    return lambda S: f(At(S, ('db',)))


def all_confirmed(S, n):
    T = At(S, ('db',))
    a, o, b = T.self._implications, T.old.self._implications, S.old.imps
    return same_cxt(T) + [fits(T)] + relative(T, None) + [('as many more', a.n == o.n + n), ('those confirmed before', all_i(S, o.n, lambda i: a[i] == o[i], a)),
                                                          ('the new ones', S.forall([IntSort()], lambda i: Implies(within(i, n), a[o.n + i] == b[i]), lambda i: b[i])),
                                                          ('the new ones by position', S.forall([IntSort()], lambda i: Implies(And(o.n <= i, i < o.n + n), a[i] == b[i - o.n]), lambda i: a[i]))]


def start(S):
    T = At(S, ('db',))
    return [fits(T)] + relative(T, None)


def conclusions(S):
    at = S.self.db._cxt._attributes.set
    return [('the conclusions consist of attributes', all_i(S, S.imps.n, lambda i: sub(S.concl(S.imps[i]), at), S.imps))]


DBP = ('self.db',)
contracts.append(Contract(AE + 'confirm_implications', {'self': AEX, 'imps': LI}, props=P15, modifies=DBP, heap_mod=NEW, requires=lambda S: start(S) + conclusions(S),
                          loops={0: LoopC(lambda S: all_confirmed(S, S.k))}, ensures=lambda S: all_confirmed(S, S.imps.n)))


def one_confirmed(S):
    a, o = S.self._implications, S.old.self._implications
    return same_cxt(S) + [('one more', a.n == o.n + 1), ('the implication', a[o.n] == S.imp), ('the others', all_i(S, o.n, lambda i: a[i] == o[i], a))]


def imp_in(S, imp, X):
    """the set respects the implication"""
    return Or(Not(sub(S.prem(imp), X)), sub(S.concl(imp), X))


def example_added(S):
    T = At(S, ('db',))
    T.__dict__.update(name=NAME, intent=EXAMPLE)
    return added(T) + same_confirmed(T)


def finish(S):
    T = At(S, ('db',))
    return [fits(T)] + relative(T, None)


contracts += [
    Contract(AE + 'confirm_implication', {'self': AEX, 'imp': IMP}, props=P15, modifies=DBP, heap_mod=NEW, requires=lambda S: start(S) + [('the conclusion consists of attributes', sub(S.concl(S.imp), S.self.db._cxt._attributes.set))],
             ensures=lambda S: one_confirmed(At(S, ('db',))) + finish(S)),
    Contract(AE + 'reject_implication', {'self': AEX, 'imp': IMP}, props=P15, modifies=DBP, heap_mod=NEW, requires=lambda S: [fits(At(S, ('db',)))],
             raises=[('NotCounterexample', lambda S: imp_in(S, S.imp, EXAMPLE)), ('IllegalContextModification', lambda S: And(Not(imp_in(S, S.imp, EXAMPLE)), violates(At(S, ('db',)), EXAMPLE))),
                     ('NotUniqueObjectName', lambda S: And(Not(imp_in(S, S.imp, EXAMPLE)), Not(violates(At(S, ('db',)), EXAMPLE)), S.self.db._cxt._objects.set[NAME]))],
             ensures=lambda S: example_added(S) + finish(S)),
    Contract(AE + 'unconfirm_implication', {'self': AEX, 'imp': IMP}, props=P15, modifies=DBP, heap_mod=NEW, requires=lambda S: [fits(At(S, ('db',)))],
             raises=[('ValueError', lambda S: Not(S.exists([IntSort()], lambda j: And(within(j, S.self.db._implications.n), alike(S, S.self.db._implications[j], S.imp)))))],
             ensures=lambda S: same_cxt(At(S, ('db',))) + taken_out(At(S, ('db',))) + finish(S)),
    Contract(AE + 'get_open_implications', {'self': AEX}, returns=LI, props=P15, ensures=lambda S: copy_of(At(S, ('db',)), '_cxt_implications'))]


# ---------------------------------------------------------------- sessions
E2 = 'fca/algorithms/exploration2/exploration.py:'
EC, BS, SE = E2 + 'ExplorationContext.', E2 + 'Basis.', E2 + 'ExplorationSession.'
SHAPES['ExplorationContext'] = {'fields': {'_cxt': CX, '_basis': Inst('Basis', fields={'_cxt': None})}, 'inv': lambda w: [], 'share': ('_cxt', '_basis')}
SHAPES['Basis'] = {'fields': {'_cxt': Inst('ExplorationContext', fields={'_basis': None}), '_background_implications': LI}, 'inv': lambda w: [], 'share': ('_cxt',)}


def tie(it, v):
    """the context and the implications of a session refer to each other"""
    f = it.cells[v.i].fields
    c, b = f['_cxt'], f['_basis']
    it.cells[c.i] = CInst(it.cells[c.i].cls, dict(it.cells[c.i].fields, _basis=b))
    it.cells[b.i] = CInst(it.cells[b.i].cls, dict(it.cells[b.i].fields, _cxt=c))


SHAPES['ExplorationSession'] = {'fields': {'_cxt': Inst('ExplorationContext', fields={'_basis': None}), '_basis': Inst('Basis', fields={'_cxt': None})}, 'inv': lambda w: [], 'share': ('_cxt', '_basis'), 'link': tie}
ECX, BAS, SES = Inst('ExplorationContext'), Inst('Basis', fields={'_cxt': None}), Inst('ExplorationSession')


def accepted(S, b, X):
    """the set respects the accepted implications"""
    P, C = S.hp()
    return MOD(P, C, b._background_implications.arr, b._background_implications.n, X)


def list_is(S, a, o, lab='the implications'):
    return [(lab + ': number', a.n == o.n), (lab, all_i(S, o.n, lambda k: a[k] == o[k], a))]


def one_accepted(S, b, o):
    a, o = b._background_implications, o._background_implications
    return [('one more', a.n == o.n + 1), ('the implication', a[o.n] == S.imp), ('the others', all_i(S, o.n, lambda i: a[i] == o[i], a))]


def is_added(S, a, o, g, X):
    """the context with one more object; a name in use is made distinct"""
    n, m = o._objects.n, o._attributes.n
    return [('one more object', a._objects.n == n + 1), ('old objects', all_i(S, n, lambda i: Implies(o._objects[i] != g, a._objects[i] == o._objects[i]), a._objects, o._objects)), ('the new object', Implies(Not(o._objects.set[g]), a._objects[n] == g)),
            ('same attributes', And(a._attributes.n == m)), ('same attributes', all_i(S, m, lambda i: a._attributes[i] == o._attributes[i], a._attributes, o._attributes)),
            ('old cells', S.forall(INT2, lambda i, j: Implies(And(within(i, n), within(j, m)), a.np_table[i, j] == o.np_table[i, j]), lambda i, j: a.np_table[i, j])),
            ('the new row', S.forall([IntSort()], lambda j: Implies(within(j, m), a.np_table[n, j] == X[o._attributes[j]]), lambda j: o._attributes[j]))]


def candidates(S, c, conf, R):
    """the basis of the context relative to the accepted implications"""
    H, (hp, hc) = (lambda X: ACL(c, X)), S.hp()
    P, C = (lambda k: S.prem(R[k])), (lambda k: S.concl(R[k]))
    M = lambda X: MOD(hp, hc, conf.arr, conf.n, X)
    return [('premises are attributes', all_i(S, R.n, lambda k: sub(P(k), atts(c)), R)), ('conclusions are closures', all_i(S, R.n, lambda k: C(k) == H(P(k)), R)), ('premises are not closed', all_i(S, R.n, lambda k: P(k) != C(k), R)),
            ('premises respect the accepted', all_i(S, R.n, lambda k: M(P(k)), R)),
            ('none follows from the others', S.forall(INT2, lambda p, q: Implies(And(within(p, R.n), within(q, R.n), p != q), Or(Not(sub(P(q), P(p))), sub(C(q), P(p)))), lambda p, q: [[R[p], R[q]]])),
            ('with the accepted they derive the implications of the context', S.forall([SV], lambda X: Implies(And(sub(X, atts(c)), M(X), MOD(hp, hc, R.arr, R.n, X)), H(X) == X), lambda X: H(X)))]


def same_meaning(S, conf):
    (hp, hc), (op, oc) = S.hp(), S.old.hp()
    return [('the accepted mean the same', S.forall([SV], lambda X: MOD(hp, hc, conf.arr, conf.n, X) == MOD(op, oc, conf.arr, conf.n, X), lambda X: [MOD(hp, hc, conf.arr, conf.n, X), MOD(op, oc, conf.arr, conf.n, X)]))]


def accepted_fit(S, conf, at):
    return [('accepted conclusions are attributes', all_i(S, conf.n, lambda k: sub(S.concl(conf[k]), at), conf))]


contracts += [
    Contract(BS + '__init__', {'self': Inst('Basis', empty=True), 'cxt': Inst('ExplorationContext', fields={'_basis': None})}, modifies=('self',), props=P15, nocall=True,
             ensures=lambda S: [('nothing accepted', S.self._background_implications.n == 0)]),
    Contract(BS + 'respect_background_knowledge', {'self': BAS, 'intent': SETV}, returns='bool', props=P15, ensures=lambda S: [('respects all', S.result == accepted(S, S.self, S.intent))],
             loops={0: LoopC(lambda S: [('respected so far', MOD(*S.hp(), S.self._background_implications.arr, S.k, S.intent))])}),
    Contract(BS + 'get_background_implications', {'self': BAS}, returns=LI, props=P15, ensures=lambda S: list_is(S, S.result, S.self._background_implications)),
    Contract(BS + 'add_background_implication', {'self': BAS, 'imp': IMP}, modifies=('self._background_implications',), props=P15, ensures=lambda S: one_accepted(S, S.self, S.old.self)),
    Contract(BS + 'get_dg_basis', {'self': Inst('Basis')}, returns=LI, heap_mod=NEW, props=P15, requires=lambda S: accepted_fit(S, S.self._background_implications, S.self._cxt._cxt._attributes.set),
             exit_lemmas=lambda S: same_meaning(S, S.self._background_implications), ensures=lambda S: candidates(S, ctx(S.self._cxt._cxt), S.self._background_implications, S.result)),
    Contract(EC + 'add_object', {'self': ECX, 'obj': 'V', 'intent': SETV}, modifies=('self._cxt',), props=P15, raises=[('IllegalContextModification', lambda S: Not(accepted(S, S.self._basis, S.intent)))],
             ensures=lambda S: is_added(S, S.self._cxt, S.old.self._cxt, S.obj, S.intent))]
for q, f in (('get_objects', '_objects'), ('get_attributes', '_attributes')):
    contracts.append(Contract(EC + q, {'self': ECX}, returns=('list', 'V'), props=P15, ensures=lambda S, f=f: list_is(S, S.result, getattr(S.self._cxt, f), 'the names')))
for q, p, fn, dom in (('get_intent', 'obj', INTENT, objs), ('get_extent', 'attribute', EXTENT, atts)):
    contracts.append(Contract(EC + q, {'self': ECX, p: 'V'}, returns=SETV, props=P15, raises=[('KeyError', lambda S, p=p, dom=dom: Not(dom(ctx(S.self._cxt))[getattr(S, p)]))],
                              ensures=lambda S, p=p, fn=fn: [('what it has', S.result == fn(ctx(S.self._cxt), getattr(S, p)))]))


def own(S):
    return S.self._cxt._cxt


contracts += [
    Contract(SE + 'get_context', {'self': SES}, returns=Inst('ExplorationContext'), shared=True, props=P15, ensures=lambda S: [('the context of the session', BoolVal(S.result._cell.i == S.self._cxt._cell.i))]),
    Contract(SE + 'get_accepted_implications', {'self': SES}, returns=LI, props=P15, ensures=lambda S: list_is(S, S.result, S.self._basis._background_implications)),
    Contract(SE + 'get_candidates', {'self': SES}, returns=LI, heap_mod=NEW, props=P15, requires=lambda S: accepted_fit(S, S.self._basis._background_implications, own(S)._attributes.set),
             exit_lemmas=lambda S: same_meaning(S, S.self._basis._background_implications), ensures=lambda S: candidates(S, ctx(own(S)), S.self._basis._background_implications, S.result)),
    Contract(SE + 'accept_implication', {'self': SES, 'imp': IMP}, modifies=('self._basis._background_implications',), props=P15, ensures=lambda S: one_accepted(S, S.self._basis, S.old.self._basis)),
    Contract(SE + 'reject_implication', {'self': SES, 'imp': IMP, 'obj': 'V', 'intent': SETV}, modifies=('self._cxt._cxt',), props=P15,
             raises=[('FalseCounterexample', lambda S: imp_in(S, S.imp, S.intent)), ('IllegalContextModification', lambda S: And(Not(imp_in(S, S.imp, S.intent)), Not(accepted(S, S.self._basis, S.intent))))],
             ensures=lambda S: is_added(S, own(S), own(S.old), S.obj, S.intent)),
    Contract(SE + '__init__', {'self': Inst('ExplorationSession', empty=True), 'cxt': Inst('ExplorationContext', fields={'_basis': None})}, modifies=('self',), rebinds=('cxt',), props=P15, nocall=True,
             ensures=lambda S: [('nothing accepted', S.self._basis._background_implications.n == 0)] + [('context: ' + l, f) for l, f in same_context(S, S.self._cxt._cxt, S.old.cxt._cxt)] +
             [('the parts refer to each other', BoolVal(S.self._cxt._basis._cell.i == S.self._basis._cell.i and S.self._basis._cxt._cell.i == S.self._cxt._cell.i))])]


# ---------------------------------------------------------------- basic exploration
E0 = 'fca/algorithms/exploration.py:BasicExploration.'
XC = 'fca/context.py:Context.'
SHAPES['BasicExploration'] = {'fields': {'context': CX, 'attribute_implications': LI, 'object_implications': LI, 'confirmed_attribute_implications': LI, 'confirmed_object_implications': LI}, 'inv': lambda w: []}
BE = Inst('BasicExploration')
SV = ArraySort(V, BoolSort())
# the canonical basis of a context and that of its transposed context: how many, premises, conclusions
CB = {side: (Function(side + 'BasisN', Ctx, IntSort()), Function(side + 'BasisP', Ctx, IntSort(), SV), Function(side + 'BasisC', Ctx, IntSort(), SV)) for side in ('Canonical', 'ObjectCanonical')}
TURN = Function('Transposed', Ctx, Ctx, BoolSort())                           # the second is the first, transposed


def _axioms():
    c, t = Consts('c t', Ctx)
    k = Int('k')
    A, O = CB['Canonical'], CB['ObjectCanonical']
    w = [Function('turnw%d' % i, Ctx, Ctx, IntSort())(c, t) for i in range(4)]
    L.axiom('Transposed', 'transposed: witness', ForAll([c, t], Or(TURN(c, t), cn(t) != cm(c), cm(t) != cn(c), And(0 <= w[0], w[0] < cm(c), co(t)[w[0]] != ca(c)[w[0]]), And(0 <= w[1], w[1] < cn(c), ca(t)[w[1]] != co(c)[w[1]]),
            And(0 <= w[2], w[2] < cn(t), 0 <= w[3], w[3] < cm(t), cT(t)[w[2]][w[3]] != cT(c)[w[3]][w[2]])), patterns=[TURN(c, t)]))
    L.axiom('Transposed', 'canonical basis of the transposed context: size', ForAll([c, t], Implies(TURN(c, t), A[0](t) == O[0](c)), patterns=[TURN(c, t)]))
    L.axiom('Transposed', 'canonical basis of the transposed context', ForAll([c, t, k], Implies(TURN(c, t), And(A[1](t, k) == O[1](c, k), A[2](t, k) == O[2](c, k))), patterns=[MultiPattern(TURN(c, t), A[1](t, k)), MultiPattern(TURN(c, t), O[1](c, k))]))


_axioms()


def is_canonical(S, r, c, side='Canonical'):
    N, P, C = CB[side]
    return [('size', r.n == N(c)), ('implications', S.forall([IntSort()], lambda k: Implies(within(k, r.n), And(S.prem(r[k]) == P(c, k), S.concl(r[k]) == C(c, k))), lambda k: [r[k], P(c, k)])),
            ('separate', S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < j, j < r.n), r[i] != r[j]), lambda i, j: [[r[i], r[j]]]))]


def among(S, lst, r):
    """an equal implication is in the list"""
    return S.exists([IntSort()], lambda q: And(within(q, lst.n), alike(S, lst[q], r)))


def filtered(target, basis):
    def inv(S):
        r, new, b = getattr(S.self, target), S.new_implications, S.basis
        return [('from the basis', all_i(S, r.n, lambda i: S.exists([IntSort()], lambda p: And(within(p, S.k), r[i] == new[p])), r)),
                ('not confirmed', all_i(S, r.n, lambda i: Not(among(S, b, r[i])), r)),
                ('all of those', S.forall([IntSort()], lambda p: Implies(And(within(p, S.k), Not(among(S, b, new[p]))), r.set[new[p]]), lambda p: new[p])),
                ('each once', S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < j, j < r.n), r[i] != r[j]), lambda i, j: [[r[i], r[j]]]))]
    return inv


def open_are(S, r, conf, c, side):
    """the canonical basis without the confirmed implications"""
    N, P, C = CB[side]
    red = lambda k: L.diff(C(c, k), P(c, k))
    known = lambda k: S.exists([IntSort()], lambda q: And(within(q, conf.n), S.prem(conf[q]) == P(c, k), L.diff(S.concl(conf[q]), S.prem(conf[q])) == red(k)))
    return [(side + ': from the basis', all_i(S, r.n, lambda i: S.exists([IntSort()], lambda k: And(within(k, N(c)), S.prem(r[i]) == P(c, k), S.concl(r[i]) == C(c, k))), r)),
            (side + ': not confirmed', all_i(S, r.n, lambda i: Not(among(S, conf, r[i])), r)),
            (side + ': all of those', S.forall([IntSort()], lambda k: Implies(And(within(k, N(c)), Not(known(k))), S.exists([IntSort()], lambda i: And(within(i, r.n), S.prem(r[i]) == P(c, k), S.concl(r[i]) == C(c, k)))), lambda k: P(c, k))),
            (side + ': each once', S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < j, j < r.n), r[i] != r[j]), lambda i, j: [[r[i], r[j]]]))]


def recomputed(S):
    s = S.self
    c = ctx(s.context)
    return open_are(S, s.attribute_implications, s.confirmed_attribute_implications, c, 'Canonical') + open_are(S, s.object_implications, s.confirmed_object_implications, c, 'ObjectCanonical')


def conf_same(S):
    return [x for f in ('confirmed_attribute_implications', 'confirmed_object_implications') for x in list_is(S, getattr(S.self, f), getattr(S.old.self, f), f)]


contracts += [
    Contract(XC + 'get_attribute_canonical_basis', {'self': CX, 'get_basis': function_named('fca/algorithms/aibasis.py', 'compute_canonical_basis')}, returns=LI, heap_mod=NEW, props=P15, trusted='a canonical basis is a list of separate implications that depends only on the names and crosses of the context (what they are is checked on generated contexts, C09)',
             ensures=lambda S: is_canonical(S, S.result, ctx(S.self)) + [('new', all_i(S, S.result.n, lambda k: S.isnew(S.result[k]), S.result))]),
    Contract(E0 + 'recompute_basis', {'self': BE}, modifies=('self.attribute_implications', 'self.object_implications'), rebinds=('self:attribute_implications,object_implications',), heap_mod=NEW, props=P15, ensures=lambda S: recomputed(S) + conf_same(S),
             loops={0: LoopC(filtered('attribute_implications', 'confirmed_attribute_implications'), types={'self.attribute_implications': LI}),
                    1: LoopC(filtered('object_implications', 'confirmed_object_implications'), types={'self.object_implications': LI}, at_entry=lambda S: [('the transposed context', TURN(ctx(S.self.context), ctx(S.transposed_cxt)))])})]
for q, x, conf in (('check_extent_for_conflicts', 'extent', 'confirmed_object_implications'), ('check_intent_for_conflicts', 'intent', 'confirmed_attribute_implications')):
    m = lambda S, x, conf, n=None: MOD(*S.hp(), getattr(S.self, conf).arr, getattr(S.self, conf).n if n is None else n, getattr(S, x))
    contracts.append(Contract(E0 + q, {'self': BE, x: SETV}, returns='bool', props=P15, ensures=lambda S, x=x, conf=conf, m=m: [('respects the confirmed', S.result == m(S, x, conf))],
                              loops={0: LoopC(lambda S, x=x, conf=conf, m=m: [('respected so far', m(S, x, conf, S.k))])}))


def fields_same(S, *fs):
    return [x for f in fs for x in list_is(S, getattr(S.self, f), getattr(S.old.self, f), f)]


def context_kept(S):
    return [('context: ' + l, f) for l, f in same_context(S, S.self.context, S.old.self.context)]


def moved(S, open_, conf):
    a, o, c, d, k = getattr(S.self, open_), getattr(S.old.self, open_), getattr(S.self, conf), getattr(S.old.self, conf), S.imp_index
    return [('one open less', a.n == o.n - 1), ('the other open ones', all_i(S, a.n, lambda i: a[i] == o[If(i < k, i, i + 1)], a)), ('one confirmed more', c.n == d.n + 1), ('the confirmed one', c[d.n] == o[k]), ('those confirmed before', all_i(S, d.n, lambda i: c[i] == d[i], c))]


def concl_of(S, r):
    return L.diff(S.concl(r), S.prem(r))


def at_index(S, open_):
    return [('an open implication', within(S.imp_index, getattr(S.self, open_).n))]


def meets(S, conf, X):
    c = getattr(S.self, conf)
    return MOD(*S.hp(), c.arr, c.n, X)


SIDES = {'attr': ('attribute', 'object', 'intent', 'attribute_implications', 'confirmed_attribute_implications', 'confirmed_object_implications'), 'obj': ('object', 'attribute', 'extent', 'object_implications', 'confirmed_object_implications', 'confirmed_attribute_implications')}


def new_line(S, x, name='name'):
    """the context with one more object, or one more attribute; a name in use is made distinct"""
    a, o, g, X = S.self.context, S.old.self.context, S.name, getattr(S, x)
    if x == 'intent':
        return is_added(S, a, o, g, X)
    n, m = o._objects.n, o._attributes.n
    return [('one more attribute', a._attributes.n == m + 1), ('old attributes', all_i(S, m, lambda i: Implies(o._attributes[i] != g, a._attributes[i] == o._attributes[i]), a._attributes, o._attributes)), ('the new attribute', Implies(Not(o._attributes.set[g]), a._attributes[m] == g)),
            ('same objects', And(a._objects.n == n)), ('same objects', all_i(S, n, lambda i: a._objects[i] == o._objects[i], a._objects, o._objects)),
            ('old cells', S.forall(INT2, lambda i, j: Implies(And(within(i, n), within(j, m)), a.np_table[i, j] == o.np_table[i, j]), lambda i, j: a.np_table[i, j])),
            ('the new column', S.forall([IntSort()], lambda i: Implies(within(i, n), a.np_table[i, m] == X[o._objects[i]]), lambda i: o._objects[i]))]


def known_same(S):
    return fields_same(S, 'confirmed_attribute_implications', 'confirmed_object_implications')


def line_edited(S, x):
    """the row or the column is as given and all else stays"""
    a, o, X = S.self.context, S.old.self.context, getattr(S, 'new_' + x)
    t, u = a.np_table, o.np_table
    k = (o.object_indices if x == 'intent' else o.attribute_indices)[S.name]
    return list_is(S, a._objects, o._objects, 'objects') + list_is(S, a._attributes, o._attributes, 'attributes') + [
        ('cells', S.forall(INT2, lambda i, j: Implies(And(within(i, o._objects.n), within(j, o._attributes.n)), t[i, j] == (If(i == k, X[o._attributes[j]], u[i, j]) if x == 'intent' else If(j == k, X[o._objects[i]], u[i, j]))), lambda i, j: t[i, j]))]


def crossing(S, x):
    """some line of the other kind would violate what is confirmed"""
    c, X, g = ctx(S.self.context), getattr(S, 'new_' + x), S.name
    lst = S.self.context._attributes if x == 'intent' else S.self.context._objects
    row = (lambda h: EXTENT(c, h)) if x == 'intent' else (lambda h: INTENT(c, h))
    conf = 'confirmed_object_implications' if x == 'intent' else 'confirmed_attribute_implications'
    one = L.add(L.empty(V), g)
    new = lambda h: L.union(L.diff(row(h), one), If(X[h], one, L.empty(V)))
    return S.exists([IntSort()], lambda i: And(within(i, lst.n), Not(meets(S, conf, new(lst[i])))))


for side, (kind, other, x, open_, conf, oconf) in SIDES.items():
    v = dict(open_=open_, conf=conf, oconf=oconf, x=x, kind=kind, other=other)
    contracts.append(Contract(E0 + 'confirm_%s_implication' % kind, {'self': BE, 'imp_index': 'int'}, props=P15, modifies=('self.' + open_, 'self.' + conf), requires=lambda S, v=v: at_index(S, v['open_']),
                              ensures=lambda S, v=v: moved(S, v['open_'], v['conf'])))
    bad = lambda S, v: Not(sub(S.prem(getattr(S.self, v['open_'])[S.imp_index]), getattr(S, v['x'])))
    has = lambda S, v: sub(concl_of(S, getattr(S.self, v['open_'])[S.imp_index]), getattr(S, v['x']))
    contracts.append(Contract(E0 + 'counter_example_for_%s_implication' % side, {'self': BE, 'name': 'V', x: SETV, 'imp_index': 'int'}, props=P15, modifies=('self.context', 'self.attribute_implications', 'self.object_implications'), rebinds=('self:attribute_implications,object_implications',), heap_mod=NEW,
                              requires=lambda S, v=v: at_index(S, v['open_']),
                              raises=[('NotCounterExamplePremise', lambda S, v=v: bad(S, v)), ('NotCounterExampleConclusion', lambda S, v=v: And(Not(bad(S, v)), has(S, v))),
                                      ('BasisConflict', lambda S, v=v: And(Not(bad(S, v)), Not(has(S, v)), Not(meets(S, v['conf'], getattr(S, v['x'])))))],
                              ensures=lambda S, v=v: new_line(S, v['x']) + recomputed(S) + known_same(S)))
    contracts.append(Contract(E0 + 'add_' + other, {'self': BE, x: SETV, 'name': 'V'}, props=P15, modifies=('self.context', 'self.attribute_implications', 'self.object_implications'), rebinds=('self:attribute_implications,object_implications',), heap_mod=NEW,
                              raises=[('BasisConflict', lambda S, v=v: Not(meets(S, v['conf'], getattr(S, v['x']))))], ensures=lambda S, v=v: new_line(S, v['x']) + recomputed(S) + known_same(S)))
    clash = lambda S, v: Or(Not(meets(S, v['conf'], getattr(S, 'new_' + v['x']))), crossing(S, v['x']))
    names = lambda S, v: (S.self.context._objects.set, S.self.context._attributes.set) if v['x'] == 'intent' else (S.self.context._attributes.set, S.self.context._objects.set)
    contracts.append(Contract(E0 + 'edit_' + other, linked=True, params={'self': BE, 'new_' + x: SETV, 'name': 'V'}, props=P15, modifies=('self.context', 'self.attribute_implications', 'self.object_implications'), rebinds=('self:attribute_implications,object_implications',), heap_mod=NEW,
                              raises=[('BasisConflict', lambda S, v=v: clash(S, v)), ('KeyError', lambda S, v=v: And(Not(clash(S, v)), Or(Not(names(S, v)[0][S.name]), Not(sub(getattr(S, 'new_' + v['x']), names(S, v)[1])))))],
                              ensures=lambda S, v=v: line_edited(S, v['x']) + recomputed(S) + known_same(S)))


def begun(S):
    s = S.self
    return [('canonical basis ' + l, f) for l, f in is_canonical(S, s.attribute_implications, ctx(s.context))] + [('object canonical basis ' + l, f) for l, f in is_canonical(S, s.object_implications, ctx(s.context), 'ObjectCanonical')] + \
        [('nothing confirmed', And(s.confirmed_attribute_implications.n == 0, s.confirmed_object_implications.n == 0))]


contracts.append(Contract(E0 + '_init_implications', {'self': Inst('BasicExploration', fields={f: None for f in ('attribute_implications', 'object_implications', 'confirmed_attribute_implications', 'confirmed_object_implications')})}, props=P15, heap_mod=NEW, rebinds=('self',),
                          exit_lemmas=lambda S: [('the transposed context', TURN(ctx(S.self.context), ctx(S.local('transposed_cxt'))))], ensures=begun, nocall=True))
contracts.append(Contract(E0 + '__init__', {'self': Inst('BasicExploration', empty=True), 'initial_cxt': CX}, props=P15, heap_mod=NEW, modifies=('self',),
                          exit_lemmas=lambda S: [('the transposed context', TURN(ctx(S.self.context), ctx(S.local('transposed_cxt', '_init_implications'))))],
                          ensures=lambda S: begun(S) + [('context: ' + l, f) for l, f in same_context(S, S.self.context, S.initial_cxt)]))


# ---------------------------------------------------------------- what exploration is for
def finished(S):
    c, conf = ctx(S.self._cxt), S.self._implications
    return [fits(S)] + relative(S, None) + [('nothing is open', S.self._cxt_implications.n == 0), ('the confirmed hold in the context', all_i(S, conf.n, lambda k: And(sub(S.prem(conf[k]), atts(c)), sub(S.concl(conf[k]), ACL(c, S.prem(conf[k])))), conf))]


def derives(S, X):
    conf = S.self._implications
    return CL(*S.hp(), conf.arr, conf.n, X)


def steps(S):
    c = ctx(S.self._cxt)
    return [('the set of all attributes respects them', confirmed(S, atts(c))), ('closures respect them', S.forall([SV], lambda X: Implies(sub(X, atts(c)), confirmed(S, ACL(c, X))), lambda X: ACL(c, X))),
            ('what is derived respects them', S.forall([SV], lambda X: Implies(sub(X, atts(c)), And(sub(X, derives(S, X)), confirmed(S, derives(S, X)), sub(derives(S, X), atts(c)))), lambda X: derives(S, X))),
            ('what is derived is closed', S.forall([SV], lambda X: Implies(sub(X, atts(c)), ACL(c, derives(S, X)) == derives(S, X)), lambda X: derives(S, X))),
            ('no less', S.forall([SV], lambda X: Implies(sub(X, atts(c)), sub(ACL(c, X), ACL(c, derives(S, X)))), lambda X: [derives(S, X), ACL(c, X)])),
            ('no more', S.forall([SV], lambda X: Implies(sub(X, atts(c)), sub(derives(S, X), ACL(c, X))), lambda X: [derives(S, X), ACL(c, X)]))]


contracts.append(Contract(DB + 'lemma_explored', {'self': db(TRUE)}, source='def lemma(self):\n    pass\n', props=P15, nocall=True, requires=finished, exit_lemmas=steps,
                          ensures=lambda S: [('the confirmed implications derive exactly those of the context', S.forall([SV], lambda X: Implies(sub(X, atts(ctx(S.self._cxt))), derives(S, X) == ACL(ctx(S.self._cxt), X)), lambda X: derives(S, X)))]))

for c in contracts:
    if c.qual == DB + 'edit_attribute':
        c.fresh_rows = True          # not called while a basis is computed: the row it changes is a new set
