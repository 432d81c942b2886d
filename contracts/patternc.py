"""Pattern exploration (C18)."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem, card
from engine.contract import Contract, Lemma, LoopC, Fn, Lit, Inst, Either, Opaque, Opt
from engine.core import *
from engine.views import SHAPES
from .ctxdef import *
from .ctxnew import within, all_i, INT2, cells
from .ctxalg import same_list, table_is

P18 = ('C18',)
CX = Inst('Context')
SETV = ('set', 'V')
SHAPES['BasicPatternExploration'] = {'fields': {'positive_cxt': CX, 'negative_cxt': CX, 'expert': Lit(None), 'confirmed_patterns': ('list', SETV), 'pattern_generator': Lit(None)}, 'inv': lambda w: []}
Q = 'fca/algorithms/patterns.py:BasicPatternExploration.'
PE = Inst('BasicPatternExploration')
NONE = L.empty(V)


def pos(S):
    return ctx(S.self.positive_cxt)


def neg(S):
    return ctx(S.self.negative_cxt)


def same_context(S, a, o):
    t, u = a.np_table, o.np_table
    return same_list(S, a._objects, o._objects, 'objects') + same_list(S, a._attributes, o._attributes, 'attributes') + [table_is(S, t, u.n, u.m, lambda i, j: u[i, j])]


def explained(S, X, n=None):
    """some confirmed pattern is within the set"""
    c = S.self.confirmed_patterns
    return S.exists([IntSort()], lambda i: And(within(i, c.n if n is None else n), sub(c[i], X)))


def bad_names(S, X, c):
    return Not(sub(X, atts(c)))


contracts = []
for v, ty in (('set', SETV), ('list', ('list', 'V'))):
    X = lambda S, n='pattern': getattr(S, n).set if hasattr(getattr(S, n), 'set') else getattr(S, n)
    contracts.append(Contract(Q + 'confirm_pattern', {'self': PE, 'pattern': ty}, returns=PE, alias={'self': lambda S: True}, variant=v, props=P18, modifies=('self',),
                              requires=lambda S: [('same attributes', S.self.positive_cxt._attributes.set == S.self.negative_cxt._attributes.set)],
                              raises=[('KeyError', lambda S, X=X: bad_names(S, X(S), pos(S))),
                                      ('NotAPositivePattern', lambda S, X=X: And(sub(X(S), atts(pos(S))), APRIME(pos(S), X(S)) == NONE)),
                                      ('NotANegativePattern', lambda S, X=X: And(sub(X(S), atts(pos(S))), APRIME(pos(S), X(S)) != NONE, APRIME(neg(S), X(S)) != NONE))],
                              ensures=lambda S, X=X: [('one more', S.self.confirmed_patterns.n == S.old.self.confirmed_patterns.n + 1),
                                                      ('the pattern', S.self.confirmed_patterns[S.old.self.confirmed_patterns.n] == X(S)),
                                                      ('the others', all_i(S, S.old.self.confirmed_patterns.n, lambda i: S.self.confirmed_patterns[i] == S.old.self.confirmed_patterns[i], S.self.confirmed_patterns))] +
                              [('positive ' + l, f) for l, f in same_context(S, S.self.positive_cxt, S.old.self.positive_cxt)] + [('negative ' + l, f) for l, f in same_context(S, S.self.negative_cxt, S.old.self.negative_cxt)]))
    contracts.append(Contract(Q + 'is_explained', {'self': PE, 'intent': ty}, returns='bool', variant=v, props=P18, ensures=lambda S, X=X: [('a pattern within', S.result == explained(S, X(S, 'intent')))]))


def unexplained(S, lst, n):
    """exactly the unexplained ones of the first n objects, in their order"""
    o, c = S.self.positive_cxt._objects, pos(S)
    name, row = lambda i: L.proj(lst[i], 0), lambda i: L.proj(lst[i], 1)
    at = lambda i: S.self.positive_cxt.object_indices[name(i)]
    return [('objects', all_i(S, lst.n, lambda i: And(within(at(i), n), o[at(i)] == name(i), row(i) == INTENT(c, name(i)), Not(explained(S, row(i)))), lst)),
            ('in their order', S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < j, j < lst.n), at(i) < at(j)), lambda i, j: [[lst[i], lst[j]]])),
            ('all of them', S.forall([IntSort()], lambda k: Implies(And(within(k, n), Not(explained(S, INTENT(c, o[k])))), S.exists([IntSort()], lambda i: And(within(i, lst.n), name(i) == o[k]))), lambda k: o[k]))]


contracts.append(Contract(Q + 'iterate_unexplained_examples', {'self': PE}, returns=('list', ('tuple', 'V', SETV)), props=P18,
                          loops={0: LoopC(lambda S: unexplained(S, S.yielded, S.k), types={'yielded': ('tuple', 'V', SETV)})}, ensures=lambda S: unexplained(S, S.result, S.self.positive_cxt._objects.n)))


def examples(S):
    c, X, r = pos(S), S.pattern, S.result
    name, row = lambda i: L.proj(r[i], 0), lambda i: L.proj(r[i], 1)
    return [('objects having it', all_i(S, r.n, lambda i: And(APRIME(c, X)[name(i)], row(i) == INTENT(c, name(i))), r)),
            ('each once', S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < j, j < r.n), name(i) != name(j)), lambda i, j: [[r[i], r[j]]])),
            ('all of them', S.forall([V], lambda g: Implies(APRIME(c, X)[g], S.exists([IntSort()], lambda i: And(within(i, r.n), name(i) == g))), lambda g: APRIME(c, X)[g]))]


contracts.append(Contract(Q + 'iterate_examples', {'self': PE, 'pattern': SETV}, returns=('list', ('tuple', 'V', SETV)), props=P18, raises=[('KeyError', lambda S: bad_names(S, S.pattern, pos(S)))], ensures=examples))


def added(S, new, old, g, X):
    n, m = old._objects.n, old._attributes.n
    return same_list(S, new._attributes, old._attributes, 'attributes') + [
        ('one more object', new._objects.n == n + 1), ('old objects', all_i(S, n, lambda i: Implies(old._objects[i] != g, new._objects[i] == old._objects[i]), new._objects, old._objects)), ('the new object', Implies(Not(old._objects.set[g]), new._objects[n] == g)),
        ('old cells', S.forall(INT2, lambda i, j: Implies(And(within(i, n), within(j, m)), new.np_table[i, j] == old.np_table[i, j]), lambda i, j: new.np_table[i, j])),
        ('the new row', S.forall([IntSort()], lambda j: Implies(within(j, m), new.np_table[n, j] == X[old._attributes[j]]), lambda j: old._attributes[j]))]


def kept_patterns(S):
    a, o = S.self.confirmed_patterns, S.old.self.confirmed_patterns
    return [('confirmed patterns', And(a.n == o.n, all_i(S, o.n, lambda i: a[i] == o[i], a)))]


contracts += [
    Contract(Q + 'add_positive_example', {'self': PE, 'obj_name': 'V', 'obj_intent': SETV}, returns=PE, alias={'self': lambda S: True}, modifies=('self',), props=P18,
             ensures=lambda S: added(S, S.self.positive_cxt, S.old.self.positive_cxt, S.obj_name, S.obj_intent) + [('negative ' + l, f) for l, f in same_context(S, S.self.negative_cxt, S.old.self.negative_cxt)] + kept_patterns(S)),
    Contract(Q + 'add_negative_example', {'self': PE, 'obj_name': 'V', 'obj_intent': SETV, 'pattern': SETV}, variant='of a pattern', returns=PE, alias={'self': lambda S: True}, modifies=('self',), props=P18,
             raises=[('NotNegativeExample', lambda S: Not(sub(S.pattern, S.obj_intent)))],
             ensures=lambda S: added(S, S.self.negative_cxt, S.old.self.negative_cxt, S.obj_name, S.obj_intent) + [('positive ' + l, f) for l, f in same_context(S, S.self.positive_cxt, S.old.self.positive_cxt)] + kept_patterns(S)),
    Contract(Q + 'add_negative_example', {'self': PE, 'obj_name': 'V', 'obj_intent': SETV, 'pattern': Lit(None)}, returns=PE, alias={'self': lambda S: True}, modifies=('self',), props=P18,
             ensures=lambda S: added(S, S.self.negative_cxt, S.old.self.negative_cxt, S.obj_name, S.obj_intent) + [('positive ' + l, f) for l, f in same_context(S, S.self.positive_cxt, S.old.self.positive_cxt)] + kept_patterns(S)),
    Contract(Q + '__init__', {'self': Inst('BasicPatternExploration', empty=True), 'init_positive_cxt': CX, 'init_negative_cxt': CX, 'expert': Lit(None), 'pattern_generator': Lit(None)}, modifies=('self',), props=P18,
             raises=[('AttributeMismatch', lambda S: S.init_positive_cxt._attributes.set != S.init_negative_cxt._attributes.set)],
             ensures=lambda S: [('nothing confirmed', S.self.confirmed_patterns.n == 0)] + [('positive ' + l, f) for l, f in same_context(S, S.self.positive_cxt, S.init_positive_cxt)] +
             [('negative ' + l, f) for l, f in same_context(S, S.self.negative_cxt, S.init_negative_cxt)])]

# ---- listings of patterns
from .concepts import CON, ckey
LC = ('list', CON)
XC = 'fca/context.py:Context.'


def positive_ones(S, n, out, K, neg_):
    """exactly those of the first n concepts no negative object has, in their order"""
    free = lambda r: APRIME(neg_, S.int(r)) == NONE
    return [('only patterns', all_i(S, out.n, lambda i: free(out[i]), out)),
            ('from the concepts', all_i(S, out.n, lambda i: S.exists([IntSort()], lambda j: And(within(j, n), out[i] == K[j])), out)),
            ('all of them', S.forall([IntSort()], lambda j: Implies(And(within(j, n), free(K[j])), S.exists([IntSort()], lambda i: And(within(i, out.n), out[i] == K[j]))), lambda j: K[j]))]


def of_reduced(S):
    cut, red, cl = S.call(XC + 'reduce_attributes'), S.call(XC + 'reduce_objects'), S.call(XC + 'get_concepts')
    return [('the positive context ' + l, f) for l, f in same_context(S, cut.self, S.positive_cxt)] + [('without reducible attributes ' + l, f) for l, f in same_context(S, red.self, cut.result)] + \
        [('without reducible objects ' + l, f) for l, f in same_context(S, cl.self, red.result)] + positive_ones(S, cl.result.n, S.result, cl.result, ctx(S.negative_cxt))


contracts.append(Contract('fca/algorithms/patterns.py:iterate_positive_concepts', {'positive_cxt': CX, 'negative_cxt': CX}, returns=LC, props=P18, nocall=True, heap_mod=('new', ('Concept', 'extent'), ('Concept', 'intent')),
                          requires=lambda S: [('same attributes', S.positive_cxt._attributes.set == S.negative_cxt._attributes.set)],
                          loops={0: LoopC(lambda S: positive_ones(S, S.k, S.yielded, S.call(XC + 'get_concepts').result, ctx(S.negative_cxt)), types={'yielded': CON})}, ensures=of_reduced))


# ---- patterns yet to confirm, with the number of unexplained examples having each
GN, GA = Const('Patterns!n', IntSort()), Const('Patterns!list', ArraySort(IntSort(), IntSort()))
generator = Fn('patterns', lambda it: VSpec('patterns', given_patterns))
NAMES = ArraySort(V, BoolSort())
HAVING = Function('UnexplainedWith', NAMES, NAMES)
PEG = Inst('BasicPatternExploration', fields={'pattern_generator': generator})


def given_patterns(it, args, kw):
    it.assume(GN >= 0)
    return it.new_cell(CList(CON, GN, GA))


def counted(S):
    """the unexplained examples having a pattern"""
    c = pos(S)
    return [('examples with a pattern', S.forall([NAMES, V], lambda X, g: HAVING(X)[g] == And(objs(c)[g], sub(X, INTENT(c, g)), Not(explained(S, INTENT(c, g)))), lambda X, g: HAVING(X)[g]))]


def unconfirmed(S, out, n):
    pat, num, of = lambda i: L.proj(out[i], 0), lambda i: L.proj(out[i], 1), lambda j: S.int(GA[j])
    return [('patterns', all_i(S, out.n, lambda i: And(Not(explained(S, pat(i))), num(i) == card(HAVING(pat(i))), S.exists([IntSort()], lambda j: And(within(j, n), pat(i) == of(j)))), out)),
            ('all of them', S.forall([IntSort()], lambda j: Implies(And(within(j, n), Not(explained(S, of(j)))), S.exists([IntSort()], lambda i: And(within(i, out.n), pat(i) == of(j)))), lambda j: GA[j]))]


def counting(S):
    """the examples picked for a pattern are those counted, each once"""
    if S._it.last_comp is None:
        return []
    D, H, un = S.comp, HAVING(S.int(GA[S.k])), S.call(Q + 'iterate_unexplained_examples').result
    if D.arr.sort() != ArraySort(IntSort(), V):
        return []
    name = lambda i: L.proj(un[i], 0)
    return [('distinct names', S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < j, j < un.n), name(i) != name(j)), lambda i, j: [[un[i], un[j]]])),
            ('picked ones have it', all_i(S, D.n, lambda i: H[D[i]], D)),
            ('picked once', L.dist(D.arr, I(0), D.n)),
            ('all picked', S.forall([V], lambda g: Implies(H[g], D.set[g]), lambda g: H[g])),
            ('the ones counted', D.set == H)]


contracts.append(Contract(Q + 'get_unconfirmed_patterns_with_examples', {'self': PEG}, returns=('list', ('tuple', SETV, 'int')), props=P18, nocall=True, requires=counted,
                          loops={0: LoopC(lambda S: unconfirmed(S, S.out, S.k), types={'out': ('list', ('tuple', SETV, 'int'))}, at_end=counting)},
                          ensures=lambda S: unconfirmed(S, S.result, GN) + [('most examples first', S.forall(INT2, lambda i, j: Implies(And(0 <= i, i < j, j < S.result.n), L.proj(S.result[i], 1) >= L.proj(S.result[j], 1)), lambda i, j: [[S.result[i], S.result[j]]]))]))
