"""The accessors of a context keep their answers while a basis is computed (C20)."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem, card
from engine.contract import Contract, LoopC, Fn, Inst, Opaque
from engine.core import *
from engine.views import view
from .ctxdef import *
from .ctxnew import within, all_i
from .patternc import same_context

P20 = ('C20',)
M = 'fca/context.py:'
SETV = ('set', 'V')
ANS = Const('AnswerOfAccessor', ArraySort(IntSort(), SV))
GOOD = Const('AccessorAnswers', ArraySort(IntSort(), BoolSort()))


def accessor(it):
    """a function of a position, giving a new set each time; it raises for some positions"""
    def call(it, a, k):
        i = it.index_term(a[0])
        it.maybe_raise(Not(GOOD[i]), 'IndexError')
        return it.new_cell(CSet('V', ANS[i]))
    return VSpec('accessor', call, 'accessor')


KT = ('tuple', 'int')
KEY1 = L.mk_tuple([Int('i')]).sort()


def table(S):
    g = S.raw('g')
    return S._it.content(g.attrs['cache'])


def remembered(S):
    """everything remembered is what the function answers"""
    c = table(S)
    return [('no exception so far', all_i(S, S.k, lambda i: GOOD[S.xs[i]], S.xs)), ('what is remembered', S.forall([KEY1], lambda k: Implies(c.dom[k], And(GOOD[L.proj(k, 0)], c.val[k] == ANS[L.proj(k, 0)])), lambda k: c.val[k])),
            ('answers', And(S.out.n == S.k, all_i(S, S.k, lambda i: S.out[i] == ANS[S.xs[i]], S.out)))]


contracts = [
    Contract(M + 'lemma_memo', {'f': Fn('accessor', accessor), 'xs': ('list', 'int')}, source='def lemma(f, xs):\n    g = memo(f)\n    out = []\n    for x in xs:\n        out.append(g(x))\n    return out\n',
             returns=('list', SETV), nocall=True, props=P20, raises=[('IndexError', lambda S: S.exists([IntSort()], lambda i: And(within(i, S.xs.n), Not(GOOD[S.xs[i]]))))],
             loops={0: LoopC(remembered, types={'out': ('list', SETV), 'g.cache': ('dict', KT, SETV)})},
             ensures=lambda S: [('the same answers, whatever was asked before', And(S.result.n == S.xs.n, all_i(S, S.xs.n, lambda i: S.result[i] == ANS[S.xs[i]], S.result)))]),
]


# ---- the accessors while a basis is computed, and afterwards
FAILS = Const('ComputationRaises', BoolSort())
FOUND = Const('ComputedValue', V)
NAMES = ('get_object_intent_by_index', 'get_attribute_extent_by_index')


def restored_accessors(it, cxt):
    """the accessors of the object are the methods of the class"""
    for nm in NAMES:
        x = it.getattr(cxt, nm)
        own = it.class_attr(it.content(cxt).cls, nm)
        if not (isinstance(x, VBound) and isinstance(x.self_, VCell) and x.self_.i == cxt.i and getattr(x.fn, 'qual', None) == own.qual):
            return False
    return True


def computation(it):
    """a function of a context that asks for rows and columns, again and again, and does not change it; it may raise"""
    def call(it, a, k):
        c = ctx(view(it, a[0]))
        n = {f: getattr(view(it, a[0]), f).n for f in ('_objects', '_attributes')}
        i, j, p, q = [it.fresh(x, IntSort()) for x in 'ijpq']
        it.assume(And(within(i, n['_objects']), within(j, n['_objects']), within(p, n['_attributes']), within(q, n['_attributes'])))
        for nm, ps, ans in ((NAMES[0], (i, j), ROW), (NAMES[1], (p, q), COL)):
            for x in ps:
                r = it.call(it.getattr(a[0], nm), [VZ('int', x)], {})
                it.oblige(it.content(r).arr == ans(c, x), 'basis_computation: %s answers for the table' % nm, 'post')
        it.maybe_raise(FAILS, 'ValueError')
        return VZ('V', FOUND)
    return VSpec('computation', call, 'computation')


def restored(S):
    return [('the accessors are those of the class again', BoolVal(restored_accessors(S._it, S.raw('cxt')))), ('the answer', If(FAILS, S.result == S.other, S.result == FOUND))] + same_context(S, S.cxt, S.old.cxt)


contracts.append(Contract(M + 'lemma_basis_computation', {'cxt': Inst('Context'), 'f': Fn('computation', computation), 'x': 'V', 'other': 'V'}, returns='V', nocall=True, props=P20, modifies=('cxt',),
                          source='def lemma(cxt, f, x, other):\n    g = basis_computation(f)\n    try:\n        return g(cxt, x)\n    except ValueError:\n        return other\n', ensures=restored))
