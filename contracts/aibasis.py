"""The closure used by the attribute-incremental algorithm (C09)."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem, card
from engine.contract import Contract, LoopC, Inst
from engine.core import *
from .ctxdef import *
from .ctxnew import all_i

P9 = ('C09',)
SETV = ('set', 'V')


def cx(S):
    return ctx(S.cxt)


def first(S):
    """the first k attributes"""
    return L.rng(ca(cx(S)), I(0), S.old.k if S.old is not None else S.k)


def kcl(S):
    return L.inter(ACL(cx(S), S.s), first(S))


def inv(S):
    c = cx(S)
    return [('attributes among the first', sub(S.closure, first(S))), ('contains the closure', sub(kcl(S), S.closure)),
            ('within the objects seen', S.forall([IntSort()], lambda i: Implies(And(0 <= i, i < S.k, sub(S.s, ROW(c, i))), sub(S.closure, ROW(c, i))), lambda i: ROW(c, i)))]


def at_end(S):
    c = cx(S)
    g = co(c)[S.k]
    return [('the object', And(objs(c)[g], INTENT(c, g) == ROW(c, S.k))), ('has the closure', Implies(sub(S.s, INTENT(c, g)), And(APRIME(c, S.s)[g], sub(ACL(c, S.s), INTENT(c, g))))),
            ('keeps the closure', Implies(sub(S.s, ROW(c, S.k)), sub(kcl(S), ROW(c, S.k))))]


def hints(S):
    c = cx(S)
    o = S.cxt._objects
    return [('rows', all_i(S, o.n, lambda i: ROW(c, i) == INTENT(c, o[i]), o)), ('every row with the set', all_i(S, o.n, lambda i: Implies(sub(S.s, ROW(c, i)), sub(S.result, ROW(c, i))), o)),
            ('every object with the set has the result', S.forall([V], lambda g: Implies(APRIME(c, S.s)[g], sub(S.result, INTENT(c, g))), lambda g: APRIME(c, S.s)[g])),
            ('attributes of the context', sub(S.result, atts(c))), ('within the closure', sub(S.result, ACL(c, S.s)))]


contracts = [
    Contract('fca/algorithms/aibasis.py:kclosure', {'s': SETV, 'k': 'int', 'cxt': Inst('Context')}, returns=SETV, props=P9,
             requires=lambda S: [('number of attributes', And(0 <= S.k, S.k <= S.cxt._attributes.n)), ('among the first attributes', sub(S.s, first(S)))],
             loops={0: LoopC(inv, at_body=at_end)}, exit_lemmas=hints,
             ensures=lambda S: [('the closure within the first attributes', S.result == kcl(S))])]
