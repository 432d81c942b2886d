"""Contracts for implications and concepts as values (C07)."""
from z3 import *
from engine import logic as L
from engine.logic import V, sub, mem
from engine.contract import Contract, LoopC, Inst
from engine.core import *
from engine.views import ListView

M = 'fca/implication.py:'
N = 'fca/concept.py:'
IMP, CON = ('ref', 'Implication'), ('ref', 'Concept')
SETV = ('set', 'V')
R = IntSort()
E = L.empty(V)


def els(x):
    return x.set if isinstance(x, ListView) else x


def concl(S, r):
    """the conclusion an implication reports"""
    return L.diff(S.concl(r), S.prem(r))


def meet(a, b):
    return L.inter(a, b) != E


def others(S, acc, r):
    """the other objects keep the field"""
    return S.forall([R], lambda q: Implies(q != r, getattr(S, acc)(q) == getattr(S.old, acc)(q)), lambda q: getattr(S, acc)(q))


contracts = []
for cls in ('Implication', 'NegativeImplication'):
    RT = ('ref', cls)
    if cls == 'Implication':
        for t1 in ('set', 'list'):
            contracts.append(Contract(M + 'Implication.__init__', {'self': RT, 'premise': (t1, 'V'), 'conclusion': (t1, 'V')}, variant=t1,
                                      ensures=lambda S: [('stores the premise', S.prem(S.self) == els(S.premise)), ('stores the conclusion', S.concl(S.self) == els(S.conclusion)),
                                                         ('other premises stay', others(S, 'prem', S.self)), ('other conclusions stay', others(S, 'concl', S.self))],
                                      modifies=[('heap', 'Implication', '_premise'), ('heap', 'Implication', '_conclusion')], nocall=True, props=('C07',)))
        contracts.append(Contract(M + 'Implication.__deepcopy__', {'self': RT, 'memo': ('dict', 'V', 'int')},
                                  ensures=lambda S: [('same premise', S.prem(S.result) == S.old.prem(S.self)), ('same conclusion', S.concl(S.result) == S.old.concl(S.self)), ('a new object', S.result != S.self)],
                                  returns=RT, nocall=True, props=('C07',)))
        contracts.append(Contract(M + 'Implication.get_reduced_conclusion', {'self': RT}, ensures=lambda S: [('conclusion without the premise', S.result == concl(S, S.self))],
                                  returns=SETV, nocall=True, props=('C07',)))
        contracts.append(Contract(M + 'Implication.__eq__', {'self': RT, 'other': RT},
                                  ensures=lambda S: [('equality of premise and reduced conclusion', S.result == If(And(S.prem(S.self) == S.prem(S.other), concl(S, S.self) == concl(S, S.other)), I(1), I(0)))],
                                  returns='int', nocall=True, props=('C07',)))
        contracts.append(Contract(M + 'Implication.lemma_hash', {'a': RT, 'b': RT}, source='def lemma(a, b):\n    if a == b:\n        return hash(a) == hash(b)\n    return True\n',
                                  ensures=lambda S: [('equal implications have equal hashes', S.result)], returns='bool', nocall=True, props=('C07',)))

    def resp(S, c, p, neg):
        return Or(Not(sub(S.prem(S.self), c)), Not(meet(concl(S, S.self), p)) if neg else sub(concl(S, S.self), p))
    neg = cls != 'Implication'
    contracts.append(Contract(M + cls + '.is_respected', {'self': RT, 'some_set': SETV}, variant='set',
                              ensures=lambda S, resp=resp, neg=neg: [('respected by a set', S.result == resp(S, S.some_set, S.some_set, neg))], returns='bool', nocall=True, props=('C07',)))
    for k in ('tup',):
        contracts.append(Contract(M + cls + '.is_respected', {'self': RT, 'some_set': ('tup', SETV, SETV)}, variant='pair',
                                  ensures=lambda S, resp=resp, neg=neg: [('respected by a partial example', S.result == resp(S, S.some_set[0], S.some_set[1], neg))], returns='bool', nocall=True, props=('C07',)))
    contracts.append(Contract(M + cls + '.is_respected', {'self': RT, 'some_set': ('list', SETV)}, variant='list of two', requires=lambda S: [('two sets', S.some_set.n == 2)],
                              ensures=lambda S, resp=resp, neg=neg: [('respected by a partial example', S.result == resp(S, S.some_set[0], S.some_set[1], neg))], returns='bool', nocall=True, props=('C07',)))

for t1 in ('set', 'list'):
    contracts.append(Contract(N + 'Concept.__init__', {'self': CON, 'extent': (t1, 'V'), 'intent': (t1, 'V')}, variant=t1,
                              ensures=lambda S: [('stores the extent', S.ext(S.self) == els(S.extent)), ('stores the intent', S.int(S.self) == els(S.intent)),
                                                 ('other extents stay', others(S, 'ext', S.self)), ('other intents stay', others(S, 'int', S.self))],
                              modifies=[('heap', 'Concept', 'extent'), ('heap', 'Concept', 'intent'), ('heap', 'Concept', 'meta')], nocall=True, props=('C07',)))
contracts.append(Contract(N + 'Concept.__eq__', {'self': CON, 'other': CON},
                          ensures=lambda S: [('equality of extent and intent', S.result == And(S.ext(S.self) == S.ext(S.other), S.int(S.self) == S.int(S.other)))], returns='bool', nocall=True, props=('C07',)))
contracts.append(Contract(N + 'Concept.lemma_hash', {'a': CON, 'b': CON}, source='def lemma(a, b):\n    if a == b:\n        return hash(a) == hash(b)\n    return True\n',
                          ensures=lambda S: [('equal concepts have equal hashes', S.result)], returns='bool', nocall=True, props=('C07',)))

# implications with one attribute concluded
UI = ('ref', 'UnitImplication')
contracts += [
    Contract(M + 'UnitImplication.__init__', {'self': UI, 'premise': (t1, 'V'), 'conclusion': 'V'}, variant=t1,
             ensures=lambda S: [('stores the premise', S.prem(S.self) == els(S.premise)), ('concludes the element', S.concl(S.self) == L.add(E, S.conclusion)),
                                ('other premises stay', others(S, 'prem', S.self)), ('other conclusions stay', others(S, 'concl', S.self))],
             modifies=[('heap', 'Implication', '_premise'), ('heap', 'Implication', '_conclusion')], nocall=True, props=('C07',)) for t1 in ('set', 'list')]
contracts.append(Contract(M + 'UnitImplication.get_reduced_conclusion', {'self': UI}, requires=lambda S: [('one element, not in the premise', S.exists([V], lambda v: And(S.concl(S.self) == L.add(E, v), Not(S.prem(S.self)[v]))))],
                          ensures=lambda S: [('the element', S.result == S.concl(S.self))], returns=SETV, nocall=True, props=('C07',)))
contracts += [
    Contract(M + 'Implication.get_premise', {'self': IMP}, returns=SETV, nocall=True, shared=True, props=('C07',), ensures=lambda S: [('the premise', S.result == S.prem(S.self))]),
    Contract(M + 'Implication.get_conclusion', {'self': IMP}, returns=SETV, nocall=True, shared=True, props=('C07',), ensures=lambda S: [('the conclusion as given', S.result == S.concl(S.self))]),
]
