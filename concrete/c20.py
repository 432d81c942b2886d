"""queries are pure, repeatable and never stale"""
import copy
import fca
from fca.algorithms import dg_basis_iter_simple, compute_dg_basis, compute_dg_basis_simple
from fca.algorithms import closure_operators as co, factors as F, norris, iterative_norris
from fca.algorithms.aibasis import compute_canonical_basis
from fca.algorithms.implication_covers import compute_implication_cover
from fca.algorithms.norris import compute_covering_relation
from . import hist
from .base import *


def key(imps):
    return frozenset((frozenset(i._premise), frozenset(i._premise | i._conclusion)) for i in imps)


def cset(cs):
    cs = list(cs)
    return (len(cs), frozenset((frozenset(x.extent), frozenset(x.intent)) for x in cs))


def fset(c, alg):
    return cset(x[0] for x in alg(c))


def lattice_key(l):
    return (cset(l), frozenset((frozenset(x.intent), frozenset(frozenset(p.intent) for p in l.parents(x)), frozenset(frozenset(p.intent) for p in l.children(x))) for x in l))


def subset_of(t, xs):
    return sorted(random_subset(t.rng, xs), key=repr)


# each query: (name, function of the context and fixed arguments -> comparable answer, exact answer from the model or None)
def queries(t, m):
    o, a = subset_of(t, m.objs), subset_of(t, m.atts)
    q = {
        'concepts': (lambda c: cset(c.concepts), lambda: (len(m.concepts()), frozenset(m.concepts()))),
        'iterate_concepts': (lambda c: cset(c.iterate_concepts()), lambda: (len(m.concepts()), frozenset(m.concepts()))),
        'lattice': (lambda c: lattice_key(c.concept_lattice), None),
        'attribute_implications': (lambda c: key(c.attribute_implications), lambda: frozenset(pseudo(m.cl, m.atts))),
        'get_attribute_implications': (lambda c: key(c.get_attribute_implications()), lambda: frozenset(pseudo(m.cl, m.atts))),
        'object_implications': (lambda c: key(c.object_implications), lambda: frozenset(pseudo(m.ocl, m.objs))),
        'get_object_implications': (lambda c: key(c.get_object_implications()), lambda: frozenset(pseudo(m.ocl, m.objs))),
        'canonical': (lambda c: key(c.get_attribute_canonical_basis()), lambda: frozenset(pseudo(m.cl, m.atts))),
        'iterated': (lambda c: key(c.attribute_implications_iter()), lambda: frozenset(pseudo(m.cl, m.atts))),
        'dg': (lambda c: key(compute_dg_basis(c)), lambda: frozenset(pseudo(m.cl, m.atts))),
        'dg_simple': (lambda c: key(compute_dg_basis_simple(c)), lambda: frozenset(pseudo(m.cl, m.atts))),
        'aclosure': (lambda c: frozenset(c.aclosure(set(a))), lambda: frozenset(m.cl(a))),
        'oclosure': (lambda c: frozenset(c.oclosure(set(o))), lambda: frozenset(m.ocl(o))),
        'aprime': (lambda c: frozenset(c.aprime(set(a))), lambda: frozenset(m.down(a))),
        'oprime': (lambda c: frozenset(c.oprime(set(o))), lambda: frozenset(m.up(o))),
        'fn aclosure': (lambda c: frozenset(co.aclosure(set(a), c)), lambda: frozenset(m.cl(a))),
        'fn oclosure': (lambda c: frozenset(co.oclosure(set(o), c)), lambda: frozenset(m.ocl(o))),
        'associative': (lambda c: tuple(sorted((repr(x), int(y)) for x, y in c.associative_aprime(set(a)).items() if y)), None),
        'associative closure': (lambda c: repr(sorted((repr(x), int(y)) for x, y in c.associative_aclosure(set(a))[0].items() if y)) + str(c.associative_aclosure(set(a))[1]), None),
        'factors': (lambda c: fset(c, F.algorithm2), None),
        'factors weighted': (lambda c: fset(c, F.algorithm2_weighted), None),
        'pairs': (lambda c: frozenset(c.object_attribute_pairs), lambda: frozenset(m.pairs())),
        'transpose': (lambda c: hist.frozen(c.transpose()), None),
        'intents': (lambda c: [frozenset(x) for x in c.intents()], lambda: [frozenset(m.intent(x)) for x in m.objs]),
        'examples': (lambda c: [frozenset(x) for x in c.examples()], lambda: [frozenset(m.intent(x)) for x in m.objs]),
        'values': (lambda c: [[bool(c.get_value(x, y)) for y in c.attributes] for x in c.objects], lambda: m.rows),
        'extents': (lambda c: [frozenset(c.get_attribute_extent(y)) for y in c.attributes], lambda: [frozenset(m.extent(y)) for y in m.atts]),
        'reduce': (lambda c: hist.frozen(c.reduce_objects()), None),
        'clarify': (lambda c: sorted(map(repr, map(list, c.clarify_objects().table))), None),
        'repr': (lambda c: repr(c), None),
    }
    if m.objs and m.atts:
        q['cover'] = (lambda c: None if compute_implication_cover(c) is None else 0, None)
    return q


EXACT = None


def ask(t, c, m, what, count):
    """ask some queries, in random order and repeatedly; each equals the model's and a fresh context's answer"""
    rng = t.rng
    q = queries(t, m)
    names_ = rng.sample(sorted(q), min(count, len(q)))
    names_ += rng.sample(names_, min(2, len(names_)))
    before = hist.frozen(c)
    ids = (id(c.objects), id(c.attributes))
    answers = {}
    for n in names_:
        f, exact = q[n]
        got = f(c)
        t.eq(hist.frozen(c), before, '%s: context after %s' % (what, n))
        if n in answers:
            t.eq(got, answers[n], '%s: repeated %s' % (what, n))
        answers[n] = got
        if exact is not None:
            t.eq(got, exact(), '%s: %s' % (what, n))
        elif n not in ('factors', 'factors weighted', 'cover'):
            fresh = fca.Context([list(map(bool, r)) for r in m.rows], list(m.objs), list(m.atts))
            t.eq(got, f(fresh), '%s: %s of a fresh equal context' % (what, n))
        else:
            pairs = {(o, a) for e, i in (got[1] if n != 'cover' else ()) for o in e for a in i}
            if n != 'cover':
                t.eq(pairs, m.pairs(), '%s: crosses covered by %s' % (what, n))


def spoil(t, c):
    """a caller may do what it likes with returned answers"""
    rng = t.rng
    for x in (c.get_object_intent_by_index(0) if c.objects else set(), c.aclosure(set()), c.oprime(set()), c.get_attribute_extent(c.attributes[0]) if c.attributes else set(), c.object_attribute_pairs):
        x.clear()
    for x in c.intents():
        x.add('*')
    for i in list(c.attribute_implications) + list(c.get_attribute_canonical_basis()) + list(c.object_implications):
        i._premise.add('*')
        i._conclusion.add('*')
    for k in c.concepts:
        pass


def test_history(t):
    rng = t.rng
    c, m = context(t, 4, 4, strings=True)
    c0 = c
    for k in range(rng.randint(1, 5)):
        ask(t, c, m, 'step %d' % k, rng.randint(2, 6))
        if rng.random() < 0.4:
            b = hist.frozen(c)
            spoil(t, c)
            t.eq(hist.frozen(c), b, 'context after the answers were changed')
            ask(t, c, m, 'step %d, after the answers were changed' % k, 3)
        if rng.random() < 0.2:
            hist.failing_edit(t, c, m)
        else:
            x = hist.apply(t, c, m, hist.pick_edit(rng), k)
            if x:
                m = hist.after_edit(t, c, *x, what='after edit %d' % k)
    ask(t, c, m, 'at the end', 6)


class Stop(Exception):
    pass


def test_callbacks(t):
    """a raising callback leaves nothing behind"""
    rng = t.rng
    c, m = context(t, 4, 4, strings=True)
    ask(t, c, m, 'before', 2)
    before = hist.frozen(c)
    keys = set(vars(c))
    for _ in range(rng.randint(1, 3)):
        limit = rng.randint(0, 4)
        calls = []

        def tick():
            calls.append(1)
            if len(calls) > limit:
                raise Stop()

        def cond(x):
            tick()
            return True

        def basis(cxt, *args, **kw):
            tick()
            list(cxt.examples())
            [cxt.get_attribute_extent_by_index(j) for j in range(len(cxt.attributes))]
            raise Stop()
        op = rng.choice(['cond', 'basis', 'canonical', 'object', 'close', 'iter'])
        t.note(op=op, limit=limit)
        try:
            if op == 'cond':
                c.get_attribute_implications(cond=cond)
            elif op == 'basis':
                c.get_attribute_implications(basis=basis)
            elif op == 'canonical':
                c.get_attribute_canonical_basis(get_basis=basis)
            elif op == 'object':
                c.get_object_implications(basis=basis)
            elif op == 'iter':
                for _ in c.get_attribute_implications(basis=dg_basis_iter_simple, cond=cond):
                    pass
            else:
                def close(s, imps):
                    tick()
                    return co.simple_closure(s, imps)
                compute_dg_basis(c, close=close)
        except Stop:
            pass
        t.eq(hist.frozen(c), before, 'context after the callback raised')
        t.eq(set(vars(c)) - keys - {'get_object_intent_by_index', 'get_attribute_extent_by_index'}, set(), 'attributes of the context')
        ask(t, c, m, 'after the callback raised', 3)
        x = hist.apply(t, c, m, hist.pick_edit(rng), 0)
        if x:
            m = hist.after_edit(t, c, *x, what='edit after the callback raised')
            ask(t, c, m, 'after the edit', 3)
            before = hist.frozen(c)


def test_reading_callbacks(t):
    """callbacks that query the context see its table"""
    rng = t.rng
    c, m = context(t, 4, 4, strings=True)

    def cond(x):
        s = subset_of(t, m.atts)
        t.eq(c.aclosure(s), m.cl(s), 'closure asked from within')
        for i, o in enumerate(m.objs):
            t.eq(c.get_object_intent(o), m.intent(o), 'intent asked from within')
        if rng.random() < 0.5:
            ask(t, c, m, 'from within a callback', 2)
        return True
    t.eq(key(c.get_attribute_implications(cond=cond)), frozenset(pseudo(m.cl, m.atts)), 'basis with a condition that queries')
    ask(t, c, m, 'afterwards', 3)


def test_args(t):
    """arguments and default arguments keep their values"""
    rng = t.rng
    c, m = context(t, 4, 4, strings=True)
    bg = []
    for _ in range(rng.randint(0, 2)):
        p = random_subset(rng, m.atts, 0.4)
        bg.append(fca.Implication(p, random_subset(rng, m.cl(p))))
    snap = imp_snapshot(bg)
    r1 = key(c.get_attribute_implications(confirmed=bg))
    got = c.get_attribute_implications()
    t.eq(key(got), frozenset(pseudo(m.cl, m.atts)), 'basis without background after one with background')
    got.append(fca.Implication(set(), set(m.atts)))
    t.eq(key(c.get_attribute_implications()), frozenset(pseudo(m.cl, m.atts)), 'basis after an earlier answer was changed')
    t.eq(key(c.get_attribute_implications(confirmed=bg)), r1, 'basis with background, repeated')
    t.eq(imp_snapshot(bg), snap, 'background')
    got = c.get_object_implications()
    t.eq(key(got), frozenset(pseudo(m.ocl, m.objs)), 'object basis')
    got.append(fca.Implication(set(), set(m.objs)))
    t.eq(key(c.get_object_implications()), frozenset(pseudo(m.ocl, m.objs)), 'object basis after an earlier answer was changed')


def test_two(t):
    """contexts do not influence each other"""
    c, m = context(t, 4, 4, strings=True)
    d, k = context(t, 4, 4, strings=True)
    e = copy.deepcopy(c)
    ask(t, c, m, 'first', 3)
    ask(t, d, k, 'second', 3)
    x = hist.apply(t, c, m, hist.pick_edit(t.rng), 0)
    m2 = hist.after_edit(t, c, *x, what='edit of the first') if x else m
    ask(t, d, k, 'second after the first was edited', 3)
    ask(t, e, m, 'copy after the first was edited', 3)
    ask(t, c, m2, 'first after the edit', 3)


TESTS = [('history', test_history), ('callbacks', test_callbacks), ('reading_callbacks', test_reading_callbacks), ('args', test_args), ('two', test_two)]
