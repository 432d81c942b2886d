import copy
import fca
from fca.algorithms import exploration as ex1
from fca.algorithms.exploration_ import exploration as exdb
from fca.algorithms.exploration2 import exploration as ex2
from fca.partial_context import PartialContext
from .base import *


def valid_in(m, p, c):
    return all(not p <= m.intent(o) or c <= m.intent(o) for o in m.objs)


def respects(imps, s):
    return all(not p <= s or c <= s for p, c in imps)


def prs(imps):
    return [(frozenset(i._premise), frozenset(i._conclusion)) for i in imps]


def canonical(m):
    return {(p, frozenset(c - p)) for p, c in pseudo(m.cl, m.atts)}


def reduced(imps):
    return [(frozenset(i._premise), frozenset(i._conclusion - i._premise)) for i in imps]


def judge_basic(t, e, m, ca, co, what):
    same(t, e.context, m, what)
    t.eq(reduced(e.confirmed_attribute_implications), ca, what + ': confirmed attribute implications')
    t.eq(reduced(e.confirmed_object_implications), co, what + ': confirmed object implications')
    for side, mm, got, conf in (('attribute', m, e.attribute_implications, ca), ('object', m.transpose(), e.object_implications, co)):
        r = reduced(got)
        t.eq(len(r), len(set(r)), '%s: repeated open %s implication' % (what, side))
        t.eq(set(r), canonical(mm) - set(conf), '%s: open %s implications' % (what, side))
        for o in mm.objs:
            t.check(respects(conf, mm.intent(o)), '%s: confirmed %s implications hold' % (what, side), conf, mm.intent(o))
        if not r:
            for s in subsets(mm.atts):
                t.eq(clos(conf, s), mm.cl(s), '%s: nothing open, closure of %r under the confirmed %s implications' % (what, s, side))


def test_basic(t):
    rng = t.rng
    c, m = context(t, 4, 4, strings=True)
    m0 = m.copy()
    e = ex1.BasicExploration(c)
    m = m.copy()
    ca, co = [], []
    judge_basic(t, e, m, ca, co, 'at the start')
    for k in range(rng.randint(1, 8)):
        op = rng.choice(['confirm_a', 'confirm_o', 'confirm_a', 'counter_a', 'counter_o', 'counter_a', 'add_o', 'add_a', 'edit_a', 'edit_o'])
        what = 'after step %d (%s)' % (k, op)
        if len(m.objs) > 5 or len(m.atts) > 5:
            break
        if op == 'confirm_a' and e.attribute_implications:
            i = rng.randrange(len(e.attribute_implications))
            ca.append(reduced(e.attribute_implications)[i])
            t.note(**{'op%d' % k: (op, i)})
            e.confirm_attribute_implication(i)
        elif op == 'confirm_o' and e.object_implications:
            i = rng.randrange(len(e.object_implications))
            co.append(reduced(e.object_implications)[i])
            t.note(**{'op%d' % k: (op, i)})
            e.confirm_object_implication(i)
        elif op in ('counter_a', 'counter_o'):
            mm, conf, openi = (m, ca, e.attribute_implications) if op == 'counter_a' else (m.transpose(), co, e.object_implications)
            if not openi:
                continue
            i = rng.randrange(len(openi))
            p, q = reduced(openi)[i]
            s = random_subset(rng, mm.atts)
            if rng.random() < 0.6:
                s |= p
            if rng.random() < 0.6:
                s = clos(conf, s)
            f = e.counter_example_for_attr_implication if op == 'counter_a' else e.counter_example_for_obj_implication
            t.note(**{'op%d' % k: (op, 'new%d' % k, set(s), i, p, q)})
            s0 = set(s)
            if not p <= s:
                t.raises((ex1.NotCounterExamplePremise,), what, f, 'new%d' % k, s, i)
            elif q <= s:
                t.raises((ex1.NotCounterExampleConclusion,), what, f, 'new%d' % k, s, i)
            elif not respects(conf, s):
                t.raises((ex1.BasisConflict,), what, f, 'new%d' % k, s, i)
            else:
                f('new%d' % k, s, i)
                mm.objs.append('new%d' % k)
                mm.rows.append([a in s for a in mm.atts])
                m = mm if op == 'counter_a' else mm.transpose()
            t.eq(s, s0, 'the set given')
        elif op in ('add_o', 'add_a', 'edit_a', 'edit_o'):
            mm, conf, conf2 = (m, ca, co) if op in ('add_o', 'edit_o') else (m.transpose(), co, ca)
            s = random_subset(rng, mm.atts)
            if rng.random() < 0.6:
                s = clos(conf, s)
            f = {'add_o': e.add_object, 'add_a': e.add_attribute, 'edit_a': e.edit_attribute, 'edit_o': e.edit_object}[op]
            new = mm.copy()
            if op in ('add_o', 'add_a'):
                name = 'new%d' % k
                new.objs.append(name)
                new.rows.append([a in s for a in mm.atts])
            else:
                if not mm.objs:
                    continue
                name = rng.choice(mm.objs)
                new.rows[new.objs.index(name)] = [a in s for a in mm.atts]
            ok = respects(conf, s)
            if op in ('edit_a', 'edit_o'):
                tr = new.transpose()
                ok = ok and all(respects(conf2, tr.intent(o)) for o in tr.objs)
            t.note(**{'op%d' % k: (op, set(s), name)})
            s0 = set(s)
            if ok:
                f(s, name)
                m = new if op in ('add_o', 'edit_o') else new.transpose()
            else:
                t.raises((ex1.BasisConflict,), what, f, s, name)
            t.eq(s, s0, 'the set given')
        else:
            continue
        judge_basic(t, e, m, ca, co, what)
    same(t, c, m0, 'the initial context')


def relative_basis(t, m, conf, openi, what, cond=None):
    conf, o = prs(conf) if conf and not isinstance(conf[0], tuple) else list(conf), prs(openi)
    for p, c in o:
        t.eq(set(p | c), m.cl(p), what + ': the open implication from %r' % (set(p),))
        if cond:
            t.check(cond(set(p)), what + ': condition on premises', p)
    if cond:
        return
    for s in subsets(m.atts):
        if respects(conf + o, s):
            t.eq(m.cl(s), s, what + ': a set respecting all implications')
    for k in range(len(o)):
        p, c = o[k]
        t.check(not c <= clos(conf + o[:k] + o[k + 1:], p), what + ': an open implication follows from the others', o[k])
    if not o:
        for s in subsets(m.atts):
            t.eq(clos(conf, s), m.cl(s), what + ': nothing open, closure under the confirmed')


def test_db(t):
    rng = t.rng
    c, m = context(t, 4, 4, strings=True)
    cond = None
    conf = []
    given = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        p = random_subset(rng, m.atts, 0.4)
        given.append(fca.Implication(p, random_subset(rng, m.cl(p), 0.7)))
    conf = prs(given)
    t.note(background=conf)
    if rng.random() < 0.15:
        lim = rng.randint(0, 3)
        cond = lambda s: len(s) <= lim
        db = exdb.ExplorationDB(c, given, cond)
    else:
        db = exdb.ExplorationDB(c, given)
    m = m.copy()

    def judge(what):
        same(t, db._cxt, m, what)
        t.eq(list(db.objects), m.objs, what + ': objects')
        t.eq(list(db.attributes), m.atts, what + ': attributes')
        t.eq(prs(db.base), conf, what + ': confirmed implications')
        for o in m.objs:
            t.check(respects(conf, m.intent(o)), what + ': confirmed implications hold', conf, m.intent(o))
        relative_basis(t, m, list(conf), db.open_implications, what, cond)

    judge('at the start')
    for k in range(rng.randint(1, 8)):
        op = rng.choice(['confirm', 'confirm', 'confirm_any', 'unconfirm', 'add_example', 'add_example', 'add_example', 'delete_example', 'edit_example', 'edit_example', 'add_attribute', 'delete_attribute', 'edit_attribute', 'edit_attribute', 'touch', 'reject', 'reject', 'bad'])
        what = 'after step %d (%s)' % (k, op)
        if len(m.objs) > 6 or len(m.atts) > 5:
            break
        mentioned = {a for p, q in conf for a in p | q}
        if op == 'confirm' and db.open_implications:
            i = rng.choice(db.open_implications)
            t.note(**{'op%d' % k: (op, str(i))})
            conf.append(prs([i])[0])
            if rng.random() < 0.5:
                db.confirm_implication(i)
            else:
                exdb.AttributeExploration(db, None).confirm_implication(i)
        elif op == 'confirm_any':
            p = random_subset(rng, m.atts, 0.4)
            i = fca.Implication(p, random_subset(rng, m.cl(p), 0.7))
            t.note(**{'op%d' % k: (op, prs([i]))})
            conf.append(prs([i])[0])
            db.confirm_implication(i)
        elif op == 'unconfirm' and conf:
            i = rng.choice(db.base)
            t.note(**{'op%d' % k: (op, str(i))})
            key = next(j for j, x in enumerate(db.base) if x == i)
            del conf[key]
            db.unconfirm_implication(i)
        elif op == 'add_example':
            s = random_subset(rng, m.atts)
            if rng.random() < 0.5:
                s = clos(conf, s)
            name = rng.choice(m.objs) if m.objs and rng.random() < 0.2 else 'new%d' % k
            t.note(**{'op%d' % k: (op, name, set(s))})
            s0 = set(s)
            if not respects(conf, s) or name in m.objs:
                ex = tuple([exdb.IllegalContextModification] * (not respects(conf, s)) + [exdb.NotUniqueObjectName] * (name in m.objs))
                t.raises(ex, what, db.add_example, name, s)
            else:
                db.add_example(name, s)
                m.objs.append(name)
                m.rows.append([a in s for a in m.atts])
            t.eq(s, s0, 'the set given')
        elif op == 'delete_example' and m.objs:
            o = rng.choice(m.objs)
            t.note(**{'op%d' % k: (op, o)})
            db.delete_example(o)
            i = m.objs.index(o)
            del m.objs[i], m.rows[i]
        elif op == 'edit_example' and m.objs:
            o = rng.choice(m.objs)
            name = o if rng.random() < 0.4 else rng.choice(m.objs) if rng.random() < 0.3 else 'ren%d' % k
            s = m.intent(o) if rng.random() < 0.2 else random_subset(rng, m.atts)
            if rng.random() < 0.5:
                s = clos(conf, s)
            t.note(**{'op%d' % k: (op, name, o, set(s))})
            taken = name != o and name in m.objs
            if taken or not respects(conf, s):
                ex = tuple([exdb.IllegalContextModification] * (not respects(conf, s)) + [exdb.NotUniqueObjectName] * taken)
                t.raises(ex, what, db.edit_example, name, o, s)
            else:
                db.edit_example(name, o, s)
                i = m.objs.index(o)
                m.objs[i] = name
                m.rows[i] = [a in s for a in m.atts]
        elif op == 'add_attribute':
            name = rng.choice(m.atts) if m.atts and rng.random() < 0.2 else 'natt%d' % k
            s = random_subset(rng, m.objs)
            t.note(**{'op%d' % k: (op, name, set(s))})
            if name in m.atts:
                t.raises((exdb.NotUniqueAttributeName,), what, db.add_attribute, name, s)
            else:
                db.add_attribute(name, s)
                m.atts.append(name)
                for o, r in zip(m.objs, m.rows):
                    r.append(o in s)
        elif op == 'delete_attribute':
            free = [a for a in m.atts if a not in mentioned]
            if not free:
                continue
            a = rng.choice(free)
            t.note(**{'op%d' % k: (op, a)})
            db.delete_attribute(a)
            j = m.atts.index(a)
            del m.atts[j]
            for r in m.rows:
                del r[j]
        elif op == 'edit_attribute' and m.atts:
            a = rng.choice(m.atts)
            name = a if a in mentioned or rng.random() < 0.4 else 'aren%d' % k
            if rng.random() < 0.15:
                name = rng.choice(m.atts)
            s = random_subset(rng, m.objs) if rng.random() < 0.7 else m.extent(a)
            new = m.copy()
            for o, r in zip(new.objs, new.rows):
                r[m.atts.index(a)] = o in s
            ok = all(respects(conf, new.intent(o)) for o in new.objs)
            taken = name != a and name in m.atts
            t.note(**{'op%d' % k: (op, name, a, set(s))})
            if taken or not ok:
                ex = tuple([exdb.IllegalContextModification] * (not ok) + [exdb.NotUniqueAttributeName] * taken)
                t.raises(ex, what, db.edit_attribute, name, a, s)
            else:
                db.edit_attribute(name, a, s)
                m = new
                m.atts[m.atts.index(a)] = name
        elif op == 'touch':
            db.touch()
        elif op == 'reject' and db.open_implications:
            i = rng.choice(db.open_implications)
            p, q = prs([i])[0]
            s = random_subset(rng, m.atts)
            if rng.random() < 0.7:
                s |= p
            if rng.random() < 0.5:
                s = clos(conf, s)
            name = rng.choice(m.objs) if m.objs and rng.random() < 0.1 else 'cex%d' % k
            single = rng.random() < 0.5

            class Expert:
                def provide_counterexample(self, imp):
                    return (name, set(s)) if single else ([name], [set(s)])
            t.note(**{'op%d' % k: (op, str(i), name, set(s))})
            e = exdb.AttributeExploration(db, Expert())
            counter = p <= s and not q <= s
            bad = [exdb.NotCounterexample] * (not counter) + [exdb.IllegalContextModification] * (not respects(conf, s)) + [exdb.NotUniqueObjectName] * (name in m.objs)
            if bad:
                t.raises(tuple(bad), what, e.reject_implication, i)
            else:
                e.reject_implication(i)
                m.objs.append(name)
                m.rows.append([a in s for a in m.atts])
        elif op == 'bad':
            f, args = rng.choice([(db.delete_example, ('*',)), (db.delete_attribute, ('*',)), (db.edit_example, ('q%d' % k, '*', set())), (db.edit_attribute, ('q%d' % k, '*', set()))])
            t.note(**{'op%d' % k: (f.__name__, args)})
            t.raises((KeyError, ValueError, IndexError, exdb.ExplorationException), what, f, *args)
        else:
            continue
        # what callers receive are copies
        db.open_implications.clear()
        db.base.clear()
        judge(what)


def test_session(t):
    rng = t.rng
    c, m = context(t, 4, 4, strings=True)
    m = m.copy()
    s = ex2.Exploration(ex2.ExplorationContext(c)).create_session()
    acc = []
    for k in range(rng.randint(1, 8)):
        if len(m.objs) > 6:
            break
        what = 'step %d' % k
        cand = s.get_candidates()
        relative_basis(t, m, list(acc), cand, what)
        t.eq(prs(s.get_accepted_implications()), acc, what + ': accepted')
        s.get_accepted_implications().clear()
        s.context.objects.append('junk')
        s.context.attributes.append('junk')
        same(t, c, m, what)
        t.eq(list(s.context.objects), m.objs, what + ': objects')
        for o in m.objs:
            got = s.context.get_intent(o)
            t.eq(got, m.intent(o), what + ': intent')
            got.add('junk')
        if not cand:
            break
        i = rng.choice(cand)
        p, q = prs([i])[0]
        if rng.random() < 0.4:
            t.note(**{'op%d' % k: ('accept', str(i))})
            s.accept_implication(i)
            acc.append((p, q))
            continue
        x = random_subset(rng, m.atts)
        if rng.random() < 0.7:
            x |= p
        if rng.random() < 0.5:
            x = clos(acc, x)
        t.note(**{'op%d' % k: ('reject', str(i), set(x))})
        bad = [ex2.FalseCounterexample] * (not (p <= x and not q <= x)) + [ex2.IllegalContextModification] * (not respects(acc, x))
        if bad:
            t.raises(tuple(bad), what, s.reject_implication, i, 'new%d' % k, set(x))
        else:
            s.reject_implication(i, 'new%d' % k, set(x))
            m.objs.append('new%d' % k)
            m.rows.append([a in x for a in m.atts])


def test_partial_db(t):
    """partial examples: accepted iff they respect the confirmed implications, completed afterwards"""
    from .c14 import partial
    rng = t.rng
    p, mx, mq = partial(t, 4, 4)
    db = exdb.ExplorationDB(p, [])
    e = exdb.AttributeExploration(db, None)
    conf = []
    for k in range(rng.randint(1, 5)):
        what = 'step %d' % k
        if rng.random() < 0.4 and db.open_implications:
            i = rng.choice(db.open_implications)
            t.note(**{'op%d' % k: ('confirm', str(i))})
            try:
                e.confirm_implications([i])
            except ValueError:
                return
            conf.append(prs([i])[0])
            for x, q in p.intents():
                t.check(x <= q, what + ': certain within possible', x, q)
                t.check(respects(conf, x), what + ': confirmed implications hold', conf, x)
        else:
            a = random_subset(rng, mx.atts, 0.4)
            b = a | random_subset(rng, mx.atts, 0.6)
            name = 'new%d' % k
            t.note(**{'op%d' % k: ('add', a, b)})
            ok = all(not u <= a or v <= b for u, v in conf)
            n = len(p.objects)
            if ok:
                db.add_example(name, (a, b))
                t.eq((p.x_context.get_object_intent(name), p.q_context.get_object_intent(name)), (a, b), what + ': the new example')
            else:
                t.raises((exdb.IllegalContextModification,), what, db.add_example, name, (a, b))
            t.eq(len(p.objects), n + ok, what + ': number of objects')


def test_dangling(t):
    """recorded finding: deleting or renaming an attribute that a confirmed implication mentions"""
    rename = t.i % 2
    c = fca.Context([[True, False, True], [False, True, True]], ['g', 'h'], ['a', 'b', 'c'])
    imp = fca.Implication({'a'}, {'c'})
    db = exdb.ExplorationDB(c, [imp])
    t.note(rename=rename)
    try:
        if rename:
            db.edit_attribute('z', 'c', {'g', 'h'})
        else:
            db.delete_attribute('c')
    except exdb.ExplorationException:
        return              # rejected: nothing dangles
    except (KeyError, ValueError) as e:
        t.known('attribute of a confirmed implication', 'raised %s' % e)
        return
    if any(not (i._premise | i._conclusion) <= set(db.attributes) for i in db.base):
        t.known('attribute of a confirmed implication', 'left an implication over an attribute that does not exist')


TESTS = [('basic', test_basic), ('db', test_db), ('session', test_session), ('partial_db', test_partial_db), ('dangling', test_dangling)]
