"""edit histories of a context against the reference model"""
import copy
import fca
from . import base
from .base import *


def fresh_name(rng, used, k):
    n = rng.choice(['n%d' % k, 'x', 'y%d' % k, 'a', 'b_1', 'a_0', 'm0_', 'g0', 'm1'])
    return n


def frozen(c):
    """everything observable of a context, by value"""
    return (list(c.objects), list(c.attributes), [list(r) for r in c.np_table.tolist()], [list(r) for r in c.cross_table])


EDITS = ['add_object', 'add_attribute', 'add_object_with_intent', 'add_attribute_with_extent', 'set_object_intent', 'set_attribute_extent',
         'delete_object', 'delete_attribute', 'delete_attributes', 'rename_object', 'rename_attribute', 'remove_empty_objects']


def pick_edit(rng):
    return rng.choice(EDITS)


def apply(t, c, m, op, k, collide=True):
    """perform one edit on both; returns (call description, names whose identity is not pinned, expected model)"""
    rng = t.rng
    n, w = len(m.objs), len(m.atts)
    r = m.copy()
    loose_o, loose_a = set(), set()

    def new(used):
        x = fresh_name(rng, used, k)
        if x in used:
            if not collide:
                return 'fresh%d' % k
            if not isinstance(x, str):
                return 'fresh%d' % k
        elif used and collide and rng.random() < 0.15:
            return rng.choice(list(used))
        return x

    def call(f, *args):
        keep = copy.deepcopy(args)
        t.note(**{'op%d' % k: (op,) + keep})
        before = [(list(x) if isinstance(x, list) else set(x) if isinstance(x, set) else x) for x in args]
        getattr(c, f)(*args)
        after = [(list(x) if isinstance(x, list) else set(x) if isinstance(x, set) else x) for x in args]
        t.eq(after, before, '%s changed its arguments' % f)
        if rng.random() < 0.3:       # the caller may reuse its arguments
            for x in args:
                if isinstance(x, list):
                    x.append('junk')
                    x[0] = 'junk'
                elif isinstance(x, set):
                    x.add('junk')

    if op in ('add_object', 'add_object_with_intent'):
        name = new(m.objs)
        row = [rng.random() < 0.5 for _ in range(w)]
        if op == 'add_object':
            call(op, list(row), name)
        else:
            s = {a for a, x in zip(m.atts, row) if x}
            call(op, rng.choice([set, list, frozenset])(s), name)
        if name in m.objs:
            loose_o = {name}
        r.objs.append(name)
        r.rows.append(row)
    elif op in ('add_attribute', 'add_attribute_with_extent'):
        name = new(m.atts)
        col = [rng.random() < 0.5 for _ in range(n)]
        if op == 'add_attribute':
            call(op, list(col), name)
        else:
            s = {o for o, x in zip(m.objs, col) if x}
            call(op, rng.choice([set, list, frozenset])(s), name)
        if name in m.atts:
            loose_a = {name}
        r.atts.append(name)
        for x, y in zip(r.rows, col):
            x.append(y)
    elif op == 'set_object_intent' and n:
        o = rng.choice(m.objs)
        s = random_subset(rng, m.atts)
        call(op, rng.choice([set, list])(s), o)
        r.rows[m.objs.index(o)] = [a in s for a in m.atts]
    elif op == 'set_attribute_extent' and w:
        a = rng.choice(m.atts)
        s = random_subset(rng, m.objs)
        call(op, rng.choice([set, list])(s), a)
        j = m.atts.index(a)
        for x, o in zip(r.rows, m.objs):
            x[j] = o in s
    elif op == 'delete_object' and n:
        o = rng.choice(m.objs)
        call(op, o)
        i = m.objs.index(o)
        del r.objs[i], r.rows[i]
    elif op == 'delete_attribute' and w:
        a = rng.choice(m.atts)
        call(op, a)
        j = m.atts.index(a)
        del r.atts[j]
        for x in r.rows:
            del x[j]
    elif op == 'delete_attributes':
        s = [a for a in m.atts if rng.random() < 0.4]
        rng.shuffle(s)
        if s and rng.random() < 0.2:
            s.append(rng.choice(s))
        call(op, s[:])
        keep = [j for j, a in enumerate(m.atts) if a not in s]
        r.atts = [m.atts[j] for j in keep]
        r.rows = [[x[j] for j in keep] for x in m.rows]
    elif op == 'rename_object' and n:
        o = rng.choice(m.objs)
        name = o if rng.random() < 0.05 else new([x for x in m.objs if x != o])
        call(op, o, name)
        if name in m.objs and name != o:
            loose_o = {name}
        r.objs[m.objs.index(o)] = name
    elif op == 'rename_attribute' and w:
        a = rng.choice(m.atts)
        name = a if rng.random() < 0.05 else new([x for x in m.atts if x != a])
        call(op, a, name)
        if name in m.atts and name != a:
            loose_a = {name}
        r.atts[m.atts.index(a)] = name
    elif op == 'remove_empty_objects':
        t.note(**{'op%d' % k: (op,)})
        x = c.remove_empty_objects()
        t.check(x is c, 'remove_empty_objects returns the context')
        keep = [i for i in range(n) if any(m.rows[i])]
        r.objs = [m.objs[i] for i in keep]
        r.rows = [list(m.rows[i]) for i in keep]
    else:
        return None
    return loose_o, loose_a, r


BAD = '*no such name*'


def failing_edit(t, c, m):
    """edits that refer to unknown names or have the wrong size"""
    rng = t.rng
    n, w = len(m.objs), len(m.atts)
    before = frozen(c)
    some_o = rng.choice(m.objs) if m.objs else BAD
    some_a = rng.choice(m.atts) if m.atts else BAD
    ops = [('set_object_intent', (set(list(m.atts)[:1]), BAD)), ('set_object_intent', ({some_a, BAD}, some_o)),
           ('set_attribute_extent', (set(list(m.objs)[:1]), BAD)), ('set_attribute_extent', ({some_o, BAD}, some_a)),
           ('delete_object', (BAD,)), ('delete_attribute', (BAD,)), ('delete_attributes', ([some_a, BAD],)), ('delete_attributes', ([BAD, some_a],)),
           ('rename_object', (BAD, 'q')), ('rename_attribute', (BAD, 'q')),
           ('add_object', ([True] * (w + 1), 'q')), ('add_attribute', ([True] * (n + 1), 'q'))]
    if w > 1:
        ops.append(('add_object', ([True] * (w - 1), 'q')))
    if n > 1:
        ops.append(('add_attribute', ([True] * (n - 1), 'q')))
    op, args = rng.choice(ops)
    t.note(bad_edit=(op, args))
    try:
        getattr(c, op)(*args)
    except (KeyError, ValueError, IndexError):
        pass
    else:
        raise Fail('%s%r is accepted' % (op, args))
    t.eq(frozen(c), before, 'context after the failed %s' % op)
    same(t, c, m, 'after the failed %s' % op)


def after_edit(t, c, loose_o, loose_a, r, what):
    """names distinct and consistent; exact except for colliding names; returns the new model"""
    t.eq(len(c.objects), len(r.objs), what + ': number of objects')
    t.eq(len(c.attributes), len(r.atts), what + ': number of attributes')
    t.eq(len(set(c.objects)), len(r.objs), what + ': distinct object names')
    t.eq(len(set(c.attributes)), len(r.atts), what + ': distinct attribute names')
    r = r.copy()
    r.objs = [y if x in loose_o else x for x, y in zip(r.objs, c.objects)]
    r.atts = [y if x in loose_a else x for x, y in zip(r.atts, c.attributes)]
    same(t, c, r, what)
    return r
