import copy
import fca
from fca.mvcontext import ManyValuedContext
from fca.scale import Scale, NominalScale, OrdinalScale
from fca.algorithms.scaling import scale_mvcontext
from .base import *

VALUES = [0, 1, 2, 7, -3, 1.5, 2.0, '1', '01', 'x', 'y z', '', None, True, False, 'True', (1, 2), 10 ** 25, '7', 'é']


def mv(t, max_n=5, max_m=4, values=None):
    rng = t.rng
    n, m = rng.randint(0, max_n), rng.randint(0, max_m)
    pool = values or rng.choice([VALUES[:-6] + VALUES[-4:], VALUES[:7], ['x', 'y z', '1', ''], VALUES])
    if any(isinstance(v, tuple) for v in pool):
        pool = [v for v in pool if not isinstance(v, tuple)]
    tb = [[rng.choice(pool) for _ in range(m)] for _ in range(n)]
    objs, atts = names(t, n, 'g', True), names(t, m, 'm', True)
    t.note(objects=objs, attributes=atts, table=tb)
    c = ManyValuedContext([r[:] for r in tb], objs[:], atts[:])
    return c, objs, atts, tb


def typed(tb):
    return [[(type(x), x) for x in r] for r in tb]


def same_mv(t, c, objs, atts, tb, what='many-valued context'):
    t.eq(list(c.objects), objs, what + ': objects')
    t.eq(list(c.attributes), atts, what + ': attributes')
    t.eq(len(c), len(objs), what + ': length')
    t.eq(typed(c.table), typed(tb), what + ': table')
    t.eq(typed([c[i] for i in range(len(objs))]), typed(tb), what + ': rows')
    for i, o in enumerate(objs):
        for j, a in enumerate(atts):
            t.eq(typed([[c.get_value(o, a)]]), typed([[tb[i][j]]]), what + ': value of %r, %r' % (o, a))
            t.eq(typed([[c[i][j]]]), typed([[tb[i][j]]]), what + ': cell')


def test_values(t):
    rng = t.rng
    c, objs, atts, tb = mv(t)
    same_mv(t, c, objs, atts, tb)
    d = copy.deepcopy(c)
    repr(c)
    for k in range(rng.randint(1, 6)):
        op = rng.choice(['add_object', 'add_attribute', 'delete_object', 'delete_attribute', 'delete_attributes', 'rename_object', 'rename_attribute'])
        o2, a2, t2 = objs[:], atts[:], [r[:] for r in tb]
        if op == 'add_object':
            row = [rng.choice(VALUES[:-4]) for _ in a2]
            row = [x for x in row]
            row = [('s' if isinstance(x, tuple) else x) for x in row]
            args = (row[:], 'new%d' % k)
            o2.append('new%d' % k)
            t2.append(row)
        elif op == 'add_attribute':
            col = [rng.choice(VALUES[:-4]) for _ in o2]
            col = [('s' if isinstance(x, tuple) else x) for x in col]
            args = (col[:], 'new%d' % k)
            a2.append('new%d' % k)
            t2 = [r + [x] for r, x in zip(t2, col)]
        elif op == 'delete_object' and o2:
            o = rng.choice(o2)
            args = (o,)
            i = o2.index(o)
            del o2[i], t2[i]
        elif op == 'delete_attribute' and a2:
            a = rng.choice(a2)
            args = (a,)
            j = a2.index(a)
            del a2[j]
            for r in t2:
                del r[j]
        elif op == 'delete_attributes':
            s = [a for a in a2 if rng.random() < 0.4]
            args = (s[:],)
            keep = [j for j, a in enumerate(a2) if a not in s]
            a2 = [a2[j] for j in keep]
            t2 = [[r[j] for j in keep] for r in t2]
        elif op == 'rename_object' and o2:
            o = rng.choice(o2)
            args = (o, 'ren%d' % k)
            o2[o2.index(o)] = 'ren%d' % k
        elif op == 'rename_attribute' and a2:
            a = rng.choice(a2)
            args = (a, 'ren%d' % k)
            a2[a2.index(a)] = 'ren%d' % k
        else:
            continue
        t.note(**{'op%d' % k: (op,) + args})
        getattr(c, op)(*args)
        objs0, atts0, tb0 = objs, atts, tb
        objs, atts, tb = o2, a2, t2
        same_mv(t, c, objs, atts, tb, 'after %s' % op)
    dn = dict(t.notes)
    same_mv(t, d, eval(dn['objects']), eval(dn['attributes']), [list(r) for r in eval(dn['table'])], 'deep copy made before the edits')
    t.check(type(d) is ManyValuedContext, 'type of the copy')


def test_rejects(t):
    rng = t.rng
    n, m = rng.randint(1, 4), rng.randint(1, 4)
    dn, dm = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1)])
    tb = [[rng.choice('xyz') for _ in range(m)] for _ in range(n)]
    t.raises((ValueError,), 'mismatched dimensions', ManyValuedContext, tb, list(range(n + dn)), list(range(m + dm)))


def test_subcontexts(t):
    rng = t.rng
    c, objs, atts, tb = mv(t, values=[0, 1, 2, 'x', '1', None, 1.0])
    sel = [a for a in atts if rng.random() < 0.6]
    rng.shuffle(sel)
    t.note(selected=sel)
    s = c.extract_subcontext(sel[:])
    same_mv(t, s, objs, sel, [[r[atts.index(a)] for a in sel] for r in tb], 'extract_subcontext')
    t.check(type(s) is ManyValuedContext, 'type of the subcontext')
    keep = {i for i in range(len(objs)) if rng.random() < 0.5}
    s = c.extract_subcontext_by_condition(lambda i: i in keep)
    rows = [i for i in range(len(objs)) if i in keep]
    same_mv(t, s, [objs[i] for i in rows], atts, [tb[i] for i in rows], 'by condition')
    vals = {a: rng.choice([0, 1, 2, 'x', '1', None]) for a in atts if rng.random() < 0.5}
    if tb and rng.random() < 0.6:
        r = rng.choice(tb)
        vals = {a: r[atts.index(a)] for a in vals}
    t.note(values=vals)
    v0 = dict(vals)
    s = c.extract_subcontext_by_attribute_values(vals)
    rows = [i for i in range(len(objs)) if all(tb[i][atts.index(a)] == v for a, v in vals.items())]
    same_mv(t, s, [objs[i] for i in rows], atts, [tb[i] for i in rows], 'by values')
    t.eq(vals, v0, 'the values given')
    t.raises((ValueError,), 'unknown attribute', c.extract_subcontext, ['*'])
    t.raises((ValueError,), 'unknown attribute', c.extract_subcontext_by_attribute_values, {'*': 1})
    same_mv(t, c, objs, atts, tb, 'original')
    if rows and atts:
        s.rename_attribute(atts[0], 'zz')
        s.delete_object(objs[rows[0]])
        same_mv(t, c, objs, atts, tb, 'original after the subcontext changed')


def value(x):
    try:
        return float(x)
    except Exception:
        return str(x)


CONDS = ['value > 3', 'value == 1', 'value <= 2', "str(value) == 'x'", 'True', 'False', 'value != 2', "isinstance(value, str)", '1 < value < 6', 'value == 7.0 or value == 2']


def make_scale(t, k, conds):
    rng = t.rng
    n, m = rng.randint(0, 4), rng.randint(0, 3)
    objs = rng.sample(conds, min(n, len(conds)))
    tb = [[rng.random() < 0.5 for _ in range(m)] for _ in objs]
    atts = ['s%d_%d' % (k, j) for j in range(m)]
    t.note(**{'scale%d' % k: (objs, atts, tb)})
    return Scale(fca.Context([r[:] for r in tb], objs[:], atts[:])), (objs, atts, tb)


def test_scaling(t):
    rng = t.rng
    numeric = rng.random() < 0.5
    c, objs, atts, tb = mv(t, values=rng.choice([[0, 1, 2, 3, 7, 5.5, '1', '4'], [2, 2.0000000001, 3, 3.0000000001, 2.9999999999, 7.0]]) if numeric else [1, 2, 'x', 'nope', '7', ''])
    conds = CONDS if numeric else [x for x in CONDS if '<' not in x and '>' not in x]
    sc = [make_scale(t, k, conds) for k in range(len(atts))]
    scales = [s for s, _ in sc]
    r = scale_mvcontext(c, scales)
    want_atts = [atts[k] + ':' + a for k, (_, (_, sa, _)) in enumerate(sc) for a in sa]
    rows = []
    for i in range(len(objs)):
        row = []
        for k, (_, (so, sa, st)) in enumerate(sc):
            for j in range(len(sa)):
                row.append(any(st[g][j] and eval(so[g], {'value': value(tb[i][k])}) for g in range(len(so))))
        rows.append(row)
    same(t, r, M(objs, want_atts, rows), 'scaled context')
    same_mv(t, c, objs, atts, tb, 'many-valued context after scaling')
    for s, (so, sa, st) in sc:
        same(t, s, M(so, sa, st), 'scale after scaling')


def test_nominal(t):
    rng = t.rng
    strings = ['x', 'y', 'z z', 'X', '1a']
    nums = [0, 1, 2, '3', 4.5, '1', -2]
    close = [1.00000001, 1.00000002, 1.0, 2 ** 53, 2 ** 53 + 2, 1e-9, 2e-9, 1e300, '1.00000001', 123456789.125, 123456789.25]
    odd = ["it's", 'a"b', "b'c\"", None, 'None', 'back\\slash', 10 ** 400, 'é', '']
    kind = rng.randrange(5)
    c, objs, atts, tb = mv(t, values=[strings, nums, strings + nums, close, odd + nums][kind])
    if not atts:
        return
    k = rng.randrange(len(atts))
    s = NominalScale(rng.choice([k, atts[k]]), c)
    vals = {value(r[k]) for r in tb}
    t.eq(len(s.objects), len(vals), 'nominal scale: one object per value')
    t.eq(len(s.attributes), len(vals), 'nominal scale: one attribute per value')
    r = scale_mvcontext(c, [s if j == k else fca.Scale(fca.Context([], [], [])) for j in range(len(atts))])
    t.eq(list(r.objects), objs, 'scaled objects')
    t.eq(len(r.attributes), len(vals), 'scaled attributes')
    t.eq(set(r.attributes), {atts[k] + ':' + (str(v) if isinstance(v, float) else repr(v)) for v in vals}, 'names of the scaled attributes')
    for i in range(len(objs)):
        t.eq(sum(map(bool, r[i])), 1, 'exactly one nominal attribute of %r' % objs[i])
        for j in range(len(objs)):
            t.eq(list(map(bool, r[i])) == list(map(bool, r[j])), value(tb[i][k]) == value(tb[j][k]), 'nominal scale separates exactly different values')


def test_ordinal(t):
    rng = t.rng
    a = rng.randint(-3, 3)
    b = a + rng.randint(0, 5)
    mode = rng.choice(['leq', 'geq'])
    t.note(min=a, max=b, mode=mode)
    s = OrdinalScale(a, b, mode) if mode == 'geq' or rng.random() < 0.5 else OrdinalScale(a, b)
    vals = list(range(a, b + 1))
    bounds = vals[1:] if mode == 'geq' else vals[:-1]
    sign = '>=' if mode == 'geq' else '<='
    same(t, s, M(['value == %s' % v for v in vals], ['%s %s' % (sign, w) for w in bounds], [[(v >= w if mode == 'geq' else v <= w) for w in bounds] for v in vals]), 'ordinal scale')
    data = [rng.choice(vals) for _ in range(rng.randint(1, 5))]
    c = ManyValuedContext([[v] for v in data], ['g%d' % i for i in range(len(data))], ['m'])
    r = scale_mvcontext(c, [s])
    same(t, r, M(list(c.objects), ['m:%s %s' % (sign, w) for w in bounds], [[(v >= w if mode == 'geq' else v <= w) for w in bounds] for v in data]), 'scaled by the ordinal scale')


TESTS = [('values', test_values), ('rejects', test_rejects), ('subcontexts', test_subcontexts), ('scaling', test_scaling), ('nominal', test_nominal), ('ordinal', test_ordinal)]
