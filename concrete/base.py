"""Concrete counterpart of the contracts: random and exhaustive inputs for the real code, judged by
brute-force definitions.  Runs under the interpreter fca is installed for."""
import itertools
import random
import signal
import sys


class Fail(Exception):
    pass


class Tester:
    def __init__(self, name, i, seed):
        self.name, self.i, self.seed = name, i, seed
        self.rng = random.Random('%s:%s:%s' % (seed, name, i))
        self.notes = []
        self.knowns = []

    def known(self, key, what):
        self.knowns.append((key, what))

    def note(self, **kw):
        for k, v in kw.items():
            self.notes.append((k, repr(v)))

    def check(self, cond, msg, *more):
        if not cond:
            raise Fail(msg + (': ' + ', '.join(repr(m) for m in more) if more else ''))

    def eq(self, got, want, what):
        if type(got) is bool or not (got == want):
            if not (got == want):
                raise Fail('%s: got %r, expected %r' % (what, got, want))

    def raises(self, excs, what, f, *a, **k):
        try:
            r = f(*a, **k)
        except excs as e:
            return e
        except Exception as e:
            raise Fail('%s: raised %s instead of %s' % (what, type(e).__name__, excs))
        raise Fail('%s: returned %r instead of raising' % (what, r))


SMALL = [(n, m, bits) for n in range(4) for m in range(4) for bits in range(1 << (n * m))]
_perm = list(range(len(SMALL)))
random.Random(12345).shuffle(_perm)
SMALL = [SMALL[k] for k in _perm]


def small_table(k):
    n, m, bits = SMALL[k % len(SMALL)]
    return n, m, [[bool(bits >> (r * m + c) & 1) for c in range(m)] for r in range(n)]


def table(t, max_n=6, max_m=6):
    """exhaustive small tables first (every other call), random ones otherwise"""
    rng = t.rng
    if t.i % 2 == 0:
        n, m, tb = small_table(t.i // 2)
        if n <= max_n and m <= max_m:
            return n, m, tb
    n, m = rng.randint(0, max_n), rng.randint(0, max_m)
    style = rng.randrange(8)
    if style == 0:
        tb = [[r != c for c in range(m)] for r in range(n)]
    elif style == 1:
        tb = [[c <= r for c in range(m)] for r in range(n)]
    else:
        d = rng.choice([0.1, 0.3, 0.5, 0.5, 0.7, 0.9])
        tb = [[rng.random() < d for _ in range(m)] for _ in range(n)]
    if n > 1 and rng.random() < 0.4:
        for _ in range(rng.randint(1, 2)):
            tb[rng.randrange(n)] = list(tb[rng.randrange(n)])
    if n and rng.random() < 0.2:
        tb[rng.randrange(n)] = [True] * m
    if n and rng.random() < 0.2:
        tb[rng.randrange(n)] = [False] * m
    if m > 1 and rng.random() < 0.3:
        a, b = rng.randrange(m), rng.randrange(m)
        for r in tb:
            r[a] = r[b]
    return n, m, tb


def names(t, k, prefix, strings=False):
    rng = t.rng
    style = rng.randrange(6)
    if style == 0 and not strings:
        ns = rng.sample(range(-3, k + 5), k)
    elif style == 1:
        ns = ['%s%d' % (prefix, j) for j in range(k)]
    elif style == 2:
        ns = rng.sample(['a', 'b', 'c', 'd', 'e', 'f', 'a_0', 'a_1', 'b_1', 'ab', 'B', '_', '', ' x', 'ä'] + ['z%d' % j for j in range(k)], k)
    else:
        ns = ['%s%d' % (prefix, j) for j in range(k)]
        rng.shuffle(ns)
    return ns


class M:
    """reference model of a context"""
    def __init__(self, objs, atts, rows):
        self.objs, self.atts, self.rows = list(objs), list(atts), [list(map(bool, r)) for r in rows]

    def copy(self):
        return M(self.objs, self.atts, self.rows)

    def intent(self, o):
        r = self.rows[self.objs.index(o)]
        return {a for a, x in zip(self.atts, r) if x}

    def extent(self, a):
        j = self.atts.index(a)
        return {o for o, r in zip(self.objs, self.rows) if r[j]}

    def up(self, objs):
        s = set(self.atts)
        for o in objs:
            s &= self.intent(o)
        return s

    def down(self, atts):
        return {o for o in self.objs if set(atts) <= self.intent(o)}

    def cl(self, atts):
        return self.up(self.down(atts))

    def ocl(self, objs):
        return self.down(self.up(objs))

    def intents(self):
        """all closed attribute sets"""
        out = {frozenset(self.atts)}
        for o in self.objs:
            x = frozenset(self.intent(o))
            out |= {x & y for y in out}
        return out

    def concepts(self):
        return {(frozenset(self.down(b)), b) for b in self.intents()}

    def pairs(self):
        return {(o, a) for o in self.objs for a in self.intent(o)}

    def transpose(self):
        return M(self.atts, self.objs, [[r[j] for r in self.rows] for j in range(len(self.atts))])

    def show(self):
        return {'objects': self.objs, 'attributes': self.atts, 'table': [[int(x) for x in r] for r in self.rows]}


def subsets(xs):
    xs = list(xs)
    for k in range(len(xs) + 1):
        for c in itertools.combinations(xs, k):
            yield set(c)


def clos(imps, s):
    """closure of s under (premise, conclusion) pairs"""
    s = set(s)
    ch = True
    while ch:
        ch = False
        for p, c in imps:
            if p <= s and not c <= s:
                s |= c
                ch = True
    return s


def pseudo(cl, atts):
    """pseudo-closed sets of the closure operator cl, by definition"""
    ps = []
    for x in subsets(atts):
        c = cl(x)
        if c == x:
            continue
        if all(not (p < x) or c2 <= x for p, c2 in ps):
            ps.append((frozenset(x), frozenset(c)))
    return ps


def next_closure(masks, k, limit=3000):
    """pseudo-closed sets of a table given as integers, by NextClosure; None beyond the limit"""
    full = (1 << k) - 1

    def cl(x):
        c = full
        for r in masks:
            if x & ~r == 0:
                c &= r
        return c
    out, x, steps = [], 0, 0

    def imp(x):
        while True:
            y = x
            for p, q in out:
                if p & ~x == 0 and p != x:
                    x |= q
            if x == y:
                return x
    while True:
        steps += 1
        if steps > limit:
            return None
        c = cl(x)
        if c != x:
            out.append((x, c))
        if x == full:
            return out
        for j in range(k - 1, -1, -1):
            if x >> j & 1:
                continue
            low = x & ((1 << j) - 1)
            y = imp(low | 1 << j)
            if y & ((1 << j) - 1) == low:
                x = y
                break


def wide_pseudo(t, m):
    """canonical basis of a wide context, None where it takes too long"""
    k = len(m.atts)
    ps = next_closure([sum(1 << j for j in range(k) if r[j]) for r in m.rows], k)
    f = lambda v: frozenset(m.atts[j] for j in range(k) if v >> j & 1)
    return None if ps is None else {(f(p), f(q)) for p, q in ps}


def random_subset(rng, xs, p=None):
    p = rng.random() if p is None else p
    return {x for x in xs if rng.random() < p}


def context(t, max_n=6, max_m=6, strings=False, min_n=0, min_m=0):
    import fca
    while True:
        n, m, tb = table(t, max_n, max_m)
        if n >= min_n and m >= min_m:
            break
        t.i = 2 * t.rng.randrange(1000) + t.rng.randrange(2)
    objs, atts = names(t, n, 'g', strings), names(t, m, 'm', strings)
    mod = M(objs, atts, tb)
    t.note(context=mod.show())
    return fca.Context([list(r) for r in tb], list(objs), list(atts)), mod


def wide_context(t, n=None, m=None):
    """more columns (or rows) than machine words have bits"""
    import fca
    rng = t.rng
    n, m = n if n is not None else rng.randint(2, 6), m if m is not None else rng.choice([31, 32, 33, 63, 64, 65, 66, 70, 100])
    base = [[rng.random() < 0.5 for _ in range(m)] for _ in range(n)]
    for r in range(n):
        k = rng.random()
        if k < 0.3 and r:
            base[r] = list(base[rng.randrange(r)])
            base[r][rng.randrange(m)] ^= True
        elif k < 0.6 and r >= 2:
            a, b = rng.randrange(r), rng.randrange(r)
            base[r] = [x and y for x, y in zip(base[a], base[b])]
        elif k < 0.7:
            base[r] = [True] * m
    if rng.random() < 0.5:
        base = [[r[c] for r in base] for c in range(m)]
    n, m = len(base), len(base[0])
    objs, atts = ['g%d' % i for i in range(n)], ['m%d' % i for i in range(m)]
    mod = M(objs, atts, base)
    t.note(context=mod.show())
    return fca.Context([list(r) for r in base], objs[:], atts[:]), mod


def same(t, c, mod, what='context'):
    """c is exactly the context described by the model, in every representation"""
    t.eq(list(c.objects), mod.objs, what + ': objects')
    t.eq(list(c.attributes), mod.atts, what + ': attributes')
    n, m = len(mod.objs), len(mod.atts)
    t.eq(len(c), n, what + ': length')
    t.eq([[bool(x) for x in r] for r in c.table], mod.rows, what + ': table')
    t.eq([list(map(bool, r)) for r in c.cross_table], mod.rows, what + ': cross_table')
    t.eq(tuple(c.np_table.shape), (n, m), what + ': table shape')
    for i, o in enumerate(mod.objs):
        w = {a for a, x in zip(mod.atts, mod.rows[i]) if x}
        t.eq(c.get_object_intent(o), w, what + ': intent of %r' % (o,))
        t.eq(c.get_object_intent_by_index(i), w, what + ': intent of row %d' % i)
        for j, a in enumerate(mod.atts):
            t.eq(bool(c[i][j]), mod.rows[i][j], what + ': cell %d,%d' % (i, j))
            t.eq(bool(c.get_value(o, a)), mod.rows[i][j], what + ': value %r,%r' % (o, a))
    for j, a in enumerate(mod.atts):
        w = {o for o, r in zip(mod.objs, mod.rows) if r[j]}
        t.eq(c.get_attribute_extent(a), w, what + ': extent of %r' % (a,))
        t.eq(c.get_attribute_extent_by_index(j), w, what + ': extent of column %d' % j)
    ps = list(c.object_attribute_pairs)
    t.eq(len(ps), len(set(ps)), what + ': repeated pairs')
    t.eq(set(ps), mod.pairs(), what + ': pairs')
    t.eq([set(e) for e in c.examples()], [mod.intent(o) for o in mod.objs], what + ': examples')
    t.eq([set(e) for e in c.intents()], [mod.intent(o) for o in mod.objs], what + ': intents')


def model_of(c):
    return M(list(c.objects), list(c.attributes), [list(map(bool, r)) for r in c.np_table])


def imp_pairs(imps):
    return [(frozenset(i.premise), frozenset(i._conclusion | i._premise)) for i in imps]


def imp_snapshot(imps):
    return [(id(i), set(i._premise), set(i._conclusion)) for i in imps]
