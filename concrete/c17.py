import ast
import csv
import os
import fca
from fca.readwrite import tab_separated as ts, comma_separated as cs, cxt as rc, xml_ as rx
from fca.mvcontext import ManyValuedContext
from .base import *

POOL = ['a', 'b c', 'x1', 'B', 'X..X', '.', 'X', 'name-with-dash', 'ä', 'öß', 'a,b', 'a;b', "it's", 'say "hi"', 'a\\b', '__import__', 'os.getcwd()', 'print(1)', 'len', '[].append', 'open("evil","w")',
        '__import__("os").system("touch evil")', 'exec("x=1")', 'a=1', 'lambda: 0', 'a#b', '%s', '{}x', '=> ', '-', '--', '_', 'None_', 'Trueish', '1a', 'a_0', 'm0_', '中文', 'a  b', '(x', 'x)', '[1,', '0x', '/', '\\n', 'value > 3', '1 < 2']
POOL = [p.strip() for p in POOL]


def literal(s):
    try:
        hash(ast.literal_eval(s))
        return True
    except Exception:
        return False


PLAIN = [p for p in POOL if not literal(p)]


def pick(t, k, pool, ints=True):
    rng = t.rng
    xs = rng.sample(pool, min(k, len(pool)))
    if ints and rng.random() < 0.4:
        xs = [rng.randint(-50, 50) * 100 + j if rng.random() < 0.5 else x for j, x in enumerate(xs)]
    return xs


def strict(t, c, m, what):
    same(t, c, m, what)
    t.eq([type(x) for x in c.objects], [type(x) for x in m.objs], what + ': types of object names')
    t.eq([type(x) for x in c.attributes], [type(x) for x in m.atts], what + ': types of attribute names')


def make(t, objs, atts):
    tb = table(t, 6, 6)[2]
    rng = t.rng
    rows = [[rng.random() < 0.5 for _ in atts] for _ in objs]
    m = M(objs, atts, rows)
    t.note(context=m.show())
    return fca.Context([r[:] for r in rows], objs[:], atts[:]), m


def test_cxt(t):
    rng = t.rng
    c, m = make(t, pick(t, rng.randint(0, 6), PLAIN), pick(t, rng.randint(0, 6), PLAIN))
    before = set(os.listdir('.'))
    rc.write_cxt(c, 'out.cxt')
    same(t, c, m, 'context after writing')
    d = rc.read_cxt('out.cxt')
    strict(t, d, m, 'read back')
    t.check(d == c, 'the context read back is equal')
    rc.write_cxt(d, 'again.cxt')
    t.eq(open('again.cxt').read(), open('out.cxt').read(), 'written again')
    t.eq(set(os.listdir('.')) - before - {'out.cxt', 'again.cxt'}, set(), 'files created while reading')


def test_no_code(t):
    """names are never evaluated"""
    rng = t.rng
    c, m = make(t, pick(t, 3, [p for p in PLAIN if '(' in p], False), ['open("evil2","w").write("x")', 'fca.__name__', 'exit()'][:rng.randint(1, 3)])
    for w, r in ((rc.write_cxt, rc.read_cxt), (rc.uwrite_cxt, rc.uread_cxt)):
        w(c, 'code.cxt')
        strict(t, r('code.cxt'), m, 'read back')
    t.check(not os.path.exists('evil') and not os.path.exists('evil2'), 'a name was run as code')


def test_ucxt(t):
    rng = t.rng
    pool = POOL + ['1', '-2', 'None', 'True', '(1, 2)', "'q'"]
    c, m = make(t, pick(t, rng.randint(0, 6), pool, False), pick(t, rng.randint(0, 6), pool, False))
    rc.uwrite_cxt(c, 'u.cxt')
    d = rc.uread_cxt('u.cxt')
    strict(t, d, m, 'read back')
    same(t, c, m, 'context after writing')


def test_malformed(t):
    """a file that is not a context file is not read as one"""
    with open('bad.cxt', 'w') as f:
        f.write(t.rng.choice(['', 'C\n\n1\n1\n\na\nb\nX\n', 'B\n\nx\n1\n\na\nb\nX\n', 'B\n\n2\n1\n\na\nb\nc\nX.\nX\n', 'B\n\n1\n2\n\na\nb\nc\nX\n']))
    for r in (rc.read_cxt, rc.uread_cxt):
        t.raises((AssertionError, ValueError, fca.context.ContextException), 'malformed file', r, 'bad.cxt')


TAB = [p for p in POOL if '"' not in p and '\t' not in p]


def test_txt(t):
    rng = t.rng
    objs, atts = pick(t, rng.randint(1, 5), TAB + ['0', '1', '10'], False), pick(t, rng.randint(1, 5), TAB + ['0', '1'], False)
    c, m = make(t, objs, atts)
    with open('a.txt', 'w') as f:
        f.write('\t'.join(atts) + '\n\n' + ''.join('\t'.join('1' if x else '0' for x in r) + '\n' for r in m.rows))
    strict(t, ts.read_txt('a.txt'), M(['g%d' % (i + 1) for i in range(len(objs))], atts, m.rows), 'read_txt')
    with open('b.txt', 'w') as f:
        f.write('\t'.join(atts) + '\n\n' + ''.join('\t'.join([o] + ['1' if x else '0' for x in r]) + '\n' for o, r in zip(objs, m.rows)))
    strict(t, ts.read_txt_with_names('b.txt'), m, 'read_txt_with_names')


def test_mv_txt(t):
    rng = t.rng
    objs, atts = pick(t, rng.randint(1, 5), TAB + ['0', '1'], False), pick(t, rng.randint(1, 5), TAB + ['0', '1'], False)
    vals = ['1', '0', 'x', 'y z', '2.5', 'ä', '-', ' pad ', 'None', "q'"]
    tb = [[rng.choice(vals) for _ in atts] for _ in objs]
    t.note(objects=objs, attributes=atts, table=tb)
    c = ManyValuedContext([r[:] for r in tb], objs[:], atts[:])
    for w, r in ((ts.write_mv_txt, ts.read_mv_txt), (ts.uwrite_mv_txt, ts.uread_mv_txt)):
        w(c, 'mv.txt')
        d = r('mv.txt')
        t.check(type(d) is ManyValuedContext, 'type')
        t.eq((list(d.objects), list(d.attributes), [list(x) for x in d.table]), (objs, atts, tb), r.__name__)
    t.eq((list(c.objects), list(c.attributes), [list(x) for x in c.table]), (objs, atts, tb), 'the context written')


def test_mv_numbers(t):
    """numbers are written as text"""
    rng = t.rng
    objs, atts = ['g%d' % i for i in range(rng.randint(1, 4))], ['m%d' % i for i in range(rng.randint(1, 4))]
    tb = [[rng.choice([1, 2.5, 'x', -7, True]) for _ in atts] for _ in objs]
    t.note(table=tb)
    c = ManyValuedContext([r[:] for r in tb], objs[:], atts[:])
    ts.write_mv_txt(c, 'mv.txt')
    t.eq([list(x) for x in ts.read_mv_txt('mv.txt').table], [[str(x) for x in r] for r in tb], 'values as text')


def test_csv(t):
    rng = t.rng
    objs, atts = pick(t, rng.randint(0, 5), POOL + ['0', '1'], False), pick(t, rng.randint(1, 5), POOL + ['0', '1'], False)
    objs = [o for o in objs if o]
    vals = ['1', '0', 'x', 'y, z', '2.5', 'ä', '', ' pad ', 'q"q']
    tb = [[rng.choice(vals) for _ in atts] for _ in objs]
    t.note(objects=objs, attributes=atts, table=tb)

    def write(tb):
        with open('a.csv', 'w', newline='') as f:
            w = csv.writer(f)
            w.writerow(atts)
            for o, r in zip(objs, tb):
                w.writerow([o] + r)
    write(tb)
    d = cs.read_mv_csv('a.csv')
    t.check(type(d) is ManyValuedContext, 'type')
    t.eq((list(d.objects), list(d.attributes), [list(x) for x in d.table]), (objs, atts, tb), 'read_mv_csv')
    rows = [[rng.random() < 0.5 for _ in atts] for _ in objs]
    write([['1' if x else '0' for x in r] for r in rows])
    strict(t, cs.read_csv('a.csv'), M(objs, atts, rows), 'read_csv')


def test_xml(t):
    rng = t.rng
    xp = [p for p in POOL if p] + ['<tag>', 'a&b', '&amp;', '"q"', "'s'", 'a]]>b', '1', '0', 'o1', 'a1', 'ref']
    if rng.random() < 0.7:
        c, m = make(t, pick(t, rng.randint(0, 5), xp, False), pick(t, rng.randint(0, 5), xp, False))
        lat = fca.ConceptLattice(c) if rng.random() < 0.5 else fca.ConceptSystem(c.concepts)
    else:
        lat = fca.ConceptSystem([fca.Concept(random_subset(rng, xp, 0.2), random_subset(rng, xp, 0.2)) for _ in range(rng.randint(0, 4))])
    want = []
    for k in lat:
        for key in ('Intensional stability', 'Separation', 'x', 'long name here'):
            if rng.random() < 0.5:
                k.meta[key] = rng.choice([0.5, 1.0, 0.1, 1e-9, 3, 0.3333333333333333, 12345678901234567])
        want.append((frozenset(k.extent), frozenset(k.intent), dict(k.meta)))
    t.note(concepts=want)
    rx.write_xml('c.xml', lat)
    t.eq([(frozenset(k.extent), frozenset(k.intent), dict(k.meta)) for k in lat], want, 'the concepts written')
    for r in (rx.read_xml, rx.uread_xml):
        d = r('c.xml')
        t.check(isinstance(d, fca.ConceptSystem), 'type')
        t.eq([(frozenset(k.extent), frozenset(k.intent), {a: float(b) for a, b in k.meta.items()}) for k in d], [(e, i, {a: float(b) for a, b in mm.items()}) for e, i, mm in want], r.__name__)
    # what one reading returns is not shared with the next
    d1, d2 = rx.read_xml('c.xml'), rx.read_xml('c.xml')
    if len(d1):
        d1.remove(list(d1)[0])
        t.eq(len(d2), len(want), 'another reading')


TESTS = [('cxt', test_cxt), ('no_code', test_no_code), ('ucxt', test_ucxt), ('malformed', test_malformed), ('txt', test_txt), ('mv_txt', test_mv_txt), ('mv_numbers', test_mv_numbers), ('csv', test_csv), ('xml', test_xml)]
