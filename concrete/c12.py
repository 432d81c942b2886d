import fca
from fca.algorithms import factors as F
from . import hist
from .base import *


def is_concept(t, m, f, what):
    t.check(m.up(f.extent) == set(f.intent) and m.down(f.intent) == set(f.extent), what + ': factor is not a concept', f)


def rebuild(t, m, fs, covered, what):
    of, fa = F.make_factor_cxts(tuple(fs))
    t.eq(len(of.attributes), len(fs), what + ': number of factors')
    t.eq(list(of.attributes), list(fa.objects), what + ': factor names agree')
    t.eq(set(of.objects), {o for f in fs for o in f.extent}, what + ': objects')
    t.eq(set(fa.attributes), {a for f in fs for a in f.intent}, what + ': attributes')
    for k, f in enumerate(fs):
        t.eq(of.get_attribute_extent(of.attributes[k]), set(f.extent), what + ': extent of factor %d' % k)
        t.eq(fa.get_object_intent(fa.objects[k]), set(f.intent), what + ': intent of factor %d' % k)
    p = of * fa
    t.eq({(o, a) for o, a in p.object_attribute_pairs}, covered, what + ': product of the factor contexts')


def judge(t, c, m, alg, fid, what, report=True):
    before = hist.frozen(c)
    total = m.pairs()
    U = set(total)
    fs = []
    for f, share in alg(c, fid):
        t.eq(hist.frozen(c), before, what + ': context during the factorisation')
        is_concept(t, m, f, what)
        t.check((len(total) - len(U)) / len(total) < fid, what + ': a factor after the fidelity is reached')
        new = {(o, a) for o in f.extent for a in f.intent} & U
        t.check(new, what + ': a factor that covers nothing new')
        if report:
            t.check(abs(share - len(new) / len(total)) < 1e-9, what + ': reported coverage', share, len(new) / len(total))
        U -= new
        fs.append(f)
        t.check(len(fs) <= len(total), what + ': too many factors')
    if total:
        t.check((len(total) - len(U)) / len(total) >= fid, what + ': covered share', (len(total) - len(U)) / len(total))
    covered = total - U
    t.eq({(o, a) for f in fs for o in f.extent for a in f.intent}, covered, what + ': rectangles')
    if fid == 1:
        t.eq(covered, total, what + ': all crosses are covered')
    rebuild(t, m, fs, covered, what)
    t.eq(hist.frozen(c), before, what + ': context')
    return fs


def test_algorithm2(t):
    c, m = context(t, 5, 5)
    fid = t.rng.choice([1, 1, 1.0, 0.5, 0.9, 0.3, t.rng.random() or 1])
    t.note(fidelity=fid)
    judge(t, c, m, F.algorithm2, fid, 'algorithm2')
    judge(t, c, m, F.algorithm2_weighted, fid, 'algorithm2_weighted', report=False)
    judge(t, c, m, lambda c, f: F.algorithm2(c), 1, 'algorithm2 by default')
    judge(t, c, m, lambda c, f: F.algorithm2_weighted(c), 1, 'algorithm2_weighted by default', report=False)


def test_condition(t):
    rng = t.rng
    c, m = context(t, 7, 7)
    fid = rng.choice([1, 1, 0.5, 0.9])
    rep, mn, ge = rng.random() < 0.5, rng.choice([0, 1, 1, 2, 2, 3]), rng.random() < 0.5
    t.note(fidelity=fid, repetitions=rep, minimum=mn, objs_ge_atts=ge)
    before = hist.frozen(c)
    k = 0
    last = 0
    for x in F.algorithm2_w_condition(c, fid, rep, mn, ge):
        f = x[0]
        is_concept(t, m, f, 'conditional')
        t.check(len(f.extent) >= mn and len(f.intent) >= mn, 'conditional: minimum size', f)
        if ge:
            t.check(len(f.extent) >= len(f.intent), 'conditional: objects at least attributes', f)
        k += 1
        t.check(k <= len(m.pairs()), 'conditional: too many factors')
    t.eq(hist.frozen(c), before, 'context')


def test_make(t):
    """factor contexts of any list of concepts"""
    c, m = context(t, 5, 5)
    cs = list(c.concepts)
    fs = [f for f in cs if t.rng.random() < 0.5]
    t.note(factors=[(f.extent, f.intent) for f in fs])
    snap = [(set(f.extent), set(f.intent)) for f in fs]
    rebuild(t, m, fs, {(o, a) for f in fs for o in f.extent for a in f.intent}, 'make_factor_cxts')
    t.eq([(f.extent, f.intent) for f in fs], snap, 'factors')
    a, b = F.make_factor_cxts()
    t.eq((len(a), len(b)), (0, 0), 'no factors')
    a, b = F.make_factor_cxts([])
    t.eq((len(a), len(b)), (0, 0), 'no factors')


def test_larger(t):
    rng = t.rng
    n, k = rng.randint(5, 9), rng.randint(5, 9)
    d = rng.choice([0.3, 0.5, 0.7])
    tb = [[rng.random() < d for _ in range(k)] for _ in range(n)]
    m = M(['g%d' % i for i in range(n)], ['m%d' % i for i in range(k)], tb)
    t.note(context=m.show())
    c = fca.Context(tb, m.objs[:], m.atts[:])
    judge(t, c, m, F.algorithm2, 1, 'algorithm2')
    judge(t, c, m, F.algorithm2_weighted, 1, 'algorithm2_weighted', report=False)


TESTS = [('algorithm2', test_algorithm2), ('condition', test_condition), ('make', test_make), ('larger', test_larger)]
