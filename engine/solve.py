"""Discharging obligations: z3 (E-matching only), z3 (default), cvc5."""
import os
import subprocess
import tempfile
import time
from z3 import *
from . import logic as L
from .core import str_distinct, pattern_args

T1, T2, T3 = 4000, 6000, 15
FAST = False                               # development aid: fewer attempts


def has_lambda(fs):
    seen, st = set(), list(fs)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if is_quantifier(t):
            if t.is_lambda():
                return True
            st.append(t.body())
        elif is_app(t):
            st.extend(t.children())
    return False


SETOPS = {Z3_OP_SET_COMPLEMENT: 'not', Z3_OP_SET_UNION: 'union', Z3_OP_SET_INTERSECT: 'inter', Z3_OP_SET_DIFFERENCE: 'minus'}


def without_setops(fs):
    """z3's set operations as functions with their defining axioms (for other solvers)"""
    used = {}
    memo = {}
    n = [0]
    from z3 import z3 as z
    mapped = {'and': Z3_OP_SET_INTERSECT, 'or': Z3_OP_SET_UNION, 'not': Z3_OP_SET_COMPLEMENT}

    def kind(d):
        k = d.kind()
        if k == Z3_OP_ARRAY_MAP:
            g = z.FuncDeclRef(z.Z3_get_decl_func_decl_parameter(d.ctx_ref(), d.ast, 0), d.ctx)
            return mapped.get(g.name(), k)
        return k

    def fn(k, s):
        key = (k, s.name() if s.kind() != Z3_ARRAY_SORT else L.sname(s))
        if key not in used:
            A = ArraySort(s, BoolSort())
            f = Function('Set_%s_%s' % (SETOPS[k], key[1]), A, A, A)
            a, b = Consts('a b', A)
            x = Const('x', s)
            if k == Z3_OP_SET_COMPLEMENT:
                f = Function('Set_not_' + key[1], A, A)
                used[key] = (f, ForAll([a, x], f(a)[x] == Not(a[x]), patterns=[f(a)[x], MultiPattern(f(a), a[x])]))
                return f
            r = {Z3_OP_SET_UNION: Or(a[x], b[x]), Z3_OP_SET_INTERSECT: And(a[x], b[x]), Z3_OP_SET_DIFFERENCE: And(a[x], Not(b[x]))}[k]
            used[key] = (f, ForAll([a, b, x], f(a, b)[x] == r, patterns=[f(a, b)[x], MultiPattern(f(a, b), a[x]), MultiPattern(f(a, b), b[x])]))
        return used[key][0]

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i][1]
        if is_quantifier(t):
            vs = []
            for j in range(t.num_vars()):
                n[0] += 1
                vs.append(Const('%s!c%d' % (t.var_name(j), n[0]), t.var_sort(j)))
            inst = lambda u: substitute_vars(u, *reversed(vs))
            body = go(inst(t.body()))
            ps = []
            for j in range(t.num_patterns()):
                ps.append([go(inst(u)) for u in pattern_args(t.pattern(j))])
            ps = [MultiPattern(*p) if len(p) > 1 else p[0] for p in ps]
            r = (ForAll if t.is_forall() else Exists)(vs, body, patterns=ps)
        elif is_app(t) and t.num_args():
            cs = [go(c) for c in t.children()]
            k = kind(t.decl())
            if k == Z3_OP_SET_COMPLEMENT:
                r = fn(k, t.sort().domain())(cs[0])
            elif k in SETOPS:
                f = fn(k, t.sort().domain())
                r = cs[0]
                for c in cs[1:]:
                    r = f(r, c)
            elif all(c.eq(d) for c, d in zip(cs, t.children())):
                r = t
            elif k in (Z3_OP_AND, Z3_OP_OR):
                r = And(*cs) if k == Z3_OP_AND else Or(*cs)
            else:
                r = t.decl()(*cs)
        else:
            r = t
        memo[i] = (t, r)
        return r
    out = [go(f) for f in fs]
    return out + [ax for _, ax in used.values()]


def smt2(fs):
    s = Solver()
    s.add(*without_setops(fs))
    txt = s.to_smt2()
    return txt


def attempt(fs, timeout, ematch, seed=0):
    s = Solver()
    s.set('timeout', timeout)
    if ematch:
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        s.set('smt.solve_eqs', False)
    if seed:
        s.set('smt.random_seed', seed)
    s.add(*fs)
    r = s.check()
    return r, (s.reason_unknown() if r == unknown else ''), s


_syms = {}


def own_symbols(f):
    i = f.get_id()
    if i not in _syms:
        _syms[i] = (f, frozenset(n for n in L.symbols(f, set()) if n not in L._axioms))
    return _syms[i][1]


def mention(fs):
    """closed terms for sets that occur only under quantifiers (so that they can match patterns)"""
    out, have = [], set()
    memo = {}

    def closed(t):
        i = t.get_id()
        if i not in memo:
            memo[i] = (t, not is_var(t) and not is_quantifier(t) and all(closed(c) for c in t.children()))
        return memo[i][1]

    def go(t, seen):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if is_quantifier(t):
            go(t.body(), seen)
            return
        if is_app(t):
            if t.num_args() and t.decl().kind() == Z3_OP_UNINTERPRETED and t.sort().kind() == Z3_ARRAY_SORT and closed(t):
                if t.get_id() not in have:
                    have.add(t.get_id())
                    out.append(Function('Touch_' + L.sname(t.sort()), t.sort(), BoolSort())(t))
                return
            for c in t.children():
                go(c, seen)
    seen = set()
    for f in fs:
        if is_quantifier(f) or any(is_quantifier(c) for c in f.children()):
            go(f, seen)
    return out[:40]


def relevant(hyps, goal, rounds, slack):
    """hypotheses connected to the goal by the symbols they use (leaving hypotheses out is sound)"""
    reach = set(own_symbols(goal))
    todo, out = [], []
    for h in hyps:
        if is_quantifier(h) or any(is_quantifier(c) for c in (h.children() if is_and(h) or is_or(h) else [])):
            todo.append(h)
        else:
            out.append(h)
            if is_eq(h) and any(is_const(c) for c in h.children()):
                todo.append(h)
    seen = set()
    for r in range(rounds):
        new = set()
        for h in todo:
            if h.get_id() in seen:
                continue
            s = own_symbols(h)
            if s & reach and len(s - reach) <= slack:
                seen.add(h.get_id())
                new |= s
        reach |= new
    keep = set(h.get_id() for h in out) | seen
    return [h for h in hyps if h.get_id() in keep]


def discharge(ob, scale=1.0):
    """-> dict(status, backend, time, reason, axioms); the parts of a goal are separate queries"""
    parts = split(ob.goal, [], [])
    if len(parts) > 6:
        parts = [skolemise(ob.goal)]
    out = None
    for g, touched in parts:
        r = discharge1(ob, g, touched, scale)
        if out is None:
            out = r
        else:
            out = dict(r, time=out['time'] + r['time'], axioms=sorted(set(out['axioms']) | set(r['axioms'])),
                       backend=out['backend'] if r['backend'] in (out['backend'], 'simplifier') else r['backend'] if out['backend'] == 'simplifier' else '%s, %s' % (out['backend'], r['backend']))
        if r['status'] != 'proved':
            out['part'] = str(g)[:2000]
            return out
    return out


def split(goal, pre, touched):
    g, t = skolemise(goal)
    touched = touched + t
    if is_implies(g):
        pre = pre + [g.arg(0)]
        g = g.arg(1)
    if is_and(g):
        return [x for c in g.children() for x in split(c, pre, touched)]
    if is_eq(g) and is_bool(g.arg(0)):
        a, b = g.children()
        return split(Implies(a, b), pre, touched) + split(Implies(b, a), pre, touched)
    return [(Implies(And(*pre), g) if pre else g, touched)]


_sk = [0]


def skolemise(goal):
    """the goal for arbitrary fresh constants; its pattern terms are mentioned so that they can trigger instances"""
    touched = []

    def touch(t):
        touched.append(Function('Touch_' + L.sname(t.sort()), t.sort(), BoolSort())(t))
    pre = []
    while True:
        if is_quantifier(goal) and goal.is_forall():
            _sk[0] += 1
            vs = [Const('%s!sk%d_%d' % (goal.var_name(j), _sk[0], j), goal.var_sort(j)) for j in range(goal.num_vars())]
            inst = lambda u: substitute_vars(u, *reversed(vs))
            for j in range(goal.num_patterns()):
                for u in pattern_args(goal.pattern(j)):
                    touch(inst(u))
            goal = inst(goal.body())
        elif is_implies(goal):
            pre.append(goal.arg(0))
            goal = goal.arg(1)
        else:
            break
    return (Implies(And(*pre), goal) if pre else goal), touched


def distinct(hyps):
    out = {}
    for h in hyps:
        if not is_true(h):
            out.setdefault(h.get_id(), h)
    return list(out.values())


def discharge1(ob, goal, touched, scale=1.0):
    t0 = time.time()
    if is_true(simplify(goal)) if not is_quantifier(goal) else False:
        return {'status': 'proved', 'backend': 'simplifier', 'time': 0.0, 'axioms': []}
    skolem_touch = touched
    touched = touched + mention(list(ob.hyps) + [goal])
    hyps = distinct(ob.hyps)
    fs = hyps + touched + [Not(goal)]
    upto = getattr(ob, 'upto', None)
    ax, labels = L.background(fs, False, upto)
    allf = fs + ax + str_distinct()
    reasons = []
    model = None
    fewer = [h for h in relevant(hyps, goal, 2, 2)]
    fewer = fewer + skolem_touch + mention(fewer + [goal]) + [Not(goal)]
    fewer = fewer + L.background(fewer, False, upto)[0] + str_distinct()
    same = len(fewer) == len(allf)
    bare = fs + L.background(fs, True, upto)[0] + str_distinct()
    lean = fs + L.background(fs, False, upto, lean=True)[0] + str_distinct()
    Q = T1 // 3
    ladder = [(allf, True, Q, 0), (fewer, True, Q, 0), (bare, True, Q, 0), (allf, 'sets', Q, 0), (allf, True, Q, 7), (lean, True, Q, 7),
              (allf, True, T1, 0), (allf, 'sets', T1, 0), (fewer, True, T1, 0), (fewer, 'sets', T1, 0), (allf, False, T2, 0), (lean, True, T1, 0), (allf, True, T1, 7)]
    for k, (fl, em, to, seed) in enumerate(ladder):
        to = int(to * scale)
        if FAST and k > 10:
            continue
        if fl is fewer and same or fl is bare and len(bare) == len(allf) or fl is lean and len(lean) == len(allf):
            continue
        if k == 6 and 'timeout' not in reasons[0]:
            continue
        try:
            r, why, s = attempt(without_setops(fl) if em == 'sets' else fl, to, bool(em), seed)
            if r == sat and (fl is fewer or fl is bare or fl is lean):
                continue
        except Z3Exception as e:
            reasons.append('z3: %s' % e)
            continue
        if r == unsat:
            return {'status': 'proved', 'backend': 'z3-' + get_version_string() + ('' if not em else ' (E-matching)'), 'time': time.time() - t0, 'axioms': labels}
        if r == sat:
            try:
                model = str(s.model())[:4000]
            except Z3Exception:
                model = None
            reasons.append('z3: sat')
            break
        reasons.append('z3: %s' % why)
    if ob.kind != 'unsupported' and not FAST and not is_false(goal) and not has_lambda(allf):
        r = cvc5(allf, T3 * scale)
        if r == 'unsat':
            return {'status': 'proved', 'backend': 'cvc5-1.1.2', 'time': time.time() - t0, 'axioms': labels}
        reasons.append('cvc5: %s' % r)
    return {'status': 'failed', 'backend': None, 'time': time.time() - t0, 'reason': '; '.join(reasons), 'model': model, 'axioms': labels}


def cvc5(fs, timeout):
    txt = smt2(fs)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + txt)
        p = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--full-saturate-quant', p], capture_output=True, text=True, timeout=timeout + 10)
        out = (r.stdout.strip().split('\n') or [''])[0]
        return out if out in ('sat', 'unsat', 'unknown') else (r.stdout + r.stderr).strip()[:200] or 'no answer'
    except subprocess.TimeoutExpired:
        return 'timeout'
    except OSError as e:
        return str(e)
    finally:
        os.unlink(p)


def vacuous(exits):
    """do the hypotheses of every normal exit contradict each other?"""
    for pc, _ in exits:
        ax, _l = L.background(pc)
        r, _w, _s = attempt(pc + ax + str_distinct(), 1500, True)
        if r != unsat:
            return False
    return True
