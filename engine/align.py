"""Which loop contract is meant for which loop.  Loop contracts are listed in the order of the loops of a function
(loopsigs.json keeps what these loops look like); where the source has other loops now, or in another order, they are
matched by what they do.  A wrong match can only make a proof fail: every invariant is established and preserved anew."""
import ast
import json
import os

_FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'loopsigs.json')
_sigs = None


def signature(s, depth=0):
    out = {type(s).__name__, 'depth %d' % depth}
    out.add('over ' + ast.unparse(s.iter if isinstance(s, ast.For) else s.test))
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add('= ' + n.id)
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            out.add('%s.%s' % (n.value.id, n.attr))
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            out.add(ast.unparse(n.value) + '[]')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            out.add(n.func.id + '()')
    return out


def signatures(loops):
    return [signature(s, sum(x is not s and any(y is s for y in ast.walk(x)) for x in loops)) for s in loops]


def stored(qual):
    global _sigs
    if _sigs is None:
        try:
            _sigs = {q: [set(x) for x in v] for q, v in json.load(open(_FILE)).items()}
        except FileNotFoundError:
            _sigs = {}
    return _sigs.get(qual)


def match(qual, loops):
    """position of a loop -> position of its contract"""
    same = {i: i for i in range(len(loops))}
    old = stored(qual)
    if old is None:
        return same
    new = signatures(loops)
    if new == old:
        return same
    like = lambda i, j: len(new[i] & old[j]) / len(new[i] | old[j])
    out, used, total = {}, set(), 0
    for sc, d, i, j in sorted(((like(i, j), -abs(i - j), i, j) for i in range(len(new)) for j in range(len(old))), reverse=True):
        if i not in out and j not in used:
            out[i] = j
            used.add(j)
            total += sc
    if len(new) == len(old) and total <= sum(like(i, i) for i in range(len(new))) + 0.5:
        return same
    return out


# ---- local variables under other names
_NAMES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'localnames.json')
_names = None


def locals_of(node):
    """local variables that are no parameters of anything; None where names are declared global or nonlocal"""
    out, args = set(), set()
    for n in ast.walk(node):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            return set()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            args.add(n.arg)
        elif n is not node and isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            args.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            args.add(n.name)
        elif isinstance(n, ast.alias):
            args.add(n.asname or n.name)
    return out - args


def tokens(node):
    """the function as a sequence: kinds of nodes and what they say, names apart"""
    ls, out = locals_of(node), []

    def go(n):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        d = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else n.arg if isinstance(n, (ast.arg, ast.keyword)) else repr(n.value) if isinstance(n, ast.Constant) else ''
        if isinstance(n, ast.Name) and n.id in ls:
            out.append(['local', n.id])
        elif not isinstance(n, (ast.Load, ast.Store)):
            out.append([type(n).__name__, str(d)])
        for c in ast.iter_child_nodes(n):
            go(c)
    go(node)
    return out


def functions(tree, path):
    """qualified names and nodes"""
    def go(body, pre):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                yield pre + s.name, s
            elif isinstance(s, ast.ClassDef):
                yield from go(s.body, pre + s.name + '.')
    return [(path + ':' + q, n) for q, n in go(tree.body, '')]


def rename_back(tree, path):
    """give local variables the names they have in the contracts: a consistent renaming to names that do not occur"""
    import difflib
    global _names
    if _names is None:
        try:
            _names = json.load(open(_NAMES))
        except FileNotFoundError:
            _names = {}
    for q, node in functions(tree, path):
        old = _names.get(q)
        if old is None:
            continue
        new = tokens(node)
        if new == old:
            continue
        mine = locals_of(node)
        theirs = {t[1] for t in old if t[0] == 'local'}
        known = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)} | {n.arg for n in ast.walk(node) if isinstance(n, ast.arg)} | {n.attr for n in ast.walk(node) if isinstance(n, ast.Attribute)}
        free, gone = mine - theirs, {x for x in theirs if x not in known}
        if not free or not gone:
            continue
        mask = lambda ts: [t[0] if t[0] == 'local' else '/'.join(t) for t in ts]
        votes = {}
        for a, b, n in difflib.SequenceMatcher(None, mask(new), mask(old), autojunk=False).get_matching_blocks():
            for i in range(n):
                if new[a + i][0] == 'local' and new[a + i][1] in free and old[b + i][1] in gone:
                    k = (new[a + i][1], old[b + i][1])
                    votes[k] = votes.get(k, 0) + 1
        to = {}
        for (x, y), n in sorted(votes.items(), key=lambda v: (-v[1], v[0])):
            if x not in to and y not in to.values():
                to[x] = y
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in to:
                n.id = to[n.id]
