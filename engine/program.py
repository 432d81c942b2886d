"""Loads /repo's sources and resolves names: every run parses the current working tree."""
import ast
import os
import warnings
from . import align


class Mod:
    def __init__(self, prog, path, name, is_pkg):
        self.prog, self.path, self.name, self.is_pkg = prog, path, name, is_pkg
        self.src = open(os.path.join(prog.root, path), encoding='utf-8').read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(self.src)
        align.rename_back(self.tree, path)
        self.table = None

    def build(self):
        if self.table is not None:
            return
        self.table = {}
        for st in self.tree.body:
            self._stmt(st)

    def _stmt(self, st):
        t = self.table
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            t[st.name] = ('def', st)
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    t[a.asname] = ('module', a.name)
                else:
                    t[a.name.split('.')[0]] = ('module', a.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            base = self._base(st)
            for a in st.names:
                if a.name == '*':
                    t.setdefault('*', []).append(base)
                else:
                    t[a.asname or a.name] = ('from', base, a.name)
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            t[st.targets[0].id] = ('expr', st.value)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
            t[st.target.id] = ('expr', st.value)
        elif isinstance(st, ast.Try):
            for s in st.body:
                self._stmt(s)

    def _base(self, st):
        if not st.level:
            return st.module
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        return '.'.join(parts + ([st.module] if st.module else []))

    def lookup(self, name):
        """('def', mod, node) | ('expr', mod, node) | ('module', name) | ('ext', dotted) | None"""
        return self._lookup(name, set())

    def _lookup(self, name, seen):
        if (self.name, name) in seen:
            return None
        seen.add((self.name, name))
        self.build()
        e = self.table.get(name)
        if e:
            if e[0] in ('def', 'expr'):
                return (e[0], self, e[1])
            if e[0] == 'module':
                return ('module', e[1])
            r = self.prog.attr(e[1], e[2], seen)
            if r:
                return r
        for base in self.table.get('*', []):
            m = self.prog.mods.get(base)
            if m:
                r = m._lookup(name, seen)
                if r:
                    return r
        if self.is_pkg and (self.name + '.' + name) in self.prog.mods:
            return ('module', self.name + '.' + name)
        return None


class Program:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        for d, ds, fs in os.walk(os.path.join(root, 'fca')):
            ds[:] = [x for x in ds if x not in ('tests', 'examples', '__pycache__')]
            for f in fs:
                if f.endswith('.py') and 'test' not in f:
                    p = os.path.relpath(os.path.join(d, f), root)
                    n = p[:-3].replace(os.sep, '.')
                    pkg = n.endswith('.__init__')
                    if pkg:
                        n = n[:-9]
                    self.mods[n] = Mod(self, p, n, pkg)

    def attr(self, modname, name, seen=None):
        m = self.mods.get(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        return m._lookup(name, seen if seen is not None else set())

    def find(self, qual):
        """'fca/context.py:Context.oprime' -> (mod, class node or None, function node)"""
        path, q = qual.split(':')
        m = next((m for m in self.mods.values() if m.path == path), None)
        if m is None:
            raise KeyError('no module ' + path)
        parts = q.split('.')
        body, cls = m.tree.body, None
        node = None
        for k, p in enumerate(parts):
            node = None
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == p:
                    node = s
            if node is None:
                raise KeyError('no definition %s in %s' % (q, path))
            if k < len(parts) - 1:
                if isinstance(node, ast.ClassDef):
                    cls = node
                body = node.body
        return m, cls, node
