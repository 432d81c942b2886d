"""Mathematical views of program values for use in contracts and invariants."""
from z3 import *
from . import logic as L
from .core import *

SHAPES = {}          # class name -> {'fields': {name: spec}, 'inv': fn(view) -> [formulas]}


class State:
    """a frozen program state"""
    def __init__(self, cells, heap, envs=None):
        self.cells, self.heap, self.envs = cells, heap, envs


def snap(it):
    return State(dict(it.cells), dict(it.heap), {k: dict(d, vars=dict(d['vars'])) for k, d in it.envs.items()})


class within:
    def __init__(self, it, st):
        self.it, self.st = it, st

    def __enter__(self):
        if self.st is not None:
            self.save = (self.it.cells, self.it.heap)
            self.it.cells, self.it.heap = dict(self.st.cells), dict(self.st.heap)

    def __exit__(self, *a):
        if self.st is not None:
            for k, v in self.it.heap.items():
                self.save[1].setdefault(k, v) if k not in self.st.heap else None
            self.it.cells, self.it.heap = self.save


class ListView:
    def __init__(self, c):
        self.n, self.arr, self.off, self.ety = c.n, c.arr, c.off, c.ety
        self.c = c

    def __getitem__(self, k):
        return self.c.at(k if not isinstance(k, int) else IntVal(k))

    @property
    def set(self):
        return L.rng(self.arr, self.off, simplify(self.off + self.n))

    def sub(self, lo, hi):
        return L.rng(self.arr, simplify(self.off + lo), simplify(self.off + hi))


class DictView:
    def __init__(self, c):
        self.dom, self.val, self.kty, self.vty = c.dom, c.val, c.kty, c.vty

    def __getitem__(self, k):
        return Select(self.val, k)


class Nd2View:
    def __init__(self, c):
        self.n, self.m, self.arr = c.n, c.m, c.arr

    def __getitem__(self, ij):
        return self.arr[ij[0]][ij[1]]


class InstView:
    def __init__(self, it, cell, c, st):
        self.__dict__.update(_it=it, _c=c, _st=st, _cell=cell)

    def __getattr__(self, f):
        if f not in self._c.fields:
            raise Unsupported('object has no attribute %s' % f)
        with within(self._it, self._st):
            return view(self._it, self._c.fields[f], self._st)

    def _has(self, f):
        return f in self._c.fields


def view(it, v, st=None):
    if isinstance(v, VMaybe):
        v = v.v
    if isinstance(v, VZ):
        return v.t
    if v is NONE:
        return None
    if isinstance(v, VStr):
        return strconst(v.s)
    if isinstance(v, VTuple):
        return tuple(view(it, x, st) for x in v.items)
    if isinstance(v, (VCell, VFro, VLoc)):
        with within(it, st):
            c = it.content(v)
            if isinstance(c, CInst):
                return InstView(it, v, c, st)
            if isinstance(c, CSet):
                return c.arr if c.arr is not None else L.empty(V)
            if isinstance(c, CListC):
                ty = it.list_ety(c)
                if ty is None:
                    site = getattr(c, 'site', None)
                    ty = it.celltypes.get(site) or 'V'
                return ListView(it.sym_list(c, ty))
            if isinstance(c, CNd2):
                return Nd2View(c)
            if isinstance(c, CList):
                return ListView(c)
            if isinstance(c, CDict):
                return DictView(c)
    if isinstance(v, VSeq):
        return v
    return v


class HeapMixin:
    def _h(self, cls, f):
        st = self._state
        if st is not None:
            k = (cls, f)
            if k in st.heap:
                return st.heap[k]
        return self._it.heap_get(cls, f)

    def call(self, *quals):
        """the last call of a function with a contract"""
        for q in quals:
            if self._it.last_call.get(q) is not None:
                return self._it.last_call[q]
        raise Unsupported('no call of ' + quals[0])

    def isnew(self, r):
        """an object made since the function was called"""
        return And(self._it.frame0[0] <= r, r < self._it.next())

    def prem(self, r):
        return Select(self._h('Implication', '_premise'), r)

    def concl(self, r):
        return Select(self._h('Implication', '_conclusion'), r)

    def ext(self, r):
        return Select(self._h('Concept', 'extent'), r)

    def int(self, r):
        return Select(self._h('Concept', 'intent'), r)

    def hp(self):
        return self._h('Implication', '_premise'), self._h('Implication', '_conclusion')

    def hc(self):
        return self._h('Concept', 'extent'), self._h('Concept', 'intent')

    def forall(self, sorts, body, pats=None):
        return self._it.forall(sorts, body, pats)

    def exists(self, sorts, body):
        return self._it.exists(sorts, body)


class CallView(HeapMixin):
    """parameters of a call: S.x (now), S.old.x (at entry), S.result"""
    def __init__(self, it, bound, state, old=None, result=None, ghosts=None):
        self.__dict__.update(_it=it, _bound=bound, _state=state, old=old, _result=result, _ghosts=ghosts or {})

    def __getattr__(self, n):
        if n in self._ghosts:
            return self._ghosts[n]
        if n == 'result':
            return view(self._it, self._result, self._state)
        if n in self._bound:
            return view(self._it, self._bound[n], self._state)
        raise Unsupported('contract refers to unknown name %s' % n)

    def raw(self, n):
        return self._bound[n]

    def local(self, n, fn=None):
        """a local variable of the function that has just returned, or of a function it has called last"""
        e = self._it.last_env if fn is None else self._it.fenv.get(fn)
        d = self._it.envs[e]['vars'] if e in self._it.envs else {}
        if n not in d:
            raise Unsupported('no local variable %s' % n)
        return view(self._it, d[n])


class LoopView(HeapMixin):
    def __init__(self, it, env, entry, k, done, seq, loopinfo):
        st = entry
        self.__dict__.update(_it=it, _env=env, _entry=entry, k=k, done=done, _seq=seq, _info=loopinfo, _state=None)

    @property
    def entry(self):
        e = self._entry
        return EnvView(self._it, e['envs'], self._env, State(e['cells'], e['heap']))

    @property
    def head(self):
        """the state at the beginning of this iteration"""
        e = self._entry['head']
        return EnvView(self._it, e['envs'], self._env, State(e['cells'], e['heap']))

    def outer_head(self, d=1):
        """the state at the beginning of the current iteration of an enclosing loop"""
        e = self._info[-d][2]['head']
        return EnvView(self._it, e['envs'], self._env, State(e['cells'], e['heap']))

    @property
    def old(self):
        return self._it.old_view

    @property
    def n(self):
        return self._it.seq_n(self._seq)

    @property
    def iterset(self):
        return self._seq.arr

    def item(self, k):
        return view(self._it, self._seq.get(k))

    @property
    def seen(self):
        """the set of the elements of the list iterated over so far"""
        return view(self._it, self._seq.src).sub(I(0), self.k)

    def outer(self, d=1):
        """(k, done) of an enclosing loop"""
        return self._info[-d]

    def _find(self, n):
        e = self._env
        while e is not None:
            d = self._it.envs[e]
            if n in d['vars']:
                return d['vars'][n]
            e = d['parent']
        raise Unsupported('invariant refers to unknown variable %s' % n)

    @property
    def comp(self):
        """the list made by the last comprehension with a condition"""
        return ListView(self._it.last_comp)

    def bound(self, n):
        e = self._env
        while e is not None:
            d = self._it.envs[e]
            if n in d['vars']:
                v = d['vars'][n]
                if isinstance(v, VMaybe):
                    return v.flag
                return BoolVal(not isinstance(v, VUndef))
            e = d['parent']
        return BoolVal(False)

    def __getattr__(self, n):
        if n in self._it.ghosts:
            return self._it.ghosts[n]
        v = self._find(n)
        if isinstance(v, VUndef):
            raise Unsupported('invariant refers to %s, which has no value here' % n)
        return view(self._it, v)

    def raw(self, n):
        return self._find(n)

    @property
    def yielded(self):
        return view(self._it, self._it.yields[-1])


class EnvView(HeapMixin):
    def __init__(self, it, envs, env, st):
        self.__dict__.update(_it=it, _envs=envs, _env=env, _state=st)

    @property
    def yielded(self):
        return view(self._it, self._it.yields[-1], self._state)

    def __getattr__(self, n):
        e = self._env
        while e is not None:
            d = self._envs.get(e) or dict(self._it.envs[e], vars={})
            if n in d['vars']:
                return view(self._it, d['vars'][n], self._state)
            e = d['parent']
        raise Unsupported('invariant refers to unknown variable %s' % n)
