"""Run-time values of the symbolic executor."""
from terms import *
from terms import Subst, Atom

class Unsupported(Exception): pass
class NeedSplit(Exception):
    def __init__(self, cond): self.cond = cond

class _Undef:
    def __repr__(self): return "undef"
UNDEF = _Undef()

class Ptr:
    """obj: object id (None = null); path: (off, step, step, ...) with step = (idx, esize, off); idx Poly or (i, j)"""
    __slots__ = ("obj", "path")
    def __init__(self, obj, path=(0,)): self.obj, self.path = obj, path
    def __repr__(self): return "Ptr(%s,%s)" % (self.obj, self.path)
    def __eq__(self, o): return isinstance(o, Ptr) and self.obj == o.obj and self.path == o.path
    def __hash__(self): return hash((self.obj, self.path))
NULL = Ptr(None, (0,))

class FnPtr:
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
    def __repr__(self): return "Fn(%s)" % self.name
    def __eq__(self, o): return isinstance(o, FnPtr) and o.name == self.name
    def __hash__(self): return hash(self.name)

class Agg:
    __slots__ = ("v",)
    def __init__(self, v): self.v = tuple(v)
    def __repr__(self): return "Agg%r" % (self.v,)
    def __eq__(self, o): return isinstance(o, Agg) and o.v == self.v
    def __hash__(self): return hash(self.v)

class Struct:
    """class-type value: cells {off: (size, val)}"""
    __slots__ = ("c",)
    def __init__(self, c): self.c = c
    def __repr__(self): return "Struct%r" % (self.c,)
    def __eq__(self, o): return isinstance(o, Struct) and o.c == self.c
    def __hash__(self): return hash(tuple(sorted(self.c)))

class Str:
    __slots__ = ("s",)
    def __init__(self, s): self.s = s     # bytes, or a symbolic name (str)
    def __repr__(self): return "Str(%r)" % (self.s,)
    def __eq__(self, o): return isinstance(o, Str) and o.s == self.s
    def __hash__(self): return hash(self.s)

class Opaque:
    __slots__ = ("tag", "p")
    def __init__(self, tag, p=None): self.tag, self.p = tag, p
    def __repr__(self): return "Opaque(%s,%r)" % (self.tag, self.p)
    def __eq__(self, o): return isinstance(o, Opaque) and o.tag == self.tag and o.p == self.p
    def __hash__(self): return hash(self.tag)

class Arr:
    """1D/2D container value.  dims: tuple of Poly; either concrete list `items` (1D, constant length) or
    a function given by index symbols `ix` (atoms) and `body` value."""
    __slots__ = ("dims", "items", "ix", "body", "tag", "memo")
    def __init__(self, dims, items=None, ix=None, body=None, tag=None):
        self.dims, self.items, self.ix, self.body, self.tag = tuple(P(d) for d in dims), items, ix, body, tag
    def __repr__(self):
        return "Arr(%s; %s)" % (self.dims, self.items if self.items is not None else "%s -> %s" % (self.ix, self.body))
    def get(self, *k):
        if self.items is not None:
            if len(k) == 1:
                c = k[0].const()
                if c is not None:
                    if not (0 <= c < len(self.items)): return UNDEF
                    return self.items[int(c)]
                if not self.items: return UNDEF
                r = self.items[-1]
                for i in range(len(self.items) - 2, -1, -1): r = vite(EQ(k[0], i), self.items[i], r)
                return r
            # 2D items: dict
            if all(x.const() is not None for x in k):
                return self.items.get(tuple(int(x.const()) for x in k), UNDEF)
            r = None
            for key in sorted(self.items):
                v = self.items[key]
                r = v if r is None else vite(And(*[EQ(a, b) for a, b in zip(k, key)]), v, r)
            return UNDEF if r is None else r
        try: r = self.memo.get(k)
        except AttributeError: self.memo = {}; r = None
        if r is not None: return r
        try:
            r = self.memo[k] = vsubst(self.body, Subst({a: x for a, x in zip(self.ix, k)}))
            return r
        except TermError as e:
            if "division by constant zero" in str(e) and isinstance(self.body, Poly): return app("div0", ONE)    # element without a value
            raise
    def as_fun(self):
        if self.items is None: return self
        ix = tuple(fresh("K", "I").single_atom() for _ in self.dims)
        return Arr(self.dims, None, ix, self.get(*[P(a) for a in ix]), self.tag)
    def set(self, k, v):
        if self.items is None and all(x.const() is not None for x in k):
            a = concretise(self)
            if a is not self and a.items is not None: return a.set(k, v)
        if self.items is not None and all(x.const() is not None for x in k):
            kk = tuple(int(x.const()) for x in k)
            if len(kk) == 1:
                if not (0 <= kk[0] < len(self.items)): raise Unsupported("store out of range")
                it = list(self.items); it[kk[0]] = v
                return Arr(self.dims, tuple(it), tag=self.tag)
            it = dict(self.items); it[kk] = v
            return Arr(self.dims, it, tag=self.tag)
        f = self.as_fun()
        used = vsyms(v).union(*[x.syms() for x in k])
        if used.isdisjoint(f.ix):
            return Arr(f.dims, None, f.ix, vite(And(*[EQ(P(a), x) for a, x in zip(f.ix, k)]), v, f.body), self.tag)
        ix = tuple(fresh("K", "I").single_atom() for _ in f.dims)
        c = And(*[EQ(P(a), x) for a, x in zip(ix, k)])
        return Arr(f.dims, None, ix, vite(c, v, f.get(*[P(a) for a in ix])), self.tag)
    def map(self, fn, tag=None):
        """fn(value) for every element"""
        if self.items is not None:
            if isinstance(self.items, dict): return Arr(self.dims, {k: fn(v) for k, v in self.items.items()}, tag=tag or self.tag)
            return Arr(self.dims, tuple(fn(v) for v in self.items), tag=tag or self.tag)
        return Arr(self.dims, None, self.ix, fn(self.body), tag or self.tag)
    def __eq__(self, o):
        if not isinstance(o, Arr) or self.dims != o.dims: return False
        if self is o: return True
        if self.items is not None and o.items is not None: return self.items == o.items
        if (self.items is None) != (o.items is None): return False
        k = [P(a) for a in self.ix]
        return self.body == o.get(*k)
    def __hash__(self): return hash(self.dims)

def fun_arr(dims, f, tag=None):
    """array given by a Python function of index Polys"""
    dims = tuple(P(d) for d in dims)
    ix = tuple(fresh("K", "I").single_atom() for _ in dims)
    return Arr(dims, None, ix, f(*[P(a) for a in ix]), tag)

def concretise(a, limit=64):
    """constant dimensions -> item form"""
    if a.items is not None: return a
    d = [x.const() for x in a.dims]
    if any(x is None for x in d): return a
    n = 1
    for x in d: n *= int(x)
    if n > limit: return a
    if len(d) == 1: return Arr(a.dims, tuple(a.get(P(i)) for i in range(int(d[0]))), tag=a.tag)
    import itertools
    return Arr(a.dims, {k: a.get(*[P(i) for i in k]) for k in itertools.product(*[range(int(x)) for x in d])}, tag=a.tag)

def vsubst(v, S):
    if isinstance(v, Poly): return S.poly(v)
    if isinstance(v, Bool): return S.bool(v)
    if isinstance(v, Ptr):
        if len(v.path) == 1: return v
        return Ptr(v.obj, (v.path[0],) + tuple((psub(s[0], S),) + s[1:] for s in v.path[1:]))
    if isinstance(v, Struct): return Struct({o: (c[0], vsubst(c[1], S)) for o, c in v.c.items()})
    if isinstance(v, Agg): return Agg([vsubst(x, S) for x in v.v])
    if isinstance(v, Arr):
        d = tuple(S.poly(x) for x in v.dims)
        if v.items is not None:
            if isinstance(v.items, dict): return Arr(d, {k: vsubst(x, S) for k, x in v.items.items()}, tag=v.tag)
            return Arr(d, tuple(vsubst(x, S) for x in v.items), tag=v.tag)
        return Arr(d, None, v.ix, vsubst(v.body, S), v.tag)
    if isinstance(v, Opaque) and isinstance(v.p, (Poly, Bool, Struct, Arr, Ptr)): return Opaque(v.tag, vsubst(v.p, S))
    return v
def psub(i, S):
    return tuple(S.poly(x) for x in i) if isinstance(i, tuple) else S.poly(i)

def vsyms(v):
    if isinstance(v, (Poly, Bool)): return v.syms()
    if isinstance(v, Ptr):
        s = frozenset()
        for st in v.path[1:]:
            for x in (st[0] if isinstance(st[0], tuple) else (st[0],)): s |= x.syms()
        return s
    if isinstance(v, Struct):
        s = frozenset()
        for c in v.c.values(): s |= vsyms(c[1])
        return s
    if isinstance(v, Agg):
        s = frozenset()
        for c in v.v: s |= vsyms(c)
        return s
    if isinstance(v, Arr):
        s = frozenset()
        for d in v.dims: s |= d.syms()
        if v.items is not None:
            for x in (v.items.values() if isinstance(v.items, dict) else v.items): s |= vsyms(x)
        else: s |= vsyms(v.body) - frozenset(v.ix)
        return s
    if isinstance(v, Opaque) and isinstance(v.p, (Poly, Bool, Struct, Arr, Ptr)): return vsyms(v.p)
    return frozenset()

def vite(c, a, b):
    c = B(c)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b or (type(a) is type(b) and a == b): return a
    if a is UNDEF: a2 = undef_like(b); return vite(c, a2, b)
    if b is UNDEF: b2 = undef_like(a); return vite(c, a, b2)
    if isinstance(a, Poly) and isinstance(b, Poly): return ite(c, a, b)
    if isinstance(a, Bool) and isinstance(b, Bool): return ite_b(c, a, b)
    if isinstance(a, Bool) and isinstance(b, Poly): return ite(c, ind(a), b)
    if isinstance(a, Poly) and isinstance(b, Bool): return ite(c, a, ind(b))
    if isinstance(a, Struct) and isinstance(b, Struct):
        r = {}
        for o in set(a.c) | set(b.c):
            x, y = a.c.get(o), b.c.get(o)
            if x is None or y is None: continue
            r[o] = (x[0], vite(c, x[1], y[1]))
        return Struct(r)
    if isinstance(a, Agg) and isinstance(b, Agg): return Agg([vite(c, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.dims) != len(b.dims): raise Unsupported("merge arrays of different rank")
        if a.items is not None and b.items is not None and a.dims == b.dims:
            if isinstance(a.items, dict): return Arr(a.dims, {k: vite(c, a.items[k], b.items.get(k, UNDEF)) for k in a.items}, tag=a.tag)
            return Arr(a.dims, tuple(vite(c, x, y) for x, y in zip(a.items, b.items)), tag=a.tag)
        return fun_arr([ite(c, x, y) for x, y in zip(a.dims, b.dims)], lambda *k: vite(c, a.get(*k), b.get(*k)), a.tag)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and len(a.path) == len(b.path) and len(a.path) > 1 and a.path[0] == b.path[0]:
        st = []
        for x, y in zip(a.path[1:], b.path[1:]):
            if x[1:] != y[1:]: raise Unsupported("merge pointers")
            if isinstance(x[0], tuple): st.append((tuple(ite(c, u, w) for u, w in zip(x[0], y[0])),) + x[1:])
            else: st.append((ite(c, x[0], y[0]),) + x[1:])
        return Ptr(a.obj, (a.path[0],) + tuple(st))
    raise Unsupported("merge %s / %s" % (type(a).__name__, type(b).__name__))

def undef_like(v):
    if isinstance(v, Poly): return fresh("undef", "I" if is_int(v) else "R")
    if isinstance(v, Bool): return EQ(fresh("undef", "I"), 1)
    if isinstance(v, Struct): return Struct({o: (c[0], undef_like(c[1])) for o, c in v.c.items()})
    raise Unsupported("merge with undefined %s" % type(v).__name__)

class Obj:
    __slots__ = ("cells", "kind", "size", "owner", "freed", "name")
    def __init__(self, kind, size, name=""): self.cells, self.kind, self.size, self.owner, self.freed, self.name = {}, kind, size, None, False, name
    def copy(self):
        o = Obj(self.kind, self.size, self.name); o.cells = dict(self.cells); o.freed = self.freed
        return o

import itertools
_sid = itertools.count(1)
_oid = itertools.count(1)

class State:
    __slots__ = ("objs", "pc", "pcset", "id", "der")
    def __init__(self):
        self.objs, self.pc, self.pcset, self.id, self.der = {}, (), frozenset(), next(_sid), frozenset()
    def copy(self):
        s = State(); s.objs = dict(self.objs); s.pc = self.pc; s.pcset = self.pcset; s.der = self.der
        self.id = next(_sid)       # both lose exclusive ownership
        return s
    def assume(self, b, der=False):
        """der: a consequence of the other facts (or of the definition of a total function): not a branch condition"""
        for x in ((b.args if b.kind == "and" else (b,))):
            if x is TRUE or x in self.pcset: continue
            self.pc = self.pc + (x,); self.pcset = self.pcset | {x}
            if der: self.der = self.der | {x}
    def new(self, kind, size, name=""):
        i = next(_oid); o = Obj(kind, size, name); o.owner = self.id; self.objs[i] = o
        return i
    def w(self, i):
        o = self.objs[i]
        if o.owner != self.id:
            o = o.copy(); o.owner = self.id; self.objs[i] = o
        return o
