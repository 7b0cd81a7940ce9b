"""Symbolic execution of LLVM IR: verification-condition generation."""
import re, time, struct, math
from fractions import Fraction
import irparse
from irparse import Module, Ty, T_PTR, T_DBL, T_INT, strip_templates, tokenize
from terms import *
from terms import Subst, Atom
import terms as T
import smt, prove as PR
from values import *

LIM = 1 << 28           # assumed bound on container sizes

# ------------------------------------------------------------------ literals
_snap = {}
def snap(x):
    """real number a floating literal stands for"""
    if x in _snap: return _snap[x]
    r = _snap[x] = _do_snap(x)
    return r
def ulp(x):
    return math.ulp(abs(x)) if x else 0.0
def _do_snap(x):
    if math.isnan(x): return app("nan")
    if math.isinf(x): return app("inf") if x > 0 else -app("inf")
    if x == int(x) and abs(x) < 2**53: return P(int(x))
    s = "%.15g" % x
    if float(s) == x: return P(Fraction(s))
    fx = Fraction(x)
    q = fx.limit_denominator(5000)
    if q != 0 and abs(float(q) - x) <= ulp(x) and abs(q.numerator) < 10**7: return P(q)
    for k in (1, -1, 2, -2):
        pi = Fraction(3141592653589793238462643383279502884197, 10**39)
        y = fx / pi**k
        q = y.limit_denominator(3600)
        if q != 0 and abs(float(q * pi**k) - x) <= 1.01 * ulp(x) and abs(q.numerator) < 100000: return P(q) * power(smt.PI, k)
    # sqrt(pi) family, sqrt of small rationals
    y = fx * fx
    q = y.limit_denominator(200)
    if q != 0 and abs(math.sqrt(float(q)) - abs(x)) <= ulp(x) and abs(q.numerator) < 2000:
        r = app("sqrt", P(q)); return r if x > 0 else -r
    s = "%.17g" % x
    return P(Fraction(s)) if float(s) == x else P(fx)

def pow_real(x, y):
    c = y.const()
    if c is not None:
        if Fraction(c).denominator == 1: return power(x, int(c))
        if c == Fraction(1, 2): return app("sqrt", x)
    if is_int(y): return power(x, y)
    return app("pow", x, y)
def fsqrt(x):
    c = x.const()
    if c is not None and c >= 0:
        c = Fraction(c)
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator: return P(Fraction(a, b))
    return app("sqrt", x)
def fabs(x):
    c = x.const()
    if c is not None: return P(abs(c))
    return ite(LT(x, 0), -x, x)
def odd_app(name):
    def f(x):
        if not x.m: return ZERO
        m = min(x.m.items(), key=lambda kv: tuple((a.key(), str(e)) for a, e in kv[0]))
        if m[1] < 0: return -app(name, -x)
        return app(name, x)
    return f
fsin = odd_app("sin")
def fcos(x):
    if not x.m: return ONE
    m = min(x.m.items(), key=lambda kv: tuple((a.key(), str(e)) for a, e in kv[0]))
    return app("cos", -x if m[1] < 0 else x)
T.APP_EVAL["sin"] = fsin
T.APP_EVAL["cos"] = fcos
T.APP_EVAL["sqrt"] = fsqrt
def _fdiv(a, m):
    ca, cm = a.const(), m.const()
    if cm == 1: return a
    if ca is not None and cm is not None and cm > 0: return P(int(ca // cm))
    if not a.m: return ZERO
    return None
T.APP_EVAL["fdiv"] = _fdiv
smt.DEFAX["fdiv"] = lambda a, m: [Or(LT(m, 1), And(LE(m * app("fdiv", a, m, sort="I"), a), LT(a, m * app("fdiv", a, m, sort="I") + m)))]
T.APP_EVAL["exp"] = lambda x: ONE if not x.m else None
T.APP_EVAL["pow"] = pow_real
def ffloor(x):
    if is_int(x): return x
    c = x.const()
    if c is not None: return P(math.floor(c))
    return app("floor", x, sort="I")
T.APP_EVAL["floor"] = ffloor
def fceil(x):
    if is_int(x): return x
    c = x.const()
    if c is not None: return P(math.ceil(c))
    return app("ceil", x, sort="I")
T.APP_EVAL["ceil"] = fceil
def tdiv(a, b):
    ca, cb = a.const(), b.const()
    if cb is not None and cb != 0:
        if ca is not None:
            q = abs(ca) // abs(cb)
            return P(q if (ca >= 0) == (cb > 0) else -q)
        if all(v % cb == 0 for v in a.m.values()): return a.scale(Fraction(1, int(cb)))
        # (c*q*x + r)/c with nonneg parts left to the solver
    return app("tdiv", a, b, sort="I")
def imod(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb: return P(ca - cb * (abs(ca) // abs(cb)) * (1 if (ca >= 0) == (cb > 0) else -1))
    if cb is not None and cb > 0:
        r = Poly({k: v % cb for k, v in a.m.items() if v % cb})
        if r.is_const(): return P(int(r.const()) % cb)
        a = r
    return app("fmodi", a, b, sort="I")
T.APP_EVAL["tdiv"] = tdiv
T.APP_EVAL["fmodi"] = imod

class Loop:
    def __init__(self, header): self.header, self.blocks = header, {header}

def find_loops(fn):
    """natural loops by dominators"""
    succ = {}
    for b, ins in fn.blocks.items():
        t = ins[-1] if ins else None
        if t is None: succ[b] = []; continue
        if t.op == "br": succ[b] = [x for x in t.a[1:]]
        elif t.op == "switch": succ[b] = [t.a[1]] + [c[1] for c in t.a[2]]
        elif t.op == "invoke": succ[b] = [t.a[2]]      # unwind edges are not followed
        else: succ[b] = []
    order, seen = [], set()
    st = [(fn.entry, iter(succ[fn.entry]))]; seen.add(fn.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(succ.get(s, [])))); break
        else: order.append(b); st.pop()
    order.reverse(); num = {b: i for i, b in enumerate(order)}
    pred = {b: [] for b in order}
    for b in order:
        for s in succ[b]: pred[s].append(b)
    idom = {fn.entry: fn.entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            n = None
            for p in pred[b]:
                if p in idom:
                    if n is None: n = p
                    else:
                        x, y = n, p
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        n = x
            if idom.get(b) != n: idom[b] = n; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == fn.entry: return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in succ[b]:
            if dom(s, b):
                l = loops.setdefault(s, Loop(s)); w = [b]
                while w:
                    x = w.pop()
                    if x in l.blocks: continue
                    l.blocks.add(x); w.extend(pred[x])
    for h, l in loops.items(): l.nested = any(o is not l and h in o.blocks for o in loops.values())
    # blocks from which a return is reachable
    can = set()
    for b in order:
        t = fn.blocks[b][-1]
        if t.op == "ret": can.add(b)
    ch = True
    while ch:
        ch = False
        for b in order:
            if b not in can and any(s in can for s in succ[b]): can.add(b); ch = True
    fn.loops, fn.succ, fn.canret = loops, succ, can

class Obl:
    __slots__ = ("name", "facts", "goal", "res", "soft", "where")
    def __init__(self, name, facts, goal, soft, where): self.name, self.facts, self.goal, self.soft, self.where, self.res = name, facts, goal, soft, where, None

class Exec:
    def __init__(self, mod, hooks, contracts=None, fp=False, budget=240.0):
        self.mod, self.hooks, self.contracts, self.fp = mod, hooks, contracts or {}, fp
        self.trivial = 0; self.reads = None; self.obls = []; self.fuel = 4000000; self.depth = 0
        self.t_end = time.time() + budget
        self.globs = {}
        self.used_hooks, self.used_fns, self.used_contracts = {}, {}, {}
        self.g0 = State()            # initial images of globals
        self.exit_log = []
        self.mutable_globals = set()
        self.invariants = 0
        self.lcache = {}; self.quiet = 0; self.debug = False; self.mark_sym = 0

    # ---------------------------------------------------------- obligations
    def oblige(self, st, name, goal, soft=False, where=""):
        goal = B(goal)
        if goal is TRUE and soft:
            self.trivial += 1; return
        self.obls.append(Obl(name, st.pc, goal, soft, where))

    def decide(self, st, c):
        """True/False if the path condition settles c, None otherwise"""
        if c is TRUE: return True
        if c is FALSE: return False
        if c in st.pcset: return True
        n = Not(c)
        if n in st.pcset: return False
        if c.kind == "and":
            rs = [self.decide(st, x) for x in c.args]
            if all(r is True for r in rs): return True
            if any(r is False for r in rs): return False
        if c.kind == "or":
            rs = [self.decide(st, x) for x in c.args]
            if any(r is True for r in rs): return True
            if all(r is False for r in rs): return False
        if self.fp: return None
        if not smt.feasible(st.pc, c): st.assume(n, True); return False
        if not smt.feasible(st.pc, n): st.assume(c, True); return True
        return None
    def ask(self, st, c):
        r = self.decide(st, B(c))
        if r is None: raise NeedSplit(c)
        return r
    def known(self, st, c):
        r = self.decide(st, B(c))
        return r is True or (r is False and not self.fp and not smt.feasible(st.pc, None))

    # ---------------------------------------------------------- memory
    def glob(self, st, name):
        if name in self.globs:
            i = self.globs[name]
        else:
            i = self.g0.new("global", 0, name); self.globs[name] = i
            self._init_glob(name, i)
        if i not in st.objs: st.objs[i] = self.g0.objs[i]
        return i
    def _init_glob(self, name, i):
        raw = self.mod.globals.get(name)
        o = self.g0.objs[i]
        if raw is None: o.kind = "extern"; return
        m = re.match(r'^(?:[a-z_]+(?:\([^)]*\))?\s+)*?(constant|global)\s+(.*)$', raw)
        if not m: o.kind = "extern"; return
        pre = raw[:m.start(1)]
        if " external " in " " + pre + " " or "external " in pre: o.kind = "extern"; return
        p = irparse.P(tokenize(re.split(r', (?:comdat|align|section|!)', m.group(2))[0]))
        ty = p.type(); o.size = self.mod.size(ty)
        if m.group(1) == "global" and not name.startswith("_ZStL8__ioinit"):
            self.mutable_globals.add(name)
        v = p.value(ty)
        self._init_cells(o, 0, ty, v)
        if m.group(1) == "global": o.kind = "mglobal"
    def _init_cells(self, o, off, ty, v):
        t = self.mod.resolve(ty)
        if v[0] == "agg":
            if t.k == "arr":
                es = self.mod.size(t.a[1])
                for j, (et, ev) in enumerate(v[1]): self._init_cells(o, off + j * es, et, ev)
            else:
                offs = self.mod.layout(t)[0]
                for f, (et, ev) in zip(offs, v[1]): self._init_cells(o, off + f, et, ev)
            return
        if v[0] == "zero" and t.k in ("arr", "struct", "pstruct"):
            if t.k == "arr":
                es = self.mod.size(t.a[1])
                if t.a[0] > 4096: return
                for j in range(t.a[0]): self._init_cells(o, off + j * es, t.a[1], v)
            else:
                for f, et in zip(self.mod.layout(t)[0], t.a): self._init_cells(o, off + f, et, v)
            return
        if v[0] == "cstr":
            o.cells[off] = (len(v[1]), Opaque("cstr", v[1])); return
        if v[0] == "undef": return
        o.cells[off] = (self.mod.size(t), self.const(None, t, v))

    def const(self, st, ty, v):
        k = v[0]
        if k == "int":
            if ty.k == "int" and ty.a == 1: return TRUE if v[1] else FALSE
            return P(v[1])
        if k == "fp": return self.fpconst(v[1])
        if k == "null": return NULL
        if k == "undef": return UNDEF
        if k == "zero":
            t = self.mod.resolve(ty)
            if t.k in ("struct", "arr", "pstruct"):
                n = len(t.a) if t.k != "arr" else t.a[0]
                return Agg([self.const(st, (t.a[i] if t.k != "arr" else t.a[1]), v) for i in range(n)])
            return NULL if t.k == "ptr" else (ZERO if t.k != "int" or t.a != 1 else FALSE)
        if k == "glb":
            if v[1] in self.mod.fns: return FnPtr(v[1])
            if v[1] in self.mod.aliases:
                m = re.search(r'ptr @("(?:[^"]*)"|[-a-zA-Z$._0-9]+)', self.mod.aliases[v[1]])
                return FnPtr(m.group(1).strip('"'))
            if st is None:
                i = self.globs.get(v[1])
                if i is None:
                    i = self.g0.new("global", 0, v[1]); self.globs[v[1]] = i; self._init_glob(v[1], i)
                return Ptr(i, (0,))
            return Ptr(self.glob(st, v[1]), (0,))
        if k == "cgep":
            base = self.const(st, T_PTR, v[2])
            if isinstance(base, FnPtr): return base
            return self.gep(st, v[1], base, [self.const(st, t, x) for x, t in zip(v[3], v[4])])
        if k == "ccast":
            x = self.const(st, v[2], v[3])
            if v[1] == "ptrtoint": return Opaque("pti", x)
            return x
        if k == "cbin": return UNDEF
        if k == "agg":
            return Agg([self.const(st, t, x) for t, x in v[1]])
        if k == "cstr": return Opaque("cstr", v[1])
        raise Unsupported("const %s" % k)
    def fpconst(self, x):
        if self.fp: return app("fp#%s" % struct.pack(">d", x).hex())
        return snap(x)

    def gep(self, st, ty, base, idx):
        if not isinstance(base, Ptr): raise Unsupported("gep on %r" % (base,))
        if base.obj is None: raise Unsupported("gep on null")
        p = base; t = ty; first = True
        for i in idx:
            if first:
                p = self.padd(st, p, i, self.mod.size(t)); first = False; continue
            t = self.mod.resolve(t)
            if t.k in ("struct", "pstruct"):
                n = int(i.const()); p = self.padd(st, p, P(1), self.mod.layout(t)[0][n]); t = t.a[n]
            elif t.k in ("arr", "vec"):
                t = t.a[1]; p = self.padd(st, p, i, self.mod.size(t))
            else: raise Unsupported("gep into %r" % t)
        return p
    def padd(self, st, p, i, s):
        """p + i*s bytes"""
        i = P(i) if not isinstance(i, Poly) else i
        d = (i.scale(s)).const()
        if d == 0: return p
        if len(p.path) == 1:
            if d is not None: return Ptr(p.obj, (p.path[0] + int(d),))
            # symbolic index into a raw array object: array view
            c = st.objs[p.obj].cells.get(p.path[0]) if st is not None else None
            if c is not None and isinstance(c[1], Arr):
                return self.padd(st, Ptr(p.obj, (p.path[0], (ZERO, s, 0))), i, s)
            a = self.raw_array(st, p, s)
            if a is not None: return self.padd(st, a, i, s)
            raise Unsupported("symbolic index into raw memory")
        idx, es, off = p.path[-1]
        if d is not None:
            o = off + int(d); n, o2 = divmod(o, es)
            if n == 0: return Ptr(p.obj, p.path[:-1] + ((idx, es, o2),))
            return Ptr(p.obj, p.path[:-1] + ((self.idx_add(idx, P(n)), es, o2),))
        if s % es == 0:
            return Ptr(p.obj, p.path[:-1] + ((self.idx_add(idx, i.scale(s // es)), es, off),))
        raise Unsupported("pointer step %d in container of element size %d" % (s, es))
    def raw_array(self, st, p, s):
        """view scalar cells at constant offsets as elements of an array cell"""
        o = st.objs.get(p.obj)
        if o is None: return None
        offs = sorted(x for x in o.cells)
        base = p.path[0] % s if o.kind in ("global", "mglobal") else p.path[0]
        items = []; x = base
        while x in o.cells and o.cells[x][0] == s:
            items.append(o.cells[x][1]); x += s
        if o.kind == "alloca" and base == 0 and o.size % s == 0 and len(items) < o.size // s:
            items = [(o.cells[k * s][1] if k * s in o.cells else UNDEF) for k in range(o.size // s)]
        if not items: return None
        w = st.w(p.obj)
        for k in range(len(items)): w.cells.pop(base + k * s, None)
        w.cells[base] = (s * len(items), Arr((len(items),), tuple(items), tag="raw%d" % s))
        return Ptr(p.obj, (base, (P((p.path[0] - base) // s), s, 0)))
    def idx_add(self, idx, n):
        if isinstance(idx, tuple):
            return (idx[0] + n, idx[1])
        return idx + n

    def elem(self, st, c, idx):
        if not isinstance(c, Arr): raise Unsupported("indexing %s" % type(c).__name__)
        return c.get(*(idx if isinstance(idx, tuple) else (idx,)))
    def bounds(self, st, c, idx, what="index in range"):
        if not isinstance(c, Arr): return
        for i, d in zip(idx if isinstance(idx, tuple) else (idx,), c.dims):
            self.oblige(st, what, And(LE(0, i), LT(i, d)))

    def rd(self, st, p, size=None):
        """value of the cell at p"""
        if p.obj is None: raise Unsupported("load from null")
        o = st.objs.get(p.obj)
        if o is None:
            o = self.g0.objs[p.obj]; st.objs[p.obj] = o
        if o.freed: raise Unsupported("use after free")
        c = o.cells.get(p.path[0])
        if c is None:
            v = self.raw_hit(st, o, p, size)
            if v is not None: return v
            if o.kind == "extern": raise Unsupported("read of external global %s" % o.name)
            return UNDEF
        v = c[1]
        if len(p.path) == 1:
            if self.reads is not None and isinstance(v, Poly) and len(v.m) > 1: self.reads.add((p.obj, p.path[0]))
            if isinstance(v, Arr) and v.tag and str(v.tag).startswith("raw") and size == int(v.tag[3:]): return v.get(ZERO)
            return v
        return self.rd_path(st, v, p.path[1:])
    def raw_hit(self, st, o, p, size):
        if len(p.path) != 1: return None
        for off, (sz, v) in o.cells.items():
            if isinstance(v, Arr) and v.tag and str(v.tag).startswith("raw") and off <= p.path[0] < off + sz:
                s = int(v.tag[3:])
                if (p.path[0] - off) % s == 0: return v.get(P((p.path[0] - off) // s))
        return None
    def rd_path(self, st, v, steps):
        idx, es, off = steps[0]
        self.bounds(st, v, idx)
        e = self.elem(st, v, idx)
        if len(steps) == 1:
            if isinstance(e, Struct):
                c = e.c.get(off)
                return c[1] if c else UNDEF
            if off != 0: return UNDEF
            return e
        if isinstance(e, Struct): e = e.c[off][1]
        return self.rd_path(st, e, steps[1:])
    def wr(self, st, p, v, size):
        if isinstance(v, Opaque) and v.tag == "pack":
            if size != 8: raise Unsupported("packed value")
            self.wr(st, p, v.p[0], 4); self.wr(st, Ptr(p.obj, p.path[:-1] + (p.path[-1] + 4,)), v.p[1], 4); return
        if p.obj is None: raise Unsupported("store to null")
        if p.obj not in st.objs: st.objs[p.obj] = self.g0.objs[p.obj]
        o = st.w(p.obj)
        if o.freed: raise Unsupported("store after free")
        off = p.path[0]
        if len(p.path) == 1:
            for k in [k for k, c in o.cells.items() if k < off + size and k + c[0] > off and k != off]:
                cv = o.cells[k][1]
                if isinstance(cv, Arr) and cv.tag and str(cv.tag).startswith("raw") and k <= off and off + size <= k + o.cells[k][0]:
                    s = int(cv.tag[3:])
                    if size == s and (off - k) % s == 0:
                        o.cells[k] = (o.cells[k][0], cv.set((P((off - k) // s),), v)); return
                if not (off <= k and k + o.cells[k][0] <= off + size) and o.cells[k][0] > 0:
                    raise Unsupported("partial overwrite")
                del o.cells[k]
            c = o.cells.get(off)
            if c is not None and isinstance(c[1], Arr) and c[1].tag and str(c[1].tag).startswith("raw") and size == int(c[1].tag[3:]):
                o.cells[off] = (c[0], c[1].set((ZERO,), v)); return
            o.cells[off] = (size, v); return
        c = o.cells.get(off)
        if c is None: raise Unsupported("store into missing container")
        o.cells[off] = (c[0], self.wr_path(st, c[1], p.path[1:], v, size))
    def wr_path(self, st, c, steps, v, size):
        idx, es, off = steps[0]
        if not isinstance(c, Arr): raise Unsupported("store into %s" % type(c).__name__)
        self.bounds(st, c, idx, "store index in range")
        k = idx if isinstance(idx, tuple) else (idx,)
        e = None
        if len(steps) == 1:
            if size == es and off == 0: e = v
            else:
                old = c.get(*k)
                cells = dict(old.c) if isinstance(old, Struct) else {}
                cells[off] = (size, v); e = Struct(cells)
        else:
            old = c.get(*k)
            if isinstance(old, Struct):
                cells = dict(old.c); cells[off] = (cells[off][0], self.wr_path(st, cells[off][1], steps[1:], v, size)); e = Struct(cells)
            else: e = self.wr_path(st, old, steps[1:], v, size)
        return c.set(k, e)

    def load(self, st, ty, p):
        t = self.mod.resolve(ty)
        if not isinstance(p, Ptr): raise Unsupported("load via %r" % (p,))
        if t.k in ("struct", "pstruct"):
            return Agg([self.load(st, x, self.padd(st, p, P(1), o)) for x, o in zip(t.a, self.mod.layout(t)[0])])
        if t.k in ("arr", "vec"):
            es = self.mod.size(t.a[1])
            return Agg([self.load(st, t.a[1], self.padd(st, p, P(j), es)) for j in range(t.a[0])])
        if t.k == "int" and t.a == 64 and len(p.path) == 1:
            # two packed 32-bit values (a small struct passed in a register)
            cl = (st.objs.get(p.obj) or self.g0.objs[p.obj]).cells if p.obj is not None else {}
            if p.path[0] in cl and cl[p.path[0]][0] == 4 and p.path[0] + 4 in cl and cl[p.path[0] + 4][0] == 4:
                return Opaque("pack", (cl[p.path[0]][1], cl[p.path[0] + 4][1]))
        v = self.rd(st, p, self.mod.size(t))
        if isinstance(v, Bool) and not (t.k == "int" and t.a == 1): v = ind(v)
        if t.k == "int" and t.a < 64 and isinstance(v, Poly):
            pass
        return v
    def store(self, st, ty, v, p):
        t = self.mod.resolve(ty)
        if not isinstance(p, Ptr): raise Unsupported("store via %r" % (p,))
        if t.k in ("struct", "pstruct"):
            if v is UNDEF: return
            for x, o, w in zip(t.a, self.mod.layout(t)[0], v.v): self.store(st, x, w, self.padd(st, p, P(1), o))
            return
        if t.k in ("arr", "vec"):
            if v is UNDEF: return
            es = self.mod.size(t.a[1])
            for j, w in enumerate(v.v): self.store(st, t.a[1], w, self.padd(st, p, P(j), es))
            return
        self.wr(st, p, v, self.mod.size(t))

    def memcpy(self, st, d, s, n):
        c = n.const()
        if c is None: raise Unsupported("memcpy of symbolic size")
        n = int(c)
        if n == 0: return
        if len(s.path) == 1:
            o = st.objs.get(s.obj) or self.g0.objs[s.obj]
            items = [(k - s.path[0], cc) for k, cc in o.cells.items() if s.path[0] <= k < s.path[0] + n]
            if not items:
                v = self.raw_hit(st, o, s, None)
                if v is not None: items = [(j * 8, (8, self.rd(st, self.padd(st, s, P(1), j * 8), 8))) for j in range(n // 8)]
        else:
            v = self.rd(st, s)          # emits the range obligations
            base = self.elem_at(st, s)
            if isinstance(base, Struct):
                o0 = s.path[-1][2]
                items = [(k - o0, cc) for k, cc in base.c.items() if o0 <= k < o0 + n]
            elif s.path[-1][2] != 0 or n != s.path[-1][1]:
                es = s.path[-1][1]
                if n % es: raise Unsupported("memcpy partial element")
                items = [(j * es, (es, self.rd(st, self.padd(st, s, P(j), es), es))) for j in range(n // es)]
            else: items = [(0, (n, v))]
        for off, (sz, v) in items:
            self.wr(st, self.padd(st, d, P(1), off) if off else d, v, sz)
    def elem_at(self, st, p):
        v = st.objs[p.obj].cells[p.path[0]][1]
        for j, (idx, es, off) in enumerate(p.path[1:]):
            v = self.elem(st, v, idx)
            if j < len(p.path) - 2 and isinstance(v, Struct): v = v.c[off][1]
        return v

    # ---------------------------------------------------------- functions
    def fn(self, name):
        f = self.mod.fns.get(name)
        if f is None: raise Unsupported("no function " + name)
        if not f.decl and f.blocks is None:
            self.mod.parse_body(f); find_loops(f)
        elif f.decl: self.mod.head(f)
        return f
    def call(self, st, name, args, ins=None):
        """-> list of (state, kind, value)"""
        if name in self.mod.aliases:
            m = re.search(r'ptr @("(?:[^"]*)"|[-a-zA-Z$._0-9]+)', self.mod.aliases[name]); name = m.group(1).strip('"')
        f = self.mod.fns.get(name)
        if f is None: raise Unsupported("call to unknown %s" % name)
        if not hasattr(f, "key"):
            f.key = strip_templates(f.dem) if f.dem != name else name
        for key in (f.dem, f.key):
            h = self.contracts.get(key)
            if h is not None and not getattr(h, "off", False):
                r = h(self, st, f, args, ins)
                if r is NotImplemented: break
                self.used_contracts[key] = self.used_contracts.get(key, 0) + 1
                return r
        h = self.hooks.get(f.key) or self.hooks.get(name)
        if h is None:
            for pre, hh in self.hooks["*"]:
                if f.key.startswith(pre): h = hh; break
        if h is not None:
            r = h(self, st, f, args, ins)
            if r is not NotImplemented:
                self.used_hooks[f.key] = self.used_hooks.get(f.key, 0) + 1
                if isinstance(r, list): return r
                return [(st, "ret", r)]
        if f.decl: raise Unsupported("external function %s" % f.dem)
        return self.run(st, name, args)
    def run(self, st, name, args):
        f = self.fn(name)
        self.depth += 1
        if self.depth > 150: self.depth -= 1; raise Unsupported("recursion depth in " + f.dem)
        self.used_fns[f.dem] = self.used_fns.get(f.dem, 0) + 1
        try:
            regs = {}
            if len(args) != len(f.params): raise Unsupported("arity of " + f.dem)
            for (t, nm, at), v in zip(f.params, args): regs[nm] = v
            b, e, terms = self.explore(f, st, regs, f.entry, None, None)
            return terms
        finally: self.depth -= 1

    def explore(self, f, st, regs, block, prev, loop):
        work = [(st, regs, block, prev)]
        back, exits, terms = [], [], []
        first = True
        while work:
            st, regs, b, prev = work.pop()
            if loop is not None:
                if b == loop.header and not first: back.append((st, regs, prev)); continue
                if b not in loop.blocks:
                    if b in f.canret: exits.append((st, regs, b, prev)); continue
            if b in f.loops and not (loop is not None and b == loop.header):
                no = len(self.obls); pc0 = st.pc
                try: ex, tm = self.run_loop(f, f.loops[b], st, regs, prev)
                except Unsupported:
                    if self.fp or smt.feasible(pc0, None, 1500): raise
                    del self.obls[no:]; continue          # unreachable
                terms += tm; work += ex
                continue
            first = False
            for r in self.run_block(f, st, regs, b, prev, loop):
                if r[0] == "jump": work.append(r[1:])
                else: terms.append(r[1:])
            if len(work) + len(terms) + len(back) > 600: raise Unsupported("too many paths in " + f.dem)
        return back, exits, terms

    def run_block(self, f, st, regs, b, prev, loop):
        ins = f.blocks[b]
        out = []
        work = [(st, regs, 0)]
        while work:
            st, regs, ip = work.pop()
            n = len(ins)
            while ip < n:
                I = ins[ip]
                self.fuel -= 1
                if self.fuel <= 0: raise Unsupported("instruction budget")
                if (self.fuel & 255) == 0 and time.time() > self.t_end: raise Unsupported("time budget")
                op = I.op
                try:
                    if op == "br":
                        if I.a[0] is None: out.append(("jump", st, regs, I.a[1], b)); break
                        c = self.tobool(self.val(st, regs, I.a[0][0], I.a[0][1]))
                        if loop is not None:
                            x = [s for s in I.a[1:] if s not in loop.blocks and s in f.canret]
                            if x: self.exit_log.append((loop, c in (TRUE, FALSE)))
                        r = self.decide(st, c)
                        if r is None: raise NeedSplit(c)
                        out.append(("jump", st, regs, I.a[1] if r else I.a[2], b)); break
                    if op == "switch":
                        v = self.num(self.val(st, regs, I.a[0][0], I.a[0][1]))
                        tgt = I.a[1]
                        for cv, lab in I.a[2]:
                            if self.ask(st, EQ(v, cv)): tgt = lab; break
                        out.append(("jump", st, regs, tgt, b)); break
                    if op == "ret":
                        v = None if I.a[0] is None else self.val(st, regs, I.a[0][0], I.a[0][1])
                        out.append(("term", st, "ret", v)); break
                    if op == "unreachable": out.append(("term", st, "abort", "unreachable")); break
                    if op == "resume": out.append(("term", st, "throw", None)); break
                    if op in ("call", "invoke"):
                        nobl = len(self.obls)
                        res = self.do_call(st, regs, I)
                        conts = []
                        for (s2, kind, v) in res:
                            if kind == "ret": conts.append((s2, v))
                            else:
                                if kind == "throw" and op == "invoke" and self.catches(f, I.a[3]):
                                    raise Unsupported("exception caught in code")
                                out.append(("term", s2, kind, v))
                        if not conts: break
                        multi = len(conts) > 1
                        for j, (s2, v) in enumerate(conts):
                            r2 = dict(regs) if multi else regs
                            if I.res is not None: r2[I.res] = v
                            if j < len(conts) - 1:
                                if op == "invoke": out.append(("jump", s2, r2, I.a[2], b))
                                else: work.append((s2, r2, ip + 1))
                            else: st, regs = s2, r2
                        if op == "invoke": out.append(("jump", st, regs, I.a[2], b)); break
                        ip += 1; continue
                    self.simple(st, regs, I, prev)
                    ip += 1
                except NeedSplit as e:
                    c = B(e.cond)
                    s2 = st.copy(); s2.assume(Not(c)); st.assume(c)
                    work.append((s2, dict(regs), ip))
                    # continue with st at the same instruction
            if len(work) + len(out) > 400: raise Unsupported("too many paths in block of " + f.dem)
        return out
    def catches(self, f, blk):
        for I in f.blocks.get(blk, []):
            if I.op == "landingpad": return "catch " in I.text
        return False

    def val(self, st, regs, ty, v):
        if v[0] == "loc":
            try: return regs[v[1]]
            except KeyError: raise Unsupported("unknown register %" + v[1])
        return self.const(st, ty, v)
    def num(self, v):
        if isinstance(v, Poly): return v
        if isinstance(v, Bool): return ind(v)
        if v is UNDEF: return fresh("undef", "R")
        raise Unsupported("number expected, got %r" % (v,))
    def inum(self, v):
        if v is UNDEF: return fresh("undef", "I")
        return self.num(v)
    def tobool(self, v):
        if isinstance(v, Bool): return v
        if v is UNDEF: return EQ(fresh("undef", "I"), 1)
        if isinstance(v, Poly): return NE(v, 0)
        raise Unsupported("bool expected, got %r" % (v,))

    def do_call(self, st, regs, I):
        callee, args, nd, ud = I.a
        if callee == "asm": raise Unsupported("inline asm")
        av = [self.val(st, regs, t, v) for t, v, at in args]
        if callee[0] == "glb":
            name = callee[1]
        else:
            fv = regs[callee[1]]
            if isinstance(fv, Opaque) and fv.tag == "ufun": return self.hooks["$ufun"](self, st, fv, av, I)
            if not isinstance(fv, FnPtr): raise Unsupported("indirect call through %r" % (fv,))
            name = fv.name
        if name.startswith("llvm."):
            h = self.hooks["$intrinsic"](self, st, name, av, I)
            return h if isinstance(h, list) else [(st, "ret", h)]
        return self.call(st, name, av, I)

    def unsigned(self, st, p, w):
        if p.const() is not None: return P(int(p.const()) % (1 << w))
        if self.ask(st, GE(p, 0)): return p
        return p + (1 << w)
    def signed(self, st, p, w):
        c = p.const()
        if c is not None:
            c = int(c) % (1 << w)
            return P(c - (1 << w) if c >= (1 << (w - 1)) else c)
        return p

    def simple(self, st, regs, I, prev):
        op = I.op; a = I.a
        if op == "alloca":
            t, n = a
            size = self.mod.size(t)
            if n is not None:
                c = self.val(st, regs, n[0], n[1]).const()
                if c is None: raise Unsupported("variable length alloca")
                size *= int(c)
            regs[I.res] = Ptr(st.new("alloca", size, I.res), (0,)); return
        if op == "load":
            regs[I.res] = self.load(st, I.ty, self.val(st, regs, a[0][0], a[0][1])); return
        if op == "store":
            v = self.val(st, regs, a[0][0], a[0][1])
            self.store(st, a[0][0], v, self.val(st, regs, a[1][0], a[1][1])); return
        if op == "getelementptr":
            base = self.val(st, regs, a[1][0], a[1][1])
            idx = [self.inum(self.val(st, regs, t, v)) for t, v in a[2]]
            if isinstance(base, FnPtr): regs[I.res] = base; return
            regs[I.res] = self.gep(st, a[0], base, idx); return
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            x, y = self.num(self.val(st, regs, I.ty, a[0])), self.num(self.val(st, regs, I.ty, a[1]))
            regs[I.res] = self.fbin(st, op, x, y); return
        if op == "fneg":
            x = self.num(self.val(st, regs, I.ty, a[0]))
            regs[I.res] = app("fneg64", x) if self.fp else -x; return
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            regs[I.res] = self.ibin(st, op, I.ty, self.val(st, regs, I.ty, a[0]), self.val(st, regs, I.ty, a[1])); return
        if op == "icmp":
            regs[I.res] = self.icmp(st, a[0], a[1], self.val(st, regs, a[1], a[2]), self.val(st, regs, a[1], a[3])); return
        if op == "fcmp":
            x, y = self.num(self.val(st, regs, a[1], a[2])), self.num(self.val(st, regs, a[1], a[3]))
            regs[I.res] = self.fcmp(st, a[0], x, y); return
        if op == "phi":
            for v, b in a[0]:
                if b == prev: regs[I.res] = self.val(st, regs, I.ty, v); return
            raise Unsupported("phi")
        if op == "select":
            c = self.tobool(self.val(st, regs, a[0][0], a[0][1]))
            x, y = self.val(st, regs, a[1][0], a[1][1]), self.val(st, regs, a[2][0], a[2][1])
            r = self.decide(st, c)
            if r is None:
                if not self.fp and isinstance(x, (Poly, Bool)) and isinstance(y, (Poly, Bool)): regs[I.res] = vite(c, x, y); return
                raise NeedSplit(c)
            regs[I.res] = x if r else y; return
        if op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr"):
            regs[I.res] = self.cast(st, op, a[0], self.val(st, regs, a[0], a[1]), I.ty); return
        if op == "extractvalue":
            v = self.val(st, regs, a[0][0], a[0][1])
            for i in a[1]: v = UNDEF if v is UNDEF else v.v[i]
            regs[I.res] = v; return
        if op == "insertvalue":
            v = self.val(st, regs, a[0][0], a[0][1]); e = self.val(st, regs, a[1][0], a[1][1])
            regs[I.res] = self.insv(a[0][0], v, e, a[2]); return
        if op == "freeze": regs[I.res] = self.val(st, regs, a[0][0], a[0][1]); return
        if op == "landingpad": regs[I.res] = UNDEF; return
        if op == "extractelement":
            v = self.val(st, regs, a[0][0], a[0][1]); i = self.inum(self.val(st, regs, a[1][0], a[1][1])).const()
            regs[I.res] = v.v[int(i)]; return
        if op == "insertelement":
            v = self.val(st, regs, a[0][0], a[0][1]); e = self.val(st, regs, a[1][0], a[1][1]); i = int(self.inum(self.val(st, regs, a[2][0], a[2][1])).const())
            n = a[0][0].a[0]; l = list(v.v) if isinstance(v, Agg) else [UNDEF] * n
            l[i] = e; regs[I.res] = Agg(l); return
        raise Unsupported("instruction " + I.text[:80])
    def insv(self, ty, v, e, ix):
        t = self.mod.resolve(ty)
        n = len(t.a) if t.k in ("struct", "pstruct") else t.a[0]
        l = list(v.v) if isinstance(v, Agg) else [UNDEF] * n
        if len(ix) == 1: l[ix[0]] = e
        else: l[ix[0]] = self.insv(t.a[ix[0]] if t.k != "arr" else t.a[1], l[ix[0]], e, ix[1:])
        return Agg(l)

    def fbin(self, st, op, x, y):
        if self.fp: return app({"fadd": "fadd64", "fsub": "fsub64", "fmul": "fmul64", "fdiv": "fdiv64", "frem": "frem64"}[op], x, y)
        if op == "fadd": return x + y
        if op == "fsub": return x - y
        if op == "fmul": return x * y
        if op == "fdiv":
            c = y.const()
            if c == 0:
                return app("div0", x)
            if c is None:
                g = NE(y, 0)
                if g not in st.pcset: self.oblige(st, "divisor non-zero", g, soft=True)
            return x * inv(y)
        return app("fmod", x, y)
    def fcmp(self, st, pred, x, y):
        if self.fp:
            if pred in ("true", "false"): return B(pred == "true")
            return bapp("fcmp_" + pred, x, y)
        if pred == "uno": return FALSE
        if pred == "ord": return TRUE
        k = pred[1:]
        inf = app("inf")
        for u, v, s in ((x, y, 1), (y, x, -1)):
            if v == inf or v == -inf:
                if u == v: r = 0
                else: r = -s if v == inf else s     # u finite
                return B({"eq": r == 0, "ne": r != 0, "lt": r < 0, "le": r <= 0, "gt": r > 0, "ge": r >= 0}[k])
        return {"eq": EQ, "ne": NE, "lt": LT, "le": LE, "gt": GT, "ge": GE}[k](x, y)

    def ibin(self, st, op, ty, x, y):
        if ty.k == "int" and ty.a == 1:
            bx, by = self.tobool(x), self.tobool(y)
            if op == "and": return And(bx, by)
            if op == "or": return Or(bx, by)
            if op in ("xor", "add", "sub"): return Or(And(bx, Not(by)), And(Not(bx), by))
            raise Unsupported("i1 " + op)
        if isinstance(x, Opaque) and x.tag == "pti" and isinstance(y, Opaque) and y.tag == "pti" and op == "sub":
            return self.pdiff(st, x.p, y.p)
        if isinstance(x, Opaque) and x.tag == "pti" and isinstance(y, Poly) and y.const() is not None and op in ("urem", "and"):
            c = int(y.const()) + (1 if op == "and" else 0)
            r = self.palign(x.p, c)
            if r is not None: return P(r)
        if isinstance(x, Opaque) or isinstance(y, Opaque): raise Unsupported("integer arithmetic on pointer")
        x, y = self.inum(x), self.inum(y)
        w = ty.a
        if op == "add": return self.signed(st, x + y, w)
        if op == "sub": return self.signed(st, x - y, w)
        if op == "mul": return self.signed(st, x * y, w)
        cx, cy = x.const(), y.const()
        if op in ("sdiv", "udiv", "srem", "urem"):
            if op[0] == "u": x, y = self.unsigned(st, x, w), self.unsigned(st, y, w)
            if y.const() is None: self.oblige(st, "integer divisor non-zero", NE(y, 0), soft=True)
            if y.const() == 0: raise Unsupported("integer division by zero")
            if op[1:] == "div":
                q = tdiv(x, y)
                if q.single_atom() is None or q.single_atom().kind != "app": return q
                if op == "sdiv" and not self.ask(st, GE(x, 0)): return -tdiv(-x, y)
                return q
            if op == "srem" and x.const() is None and not self.ask(st, GE(x, 0)): return -imod(-x, y)
            return imod(x, y)
        if cx is not None and cy is not None:
            ux, uy = int(cx) % (1 << w), int(cy) % (1 << w)
            r = {"and": ux & uy, "or": ux | uy, "xor": ux ^ uy, "shl": ux << min(uy, 127), "lshr": ux >> min(uy, 127), "ashr": int(cx) >> min(uy, 127)}[op]
            return self.signed(st, P(r), w)
        if op == "shl" and cy is not None: return x.scale(1 << int(cy))
        if op in ("lshr", "ashr") and cy is not None:
            if self.ask(st, GE(x, 0)): return tdiv(x, P(1 << int(cy)))
        if op == "and":
            if cx is not None: x, y, cx, cy = y, x, cy, cx
            if cy is not None and cy >= 0 and (int(cy) & (int(cy) + 1)) == 0:
                if cy == 1 and len(x.m) == 1 and x.single_atom() is not None and x.single_atom().kind == "ind": return x
                if self.ask(st, GE(x, 0)): return imod(x, P(int(cy) + 1))
                return imod(x.scale(1) + 0, P(int(cy) + 1)) if False else imod(-((-x)) , P(int(cy) + 1))
            if cy is not None and int(cy) % (1 << w) == 255: return x
        if op == "xor" and cy is not None and cy == 1: return ONE - x
        if op == "xor" and cy is not None and cy == -1: return -x - 1
        raise Unsupported("symbolic %s" % op)
    def palign(self, p, c):
        """address modulo c (objects are 16-byte aligned)"""
        if c <= 0 or 16 % c: return None
        if not isinstance(p, Ptr): return None
        if p.obj is None: return 0
        r = p.path[0]
        for i, es, off in p.path[1:]:
            r = off
            if es % c:
                i = i if not isinstance(i, tuple) else None
                if i is None or i.const() is None: return None
                r += int(i.const()) * es
        return r % c
    def pdiff(self, st, a, b):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported("pointer difference")
        if a.obj != b.obj: raise Unsupported("difference of unrelated pointers")
        if a.path == b.path: return ZERO
        if len(a.path) == 1 and len(b.path) == 1: return P(a.path[0] - b.path[0])
        if len(a.path) == len(b.path) and a.path[:-1] == b.path[:-1]:
            (i, es, o), (j, es2, o2) = a.path[-1], b.path[-1]
            if es != es2: raise Unsupported("pointer difference")
            if isinstance(i, tuple):
                if i[1] != j[1]: raise Unsupported("pointer difference across columns")
                i, j = i[0], j[0]
            return (i - j).scale(es) + (o - o2)
        raise Unsupported("pointer difference")
    def icmp(self, st, pred, ty, x, y):
        if ty.k == "ptr" or isinstance(x, (Ptr, FnPtr, Opaque)) or isinstance(y, (Ptr, FnPtr, Opaque)):
            return self.pcmp(st, pred, x, y)
        if ty.k == "int" and ty.a == 1:
            bx, by = self.tobool(x), self.tobool(y)
            e = Or(And(bx, by), And(Not(bx), Not(by)))
            if pred == "eq": return e
            if pred == "ne": return Not(e)
            raise Unsupported("icmp i1 " + pred)
        x, y = self.inum(x), self.inum(y)
        w = ty.a
        # unsigned comparisons with zero are (in)equalities
        if pred in ("ugt", "ule") and y.const() == 0: pred = "ne" if pred == "ugt" else "eq"
        elif pred in ("ult", "uge") and x.const() == 0: x, y, pred = y, x, "ne" if pred == "ult" else "eq"
        elif pred in ("uge", "ult") and y.const() == 1: y, pred = ZERO, "ne" if pred == "uge" else "eq"
        if pred in ("eq", "ne"):
            d = x - y
            if d.const() is not None:
                r = B(int(d.const()) % (1 << w) == 0) if Fraction(d.const()).denominator == 1 else FALSE
            else: r = EQ(x, y)
            return r if pred == "eq" else Not(r)
        if pred[0] == "u":
            # x, y of the same sign compare the same way; avoid a split when only equal shifts occur
            x, y = self.unsigned(st, x, w), self.unsigned(st, y, w)
        else: x, y = self.signed(st, x, w), self.signed(st, y, w)
        return {"lt": LT, "le": LE, "gt": GT, "ge": GE}[pred[1:]](x, y)
    def pcmp(self, st, pred, x, y):
        if isinstance(x, Opaque) and x.tag == "pti": x = x.p
        if isinstance(y, Opaque) and y.tag == "pti": y = y.p
        if isinstance(x, Poly) and x.const() == 0: x = NULL
        if isinstance(y, Poly) and y.const() == 0: y = NULL
        if isinstance(x, (FnPtr, Opaque)) or isinstance(y, (FnPtr, Opaque)):
            e = B(type(x) is type(y) and x == y)
        elif not (isinstance(x, Ptr) and isinstance(y, Ptr)): raise Unsupported("pointer comparison")
        elif x.obj is None or y.obj is None: e = B(x.obj is None and y.obj is None)
        elif x.obj != y.obj: e = FALSE
        else:
            d = self.pdiff(st, x, y)
            if pred in ("eq", "ne"): e = EQ(d, 0)
            else: return {"lt": LT, "le": LE, "gt": GT, "ge": GE}[pred[1:]](d, ZERO)
        if pred == "eq": return e
        if pred == "ne": return Not(e)
        raise Unsupported("pointer order")
    def cast(self, st, op, t, v, t2):
        if op == "bitcast": return v
        if op == "ptrtoint": return Opaque("pti", v)
        if op == "inttoptr":
            if isinstance(v, Opaque) and v.tag == "pti": return v.p
            raise Unsupported("inttoptr")
        if op == "zext":
            if t.a == 1: return ind(self.tobool(v))
            v = self.inum(v)
            return self.unsigned(st, v, t.a)
        if op == "sext":
            if t.a == 1: return -ind(self.tobool(v))
            v = self.inum(v)
            return self.signed(st, v, t.a)
        if op == "trunc":
            if t2.a == 1:
                if isinstance(v, Bool): return v
                if v is UNDEF: return EQ(fresh("undef", "I"), 1)
                v = self.inum(v)
                c = v.const()
                if c is not None: return B(int(c) & 1)
                return NE(v, 0)          # bool stored as i8 0/1
            v = self.inum(v)
            if v.const() is not None: return self.signed(st, v, t2.a)
            if t2.a >= 32:
                lo, hi = -(1 << (t2.a - 1)), (1 << (t2.a - 1))
                if self.known(st, And(LE(lo, v), LT(v, hi))): return v
                raise Unsupported("narrowing of %s" % v.key()[:60])
            if self.known(st, And(LE(0, v), LT(v, 1 << t2.a))): return v
            raise Unsupported("narrowing")
        if op == "sitofp":
            v = self.inum(v)
            if self.fp: return app("i2fp", v)
            return v
        if op == "uitofp":
            v = self.unsigned(st, self.inum(v), t.a)
            if self.fp: return app("i2fp", v)
            return v
        if op in ("fptosi", "fptoui"):
            v = self.num(v)
            if self.fp: return app("fp2i", v, sort="I")
            if is_int(v): return v
            if self.ask(st, GE(v, 0)): return ffloor(v)
            return -ffloor(-v)
        if op == "fpext": return v
        if op == "fptrunc":
            if t.k == "x86_fp80": return v
            v = self.num(v)
            if v.const() is not None: return v
            return app("f32", v)
        raise Unsupported(op)

from loops import run_loop
Exec.run_loop = run_loop
