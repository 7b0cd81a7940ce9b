"""Trusted contracts of code outside /repo: C and C++ runtime, std::vector, iterators over it, Eigen dynamic
matrices, math functions.  Everything listed here is an assumption of the proofs (reported in the evidence)."""
import re
from fractions import Fraction
from terms import *
from terms import Subst
import terms as T
import smt
from values import *
from execu import *
from execu import Exec

H = {"*": []}
def hook(*names):
    def d(f):
        for n in names: H[n] = f
        return f
    return d
def prefix(*names):
    def d(f):
        for n in names: H["*"].append((n, f))
        return f
    return d

def ret(st, v=None): return [(st, "ret", v)]

# ------------------------------------------------------------------ template argument helpers
def targs(d, head):
    """template arguments of the first occurrence of head<...> in demangled name d"""
    i = d.find(head + "<")
    if i < 0: return None
    i += len(head) + 1; depth = 1; out = []; cur = ""
    while i < len(d):
        c = d[i]
        if c in "<(": depth += 1
        if c in ">)": depth -= 1
        if depth == 0: out.append(cur.strip()); return out
        if c == "," and depth == 1: out.append(cur.strip()); cur = ""
        else: cur += c
        i += 1
    return out

SCALAR = {"double": 8, "float": 4, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "bool": 1, "char": 1, "short": 2, "long double": 16}
def esize(ex, T_):
    T_ = T_.replace("const", "").strip()
    c = ex.__dict__.setdefault("_esz", {})
    if T_ in c: return c[T_]
    c[T_] = r = _esize(ex, T_)
    return r
def _esize(ex, T_):
    if T_ in SCALAR: return SCALAR[T_]
    if T_.endswith("*") or T_.startswith("__gnu_cxx::__normal_iterator<"): return 8
    if T_.startswith("std::vector<"): return 24
    if T_.startswith("std::__cxx11::basic_string") or T_ == "std::string": return 32
    if T_.startswith("std::complex<double>"): return 16
    if T_.startswith("std::shared_ptr<"): return 16
    if T_.startswith("std::unique_ptr<"): return 8
    m = re.fullmatch(r"Eigen::Matrix<double, (-?\d+), (-?\d+), .*>", T_)
    if m:
        r, k = int(m.group(1)), int(m.group(2))
        if r > 0 and k > 0: return 8 * r * k
        return 16 if 1 in (r, k) else 24
    for pre in ("class.", "struct."):
        if pre + T_ in ex.mod.types: return ex.mod.size(Ty("named", pre + T_))
    # from the body of an instantiated member
    pats = ["std::vector<%s, " % T_]
    for nm, f in ex.mod.fns.items():
        if f.decl or not f.dem: continue
        if any(f.dem.startswith(p) or (" " + p) in f.dem.split("(")[0] for p in pats) and ("::operator[](" in f.dem or "::end()" in f.dem and False):
            for ln in f.body:
                m = re.search(r"getelementptr inbounds (.*?), ptr %\S+, i64 %", ln)
                if m: return ex.mod.size(irparse.P(tokenize(m.group(1))).type())
    for nm, f in ex.mod.fns.items():
        if f.decl or not f.dem: continue
        if f.dem.startswith("__gnu_cxx::__normal_iterator<%s" % T_) and ("operator++" in f.dem or "operator+(" in f.dem or "operator*" in f.dem):
            for ln in f.body:
                m = re.search(r"getelementptr inbounds (.*?), ptr %\S+, i", ln)
                if m: return ex.mod.size(irparse.P(tokenize(m.group(1))).type())
    base = T_.split("<")[0]
    c = [n for n in ex.mod.types if re.fullmatch(r"(class|struct)\.%s(\.\d+)?" % re.escape(base), n)]
    sz = {ex.mod.size(Ty("named", x)) for x in c}
    if len(sz) == 1: return sz.pop()
    raise Unsupported("size of " + T_)

def load_obj(ex, st, p, size, scalar):
    """value of a whole object of `size` bytes at p"""
    if scalar: return ex.rd(st, p, size)
    if len(p.path) > 1:
        if p.path[-1][2] == 0 and p.path[-1][1] == size:
            v = ex.elem_at(st, p); ex.bounds_path(st, p)
            return v
        base = ex.elem_at(st, p); o0 = p.path[-1][2]
        if not isinstance(base, Struct): raise Unsupported("object inside element")
        cells = {k - o0: c for k, c in base.c.items() if o0 <= k < o0 + size}
    else:
        o = st.objs.get(p.obj) or ex.g0.objs[p.obj]
        o0 = p.path[0]
        cells = {k - o0: c for k, c in o.cells.items() if o0 <= k < o0 + size}
        if not cells:
            v = ex.raw_hit(st, o, p, None)
            if v is not None:
                cells = {j * 8: (8, ex.rd(st, ex.padd(st, p, P(1), j * 8), 8)) for j in range(size // 8)}
    if set(cells) == {0} and (cells[0][0] == size or isinstance(cells[0][1], (Arr, Str, Opaque))): return cells[0][1]
    return Struct(cells)
def store_obj(ex, st, p, v, size):
    if isinstance(v, Struct):
        if len(p.path) > 1 and p.path[-1][2] == 0 and p.path[-1][1] == size: ex.wr(st, p, v, size); return
        if len(p.path) == 1:
            w = st.w(p.obj)
            for k in [k for k in w.cells if p.path[0] <= k < p.path[0] + size]: del w.cells[k]
        for off, (sz, x) in sorted(v.c.items()): ex.wr(st, ex.padd(st, p, P(1), off) if off else p, x, sz)
        return
    ex.wr(st, p, v, size)
def bounds_path(self, st, p):
    v = st.objs[p.obj].cells[p.path[0]][1]
    for j, (idx, es, off) in enumerate(p.path[1:]):
        self.bounds(st, v, idx); v = self.elem(st, v, idx)
        if j < len(p.path) - 2 and isinstance(v, Struct): v = v.c[off][1]
Exec.bounds_path = bounds_path

# ------------------------------------------------------------------ std::vector
def vT(f):
    a = targs(f.dem, "std::vector")
    return a[0]
def is_scalar(T_): return T_ in SCALAR or T_.endswith("*")
def vget(ex, st, p):
    v = ex.rd(st, p)
    if v is UNDEF: raise Unsupported("uninitialised vector")
    if not isinstance(v, Arr): raise Unsupported("vector expected, got %r" % (v,))
    return v
def vput(ex, st, p, v): ex.wr(st, p, v, 24)
def vptr(ex, f, p, i): return Ptr(p.obj, p.path + ((P(i), esize(ex, vT(f)), 0),))
def vzero(ex, T_):
    if T_ in SCALAR: return ZERO
    if T_.endswith("*") or T_.startswith("__gnu_cxx::__normal_iterator<"): return NULL
    if T_.startswith("std::vector<"): return Arr((0,), ())
    if T_.startswith("std::complex<double>"): return Struct({0: (8, ZERO), 8: (8, ZERO)})
    m = re.fullmatch(r"Eigen::Matrix<double, (-?\d+), (-?\d+), .*>", T_)
    if m and "-1" in (m.group(1), m.group(2)): return Arr((0, 1 if m.group(2) == "1" else 0), {}, tag="eig")
    if m: return Struct({})
    if T_.startswith("std::__cxx11::basic_string"): return Str(b"")
    raise Unsupported("default element of " + T_)
def vappend(v, x):
    if v.items is not None: return Arr((v.dims[0] + 1,), v.items + (x,))
    n = v.dims[0]
    return fun_arr((n + 1,), lambda k: vite(EQ(k, n), x, v.get(k)))
def const_arr(n, x):
    c = P(n).const()
    if c is not None and 0 <= c <= 64: return Arr((n,), tuple(x for _ in range(int(c))))
    return fun_arr((n,), lambda k: x)
def vrange(ex, st, a, b):
    """values between two element pointers"""
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and len(a.path) > 1 and a.path[:-1] == b.path[:-1]:
        base = ex.container_at(st, a); i, j = a.path[-1][0], b.path[-1][0]
        if isinstance(i, tuple):
            if i[1] != j[1]: raise Unsupported("range over columns")
            col = i[1]; i, j = i[0], j[0]
            return slice_arr(ex, st, fun_arr((base.dims[0],), lambda k: base.get(k, col)), i, j)
        return slice_arr(ex, st, base, i, j)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and len(a.path) == 1 and a.path == b.path: return Arr((0,), ())
    return None
def slice_arr(ex, st, base, i, j):
    ex.oblige(st, "iterator range valid", And(LE(0, i), LE(i, j), LE(j, base.dims[0])))
    ci, cj = i.const(), j.const()
    if base.items is not None and ci is not None and cj is not None: return Arr((j - i,), base.items[int(ci):int(cj)])
    if not i.m and j == base.dims[0]: return base
    return fun_arr((j - i,), lambda k: base.get(k + i))
def container_at(self, st, p):
    v = st.objs[p.obj].cells[p.path[0]][1]
    for (idx, es, off) in p.path[1:-1]:
        v = self.elem(st, v, idx)
        if isinstance(v, Struct): v = v.c[off][1]
    return v
Exec.container_at = container_at

def raw_range(ex, st, p, n, T_):
    """n objects of type T starting at raw pointer p"""
    es = esize(ex, T_)
    c = n.const()
    if len(p.path) > 1:
        b = Ptr(p.obj, p.path[:-1] + ((p.path[-1][0] + n, p.path[-1][1], p.path[-1][2]),))
        return vrange(ex, st, p, b)
    if c is None: raise Unsupported("symbolic raw range")
    return Arr((n,), tuple(load_obj(ex, st, ex.padd(st, p, P(j), es), es, is_scalar(T_)) for j in range(int(c))))

@prefix("std::vector::")
def vec_hook(ex, st, f, a, I):
    m = f.key.split("::")[-1]; T_ = vT(f); d = f.dem
    if T_ == "bool": raise Unsupported("vector<bool>")
    sc = is_scalar(T_)
    this = a[0] if a else None
    args = a[1:]
    sret = False
    if m == "vector":
        sig = d[d.rindex("::vector"):]
        if "(" not in sig: sig = d
        sig = d[d.index("::vector", d.index("std::vector<")):]
        par = sig[sig.index("("):] if "(" in sig else "()"
        if len(args) == 0 or par == "()" or (len(args) == 1 and "std::allocator<" in par and not "unsigned long" in par and "std::vector" not in par): vput(ex, st, this, Arr((0,), ())); return ret(st)
        if "std::initializer_list<" in par.split(",")[0]:
            vput(ex, st, this, raw_range(ex, st, args[0], ex.inum(args[1]), T_)); return ret(st)
        if par.startswith("(unsigned long"):
            n = ex.inum(args[0])
            if not ex.ask(st, GE(n, 0)): return [(st, "throw", "std::length_error")]
            if len(args) >= 3 or ("const&" in par.split(",")[1] and "allocator" not in par.split(",")[1] if len(par.split(",")) > 1 else False):
                x = load_obj(ex, st, args[1], esize(ex, T_), sc)
            else: x = vzero(ex, T_)
            vput(ex, st, this, const_arr(n, x)); return ret(st)
        if par.startswith("(std::vector<") and "&&" in par:
            v = vget(ex, st, args[0]); vput(ex, st, this, v); vput(ex, st, args[0], Arr((0,), ())); return ret(st)
        if par.startswith("(std::vector<"):
            vput(ex, st, this, vget(ex, st, args[0])); return ret(st)
        if len(args) >= 2 and isinstance(args[0], Ptr) and isinstance(args[1], Ptr):
            v = vrange(ex, st, args[0], args[1])
            if v is None:
                n = ex.pdiff(st, args[1], args[0])
                v = raw_range(ex, st, args[0], tdiv(n, P(esize(ex, T_))), T_)
            vput(ex, st, this, v); return ret(st)
        raise Unsupported("vector constructor " + par)
    if m == "~vector": return ret(st)
    if m == "size": return vget(ex, st, this).dims[0]
    if m == "capacity": return vget(ex, st, this).dims[0]
    if m == "max_size": return P(LIM * 16)
    if m == "empty": return EQ(vget(ex, st, this).dims[0], 0)
    if m in ("reserve", "shrink_to_fit"):
        return ret(st)
    if m in ("push_back", "emplace_back"):
        v = vget(ex, st, this)
        if m == "emplace_back" and not sc and not _same_type_arg(d, T_):
            es = esize(ex, T_)
            tmp = Ptr(st.new("alloca", es, "emplace"), (0,))
            out = construct(ex, st, T_, tmp, args)
            res = []
            for s2, k, r in out:
                if k == "ret":
                    x = load_obj(ex, s2, tmp, es, False)
                    v = vget(ex, s2, this); vput(ex, s2, this, vappend(v, x)); r = vptr(ex, f, this, v.dims[0])
                res.append((s2, k, r))
            return res
        x = load_obj(ex, st, args[0], esize(ex, T_), sc) if args else vzero(ex, T_)
        if args and sc and m == "emplace_back":
            pass
        vput(ex, st, this, vappend(v, x))
        return ret(st, vptr(ex, f, this, v.dims[0]))
    if m in ("operator[]", "at"):
        v = vget(ex, st, this); i = ex.inum(args[0])
        if m == "at":
            if not ex.ask(st, And(LE(0, i), LT(i, v.dims[0]))): return [(st, "throw", "std::out_of_range")]
        else: ex.oblige(st, "vector index in range", And(LE(0, i), LT(i, v.dims[0])))
        return vptr(ex, f, this, i)
    if m in ("begin", "cbegin", "data"): vget(ex, st, this); return vptr(ex, f, this, 0)
    if m in ("end", "cend"): return vptr(ex, f, this, vget(ex, st, this).dims[0])
    if m == "front":
        v = vget(ex, st, this); ex.oblige(st, "front of non-empty vector", GT(v.dims[0], 0)); return vptr(ex, f, this, 0)
    if m == "back":
        v = vget(ex, st, this); ex.oblige(st, "back of non-empty vector", GT(v.dims[0], 0)); return vptr(ex, f, this, v.dims[0] - 1)
    if m == "clear": vput(ex, st, this, Arr((0,), ())); return ret(st)
    if m == "pop_back":
        v = vget(ex, st, this); ex.oblige(st, "pop_back of non-empty vector", GT(v.dims[0], 0))
        if v.items is not None: vput(ex, st, this, Arr((v.dims[0] - 1,), v.items[:-1]))
        else: vput(ex, st, this, Arr((v.dims[0] - 1,), None, v.ix, v.body))
        return ret(st)
    if m == "resize":
        v = vget(ex, st, this); n = ex.inum(args[0])
        if not ex.ask(st, GE(n, 0)): return [(st, "throw", "std::length_error")]
        x = load_obj(ex, st, args[1], esize(ex, T_), sc) if len(args) > 1 else vzero(ex, T_)
        c = n.const()
        if v.items is not None and c is not None and c <= 256:
            it = list(v.items[:int(c)]) + [x] * (int(c) - len(v.items))
            vput(ex, st, this, Arr((n,), tuple(it)))
        elif v.dims[0].const() == 0: vput(ex, st, this, const_arr(n, x))
        else:
            old = v.dims[0]
            vput(ex, st, this, fun_arr((n,), lambda k: vite(LT(k, old), v.get(k), x)))
        return ret(st)
    if m == "assign":
        if isinstance(args[0], Ptr):
            v = vrange(ex, st, args[0], args[1])
            if v is None: v = raw_range(ex, st, args[0], tdiv(ex.pdiff(st, args[1], args[0]), P(esize(ex, T_))), T_)
        else:
            n = ex.inum(args[0]); v = const_arr(n, load_obj(ex, st, args[1], esize(ex, T_), sc))
        vput(ex, st, this, v); return ret(st)
    if m == "operator=":
        if "initializer_list" in d[d.index("operator="):]:
            vput(ex, st, this, raw_range(ex, st, args[0], ex.inum(args[1]), T_)); return ret(st, this)
        v = vget(ex, st, args[0]); vput(ex, st, this, v)
        if d.rstrip().endswith("&&)") and args[0] != this: vput(ex, st, args[0], Arr((0,), ()))
        return ret(st, this)
    if m == "swap":
        x, y = vget(ex, st, this), vget(ex, st, args[0]); vput(ex, st, this, y); vput(ex, st, args[0], x); return ret(st)
    if m == "insert":
        # insert(pos, value) / insert(pos, first, last) / insert(pos, n, value)
        v = vget(ex, st, this); pos = args[0].path[-1][0]
        if len(args) == 2: ins = Arr((1,), (load_obj(ex, st, args[1], esize(ex, T_), sc),))
        elif isinstance(args[1], Ptr): ins = vrange(ex, st, args[1], args[2])
        else: ins = const_arr(ex.inum(args[1]), load_obj(ex, st, args[2], esize(ex, T_), sc))
        if ins is None: raise Unsupported("insert range")
        n, k0 = v.dims[0], ins.dims[0]
        ex.oblige(st, "insert position in range", And(LE(0, pos), LE(pos, n)))
        vv = v
        vput(ex, st, this, concretise(fun_arr((n + k0,), lambda k: vite(LT(k, pos), vv.get(k), vite(LT(k, pos + k0), ins.get(k - pos), vv.get(k - k0))))))
        return ret(st, vptr(ex, f, this, pos))
    if m == "erase":
        v = vget(ex, st, this); pos = args[0].path[-1][0]
        e = args[1].path[-1][0] if len(args) > 1 else pos + 1
        ex.oblige(st, "erase range valid", And(LE(0, pos), LE(pos, e), LE(e, v.dims[0])))
        vput(ex, st, this, concretise(fun_arr((v.dims[0] - (e - pos),), lambda k: vite(LT(k, pos), v.get(k), v.get(k + (e - pos))))))
        return ret(st, vptr(ex, f, this, pos))
    if m in ("rbegin", "rend", "crbegin", "crend"): return NotImplemented
    if m == "get_allocator": return ret(st)
    raise Unsupported("std::vector::" + m)
def _same_type_arg(d, T_):
    a = targs(d, "emplace_back")
    return a is not None and len(a) == 1 and a[0].replace("const&", "").replace("&", "").replace(" const", "").strip() == T_

def construct_vector(ex, st, T_, p, args, types):
    """std::vector<...> from forwarded references"""
    E = targs(T_, "std::vector")[0]; sc = is_scalar(E)
    plain = lambda t: t.replace("const", "").replace("&", "").strip()
    ts = [plain(t) for t in types]
    if not args: vput(ex, st, p, Arr((0,), ())); return ret(st)
    if len(args) == 1 and ts[0].startswith("std::vector<"):
        vput(ex, st, p, vget(ex, st, args[0]))
        if "&" not in types[0] or types[0].endswith("&&"): vput(ex, st, args[0], Arr((0,), ()))
        return ret(st)
    def val(x, t): return ex.inum(ex.rd(st, x, SCALAR[t])) if t in SCALAR and isinstance(x, Ptr) else ex.inum(x)
    if ts[0] in ("int", "unsigned int", "long", "unsigned long"):
        n = val(args[0], ts[0])
        if not ex.ask(st, GE(n, 0)): return [(st, "throw", "std::length_error")]
        vput(ex, st, p, const_arr(n, load_obj(ex, st, args[1], esize(ex, E), sc) if len(args) > 1 else vzero(ex, E))); return ret(st)
    if len(args) == 2:
        b, e = ex.rd(st, args[0], 8), ex.rd(st, args[1], 8)
        v = vrange(ex, st, b, e)
        if v is None: v = raw_range(ex, st, b, tdiv(ex.pdiff(st, e, b), P(esize(ex, E))), E)
        vput(ex, st, p, v); return ret(st)
    raise Unsupported("constructor of %s from %s" % (T_, types))
def construct(ex, st, T_, p, args, types=()):
    """run T's constructor taking the forwarded references"""
    if T_.startswith("std::vector<") and len(types) == len(args): return construct_vector(ex, st, T_, p, args, types)
    base = T_.split("<")[0].split("::")[-1]
    c = [(nm, f) for nm, f in ex.mod.fns.items() if f.dem and (f.dem.startswith(T_ + "::" + base + "(") or f.dem.startswith(T_ + "::" + base + "<"))]
    for nm, f in c:
        ex.mod.head(f)
        if len(f.params) == len(args) + 1:
            av = []
            for (t, n_, at), x in zip(f.params[1:], args):
                av.append(x if t.k == "ptr" else ex.load(st, t, x))
            return ex.call(st, nm, [p] + av, None)
    raise Unsupported("constructor of " + T_)

@hook("std::swap")
def std_swap(ex, st, f, a, I):
    x, y = ex.rd(st, a[0]), ex.rd(st, a[1])
    if isinstance(x, Arr) and isinstance(y, Arr):
        ex.wr(st, a[0], y, 24); ex.wr(st, a[1], x, 24); return ret(st)
    return NotImplemented

@hook("std::operator==", "std::operator!=")
def std_eq(ex, st, f, a, I):
    x, y = (ex.rd(st, p) if isinstance(p, Ptr) and p.obj is not None else p for p in a[:2]) if len(a) == 2 else (None, None)
    if isinstance(x, Str):
        if isinstance(y, Opaque) and y.tag == "cstr": y = Str(y.p.rstrip(b"\0"))
        if isinstance(y, Str):
            r = str_eq(x, y)
            return r if f.key.endswith("==") else Not(r)
    return NotImplemented
def str_eq(x, y):
    if x.s == y.s: return TRUE
    if isinstance(x.s, bytes) and isinstance(y.s, bytes): return FALSE
    k = sorted([repr(x.s), repr(y.s)])
    return bapp("streq", k[0], k[1])

@hook("std::uninitialized_copy", "std::copy", "std::__copy_move_a", "std::__uninitialized_copy_a", "std::move_backward")
def std_copy(ex, st, f, a, I):
    if "move_backward" in f.key or len(a) < 3: return NotImplemented
    if not all(isinstance(x, Ptr) for x in a[:3]): return NotImplemented
    src = vrange(ex, st, a[0], a[1])
    if src is None:
        try:
            n = ex.pdiff(st, a[1], a[0]).const()
        except Unsupported: return NotImplemented
        if n is None: return NotImplemented
        ex.memcpy(st, a[2], a[0], P(n)); return ret(st, ex.padd(st, a[2], P(1), int(n)))
    d = a[2]
    if len(d.path) > 1 and not isinstance(d.path[-1][0], tuple):
        c = ex.container_at(st, d); o = d.path[-1][0]; n = src.dims[0]
        ex.oblige(st, "copy destination in range", And(LE(0, o), LE(o + n, c.dims[0])))
        new = concretise(fun_arr(c.dims, lambda k: vite(And(LE(o, k), LT(k, o + n)), src.get(k - o), c.get(k))))
        ex.put_container(st, d, new)
        return ret(st, Ptr(d.obj, d.path[:-1] + ((o + n,) + d.path[-1][1:],)))
    if len(d.path) > 1: return NotImplemented
    n = src.dims[0].const()
    if n is None: return NotImplemented
    es = a[0].path[-1][1]
    for j in range(int(n)): store_obj(ex, st, ex.padd(st, d, P(j), es), src.get(P(j)), es)
    return ret(st, ex.padd(st, d, P(int(n)), es))
def put_container(self, st, p, new):
    """replace the container p points into"""
    if len(p.path) == 2:
        w = st.w(p.obj); c = w.cells[p.path[0]]; w.cells[p.path[0]] = (c[0], new); return
    q = Ptr(p.obj, p.path[:-1])
    self.wr(st, q, new, 24)
Exec.put_container = put_container

@hook("std::reverse")
def std_reverse(ex, st, f, a, I):
    src = vrange(ex, st, a[0], a[1])
    if src is None: return NotImplemented
    n = src.dims[0]
    replace_range(ex, st, a[0], n, lambda k: src.get(n - 1 - k))
    return ret(st)
def replace_range(ex, st, p, n, g):
    """elements p[0..n) become g(k)"""
    c = ex.container_at(st, p); o = p.path[-1][0]
    if isinstance(o, tuple):
        o, col = o
        new = fun_arr(c.dims, lambda k, j: vite(And(EQ(j, col), LE(o, k), LT(k, o + n)), g(k - o), c.get(k, j)), c.tag)
    else: new = fun_arr(c.dims, lambda k: vite(And(LE(o, k), LT(k, o + n)), g(k - o), c.get(k)), c.tag)
    ex.put_container(st, p, concretise(new))
@hook("std::sort", "std::stable_sort")
def std_sort(ex, st, f, a, I):
    """contract: the range becomes non-decreasing, every element one of the old ones (constant sizes: executed)"""
    if len(a) != 2: return NotImplemented
    src = vrange(ex, st, a[0], a[1])
    if src is None: return NotImplemented
    n = src.dims[0]
    if n.const() is not None: return NotImplemented
    i = st.new("alloca", 1); nm, pn = "sorted!%d" % i, "perm!%d" % i
    smt.SIG[nm] = "I"; smt.SIG[pn] = "I"
    g = lambda k: app(nm, k)
    k = fresh("q", "I")
    st.assume(Forall(k, ZERO, n - 1, LE(g(k), g(k + 1))))
    ex.__dict__.setdefault("sorts", []).append((src if len(src.dims) == 1 else None, g, n))
    replace_range(ex, st, a[0], n, g)
    return ret(st)

@hook("std::lower_bound", "std::upper_bound")
def std_bound(ex, st, f, a, I):
    """contract: position i in [0,n] with x[k] < v for k<i and x[k] >= v for k>=i (resp. <=, >); precondition: partitioned"""
    if len(a) != 3: return NotImplemented
    src = vrange(ex, st, a[0], a[1])
    if src is None: return NotImplemented
    v = ex.num(ex.rd(st, a[2], 8))
    low = "lower" in f.key
    n = src.dims[0]
    e = lambda x: ex.num(src.get(x))
    ps = sorted({x for x in (e(fresh("K", "I")).syms() | n.syms()) if "!" in x.args[0] and not x.args[0].startswith("K!")}, key=lambda x: x.id)
    key = ("bound", low, src.key() if hasattr(src, "key") else repr(src), tuple(x.id for x in ps))
    memo = ex.__dict__.setdefault("_bounds", {})
    if key not in memo:
        nm = "%s!%d" % ("lb" if low else "ub", st.new("alloca", 1)); memo[key] = nm
        smt.SIG[nm] = "R" + "".join(x.sort for x in ps)
        def ax(w, *args):
            S = Subst({x: y for x, y in zip(ps, args)}); i = app(nm, w, *args, sort="I")
            k, k2 = fresh("q", "I"), fresh("q", "I")
            lt = (lambda x: LT(S.poly(e(x)), w)) if low else (lambda x: LE(S.poly(e(x)), w))
            return [And(LE(0, i), LE(i, S.poly(n))), Forall(k, ZERO, i, lt(k)), Forall(k2, i, S.poly(n), Not(lt(k2)))]
        smt.DEFAX[nm] = ax
    nm = memo[key]
    i = app(nm, v, *[P(x) for x in ps], sort="I")
    k = fresh("q", "I")
    ex.oblige(st, "search range sorted", Forall(k, ZERO, n - 1, LE(e(k), e(k + 1))))
    for b in smt.DEFAX[nm](v, *[P(x) for x in ps]): st.assume(b, True)
    lt = (lambda x: LT(e(x), v)) if low else (lambda x: LE(e(x), v))
    st.assume(Or(EQ(i, 0), lt(i - 1)), True); st.assume(Or(EQ(i, n), Not(lt(i))), True); st.assume(Or(EQ(n, 0), LT(i, n), lt(n - 1)), True); st.assume(Or(EQ(n, 0), LT(ZERO, i), Not(lt(ZERO))), True)
    return ret(st, ex.padd(st, a[0], i, a[0].path[-1][1]))

@hook("std::min_element", "std::max_element")
def std_extreme(ex, st, f, a, I):
    """contract: the first position of the smallest (largest) element, the end of an empty range"""
    if len(a) != 2: return NotImplemented
    src = vrange(ex, st, a[0], a[1])
    if src is None or src.dims[0].const() is not None: return NotImplemented
    n = src.dims[0]; e = lambda x: ex.num(src.get(x))
    if any("!" in x.args[0] and not x.args[0].startswith("K!") for x in e(fresh("K", "I")).syms() | n.syms()): return NotImplemented
    i = fresh("ext", "I"); k, k2 = fresh("q", "I"), fresh("q", "I"); le = (lambda x, y: LE(x, y)) if "min" in f.key else (lambda x, y: LE(y, x))
    st.assume(And(LE(0, i), LE(i, n))); st.assume(Or(LT(i, n), EQ(n, 0)))
    st.assume(Forall(k, ZERO, n, le(e(i), e(k)))); st.assume(Forall(k2, ZERO, i, Not(le(e(k2), e(i)))))
    st.assume(Or(EQ(n, 0), And(le(e(i), e(ZERO)), le(e(i), e(n - 1)))))
    return ret(st, ex.padd(st, a[0], i, a[0].path[-1][1]))

@hook("std::is_sorted")
def std_is_sorted(ex, st, f, a, I):
    """contract: true iff no element is below its predecessor"""
    if len(a) != 2: return NotImplemented
    src = vrange(ex, st, a[0], a[1])
    if src is None: return NotImplemented
    n = src.dims[0]; c = n.const()
    e = lambda x: ex.num(src.get(x))
    if c is not None: return And(*[LE(e(P(j)), e(P(j + 1))) for j in range(int(c) - 1)])
    k = fresh("q", "I")
    return Forall(k, ZERO, n - 1, LE(e(k), e(k + 1)))
@hook("std::distance", "std::__distance")
def std_distance(ex, st, f, a, I):
    if all(isinstance(x, Ptr) and len(x.path) > 1 for x in a[:2]):
        d = ex.pdiff(st, a[1], a[0]); return tdiv(d, P(a[0].path[-1][1]))
    return NotImplemented
@hook("std::advance")
def std_advance(ex, st, f, a, I):
    p = ex.rd(st, a[0])
    if isinstance(p, Ptr) and len(p.path) > 1:
        n = a[1] if isinstance(a[1], Poly) else None
        if n is None: return NotImplemented
        ex.wr(st, a[0], ex.padd(st, p, n, p.path[-1][1]), 8); return ret(st)
    return NotImplemented

# ------------------------------------------------------------------ runtime
@hook("__assert_fail")
def h_assert(ex, st, f, a, I): return [(st, "abort", "assert")]
@hook("abort", "std::terminate", "__clang_call_terminate", "std::abort")
def h_abort(ex, st, f, a, I): return [(st, "abort", "abort")]
@hook("exit", "_exit", "quick_exit")
def h_exit(ex, st, f, a, I): return [(st, "exit", a[0])]
@hook("__cxa_allocate_exception")
def h_cxa_alloc(ex, st, f, a, I): return Ptr(st.new("exc", 256, "exception"), (0,))
@hook("__cxa_free_exception", "__cxa_end_catch", "__cxa_atexit")
def h_nop(ex, st, f, a, I): return ret(st, ZERO)
@hook("__cxa_throw", "__cxa_rethrow")
def h_throw(ex, st, f, a, I):
    ti = a[1] if len(a) > 1 else None
    nm = None
    if isinstance(ti, Ptr):
        nm = (st.objs.get(ti.obj) or ex.g0.objs[ti.obj]).name
    return [(st, "throw", nm)]
for _n in ("__throw_out_of_range_fmt", "__throw_length_error", "__throw_bad_alloc", "__throw_logic_error", "__throw_bad_function_call", "__throw_out_of_range"):
    H["std::" + _n] = (lambda nm: lambda ex, st, f, a, I: [(st, "throw", nm)])(_n)
for _n in ("runtime_error", "logic_error", "invalid_argument", "out_of_range", "domain_error", "length_error", "range_error", "overflow_error", "underflow_error", "exception", "bad_alloc"):
    H["std::%s::%s" % (_n, _n)] = h_nop
    H["std::%s::~%s" % (_n, _n)] = h_nop

@hook("operator new", "operator new[]", "malloc")
def h_new(ex, st, f, a, I):
    n = ex.inum(a[0]); c = n.const()
    if c is not None: return Ptr(st.new("heap", int(c), "new"), (0,))
    # symbolic size: array of 8-byte elements
    if all(Fraction(v) % 8 == 0 for v in n.m.values()):
        i = st.new("heap", 0, "new[]"); cnt = n.scale(Fraction(1, 8))
        nm = "undef!%d" % i
        st.w(i).cells[0] = (8, fun_arr((cnt,), lambda k: app(nm, k)))
        return Ptr(i, (0, (ZERO, 8, 0)))
    raise Unsupported("allocation of symbolic size")
@hook("operator delete", "operator delete[]", "free")
def h_delete(ex, st, f, a, I): return ret(st)
@hook("__cxa_guard_acquire")
def h_guard(ex, st, f, a, I): return ONE
@hook("__cxa_guard_release", "__cxa_guard_abort")
def h_guard2(ex, st, f, a, I): return ret(st)
@hook("__cxa_pure_virtual")
def h_pure(ex, st, f, a, I): return [(st, "abort", "pure virtual")]

def intrinsic(ex, st, name, a, I):
    b = name.split(".")
    k = b[1]
    if k in ("lifetime", "dbg", "assume", "experimental", "prefetch", "stacksave", "stackrestore", "donothing", "invariant", "var"): return ret(st)
    if k in ("memcpy", "memmove"): ex.memcpy(st, a[0], a[1], ex.inum(a[2])); return ret(st)
    if k == "memset":
        n = ex.inum(a[2]).const(); v = ex.inum(a[1]).const()
        if n is None: raise Unsupported("memset of symbolic size")
        n = int(n)
        if v != 0: raise Unsupported("memset non-zero")
        p = a[0]
        if len(p.path) == 1:
            w = st.w(p.obj); tys = [(off, 8) for off in range(0, n - n % 8, 8)] + [(off, 1) for off in range(n - n % 8, n)]
            for off, sz in tys: ex.wr(st, ex.padd(st, p, P(1), off), ZERO, sz)
            return ret(st)
        es = p.path[-1][1]
        for j in range(n // es): ex.wr(st, ex.padd(st, p, P(j), es), ZERO, es)
        return ret(st)
    if k == "trap": return [(st, "abort", "trap")]
    if k == "expect": return a[0]
    if k == "is" and b[2] == "constant": return FALSE
    if k == "is" and b[2] == "fpclass": return FALSE
    if k in ("umul", "smul", "uadd", "sadd", "usub", "ssub") and b[2] == "with":
        x, y = ex.inum(a[0]), ex.inum(a[1])
        r = x * y if k[1:] == "mul" else (x + y if k[1:] == "add" else x - y)
        return Agg([r, FALSE])
    if k in ("umax", "smax", "umin", "smin"):
        x, y = ex.inum(a[0]), ex.inum(a[1])
        if k[0] == "u": x, y = ex.unsigned(st, x, 64), ex.unsigned(st, y, 64)
        return ite(LE(x, y), y, x) if k.endswith("max") else ite(LE(x, y), x, y)
    if k == "abs":
        return fabs(ex.inum(a[0]))
    if k in MATH:
        return MATH[k](ex, st, a)
    if k == "fmuladd":
        x, y, z = (ex.num(v) for v in a)
        return ex.fbin(st, "fadd", ex.fbin(st, "fmul", x, y), z)
    if k == "ctlz":
        x = ex.inum(a[0]).const()
        if x is None: raise Unsupported("ctlz of a symbolic value")
        w = int(b[2][1:]); return P(w - int(x).bit_length())
    if k == "ctpop": raise Unsupported("ctpop")
    if k == "eh": return ZERO
    raise Unsupported("intrinsic " + name)
H["$intrinsic"] = intrinsic

def ufun(ex, st, fv, a, I):
    """uninterpreted user function (pure): value depends on its arguments only"""
    nm = fv.p
    args = []
    for x in a:
        if isinstance(x, Ptr): x = ex.rd(st, x, 8)
        args.append(ex.num(x))
    return ret(st, app(nm, *args))
H["$ufun"] = ufun

# ------------------------------------------------------------------ mathematics
def m1(fn, fpn):
    def g(ex, st, a):
        x = ex.num(a[0])
        return app(fpn, x) if ex.fp else fn(x)
    return g
def m2(fn, fpn):
    def g(ex, st, a):
        x, y = ex.num(a[0]), ex.num(a[1])
        return app(fpn, x, y) if ex.fp else fn(x, y)
    return g
def fmod_(x, m):
    """exact real meaning: x - m*trunc(x/m)"""
    if m.const() is None and m != smt.PI * 2: return T.rebuild_app("fmod", (x, m), "R")
    t = x * inv(m)
    return m * (t - ite(GE(t, 0), ffloor(t), -ffloor(-t)))
def ap(n):
    return lambda *x: T.rebuild_app(n, x, "R")
def atan2(y, x):
    return app("atan2", y, x)
def fmin_(x, y): return ite(LT(y, x), y, x)
def fmax_(x, y): return ite(LT(x, y), y, x)
def fround(x):
    if is_int(x): return x
    return ite(GE(x, 0), ffloor(x + Fraction(1, 2)), -ffloor(-x + Fraction(1, 2)))
def ftrunc(x): return ite(GE(x, 0), ffloor(x), -ffloor(-x))
def fexp2(x): return power(P(2), x) if is_int(x) else app("pow", P(2), x)
MATH = {"fabs": m1(fabs, "fabs64"), "sqrt": m1(fsqrt, "sqrt64"), "sin": m1(fsin, "sin64"), "cos": m1(fcos, "cos64"), "tan": m1(lambda x: fsin(x) * inv(fcos(x)) if x.m else ZERO, "tan64"),
        "exp": m1(ap("exp"), "exp64"), "log": m1(ap("log"), "log64"), "log10": m1(ap("log10"), "log10_64"), "floor": m1(ffloor, "floor64"), "ceil": m1(fceil, "ceil64"),
        "asin": m1(ap("asin"), "asin64"), "acos": m1(ap("acos"), "acos64"), "atan": m1(ap("atan"), "atan64"), "atan2": m2(atan2, "atan2_64"),
        "fmod": m2(fmod_, "fmod64"), "pow": m2(pow_real, "pow64"), "powi": m2(pow_real, "powi64"), "fmax": m2(fmax_, "fmax64"), "fmin": m2(fmin_, "fmin64"), "maxnum": m2(fmax_, "fmax64"), "minnum": m2(fmin_, "fmin64"),
        "round": m1(fround, "round64"), "trunc": m1(ftrunc, "trunc64"), "rint": m1(ap("rint"), "rint64"), "nearbyint": m1(ap("rint"), "rint64"),
        "sinh": m1(ap("sinh"), "sinh64"), "cosh": m1(ap("cosh"), "cosh64"), "tanh": m1(ap("tanh"), "tanh64"), "exp2": m1(fexp2, "exp2_64"), "hypot": m2(lambda x, y: fsqrt(x * x + y * y), "hypot64"),
        "remainder": m2(ap("remainder"), "remainder64"), "lround": m1(fround, "lround64"), "cbrt": m1(ap("cbrt"), "cbrt64"), "copysign": m2(ap("copysign"), "copysign64"), "fma": None}
del MATH["fma"]
for _k, _g in MATH.items():
    for _s in ("", "l"):
        H[_k + _s] = (lambda g: lambda ex, st, f, a, I: g(ex, st, a))(_g)
@hook("cabs")
def h_cabs(ex, st, f, a, I):
    x, y = (ex.num(v) for v in (a if len(a) == 2 else a[0].v))
    return fsqrt(x * x + y * y)
@hook("carg")
def h_carg(ex, st, f, a, I):
    x, y = (ex.num(v) for v in (a if len(a) == 2 else a[0].v))
    return atan2(y, x)
@hook("__muldc3")
def h_muldc3(ex, st, f, a, I):
    p, q, r, s = (ex.num(v) for v in a)
    return Agg([p * r - q * s, p * s + q * r])
@hook("__divdc3")
def h_divdc3(ex, st, f, a, I):
    p, q, r, s = (ex.num(v) for v in a)
    d = r * r + s * s
    ex.oblige(st, "complex divisor non-zero", NE(d, 0), soft=True)
    return Agg([(p * r + q * s) * inv(d), (q * r - p * s) * inv(d)])
@hook("std::isnan", "std::isinf", "__isnan", "isnan", "isinf", "__isinf")
def h_isnan(ex, st, f, a, I):
    if ex.fp: return bapp("fisnan" if "nan" in f.key else "fisinf", ex.num(a[0]))
    x = ex.num(a[0])
    return B(x == app("nan")) if "nan" in f.key else B(x == app("inf") or x == -app("inf"))
@hook("std::isfinite")
def h_isfinite(ex, st, f, a, I): return B(not (ex.num(a[0]) in (app("nan"), app("inf"), -app("inf"))))

# ------------------------------------------------------------------ output is irrelevant
@prefix("std::basic_ostream", "std::ostream", "std::operator<<", "std::endl", "std::setw", "std::setprecision", "std::flush", "std::basic_ios", "std::ios_base", "std::basic_ofstream", "std::basic_filebuf")
def h_io(ex, st, f, a, I):
    if I is not None and I.ty is not None and I.ty.k == "ptr": return a[0] if a else NULL
    return ret(st, UNDEF)
@prefix("std::__cxx11::basic_ostringstream", "std::__cxx11::basic_stringstream", "std::__cxx11::basic_stringbuf")
def h_ss(ex, st, f, a, I):
    if f.key.endswith("::str"): ex.wr(st, a[0], Str("$io"), 32); return ret(st)
    return ret(st, UNDEF)

# ------------------------------------------------------------------ std::string
@prefix("std::__cxx11::basic_string::")
def h_string(ex, st, f, a, I):
    m = f.key.split("::")[-1]
    if m in ("basic_string",):
        par = f.dem[f.dem.rindex("basic_string") if False else 0:]
        if len(a) >= 2 and isinstance(a[1], Ptr):
            v = ex.rd(st, a[1])
            if isinstance(v, Str):
                ex.wr(st, a[0], v, 32)
                return ret(st)
            if isinstance(v, Opaque) and v.tag == "cstr": ex.wr(st, a[0], Str(v.p.rstrip(b"\0")), 32); return ret(st)
            if isinstance(v, Poly) and v.const() == 0: ex.wr(st, a[0], Str(b""), 32); return ret(st)
        ex.wr(st, a[0], Str(b"") if len(a) == 1 else Str("$s%d" % st.new("alloca", 1)), 32); return ret(st)
    if m == "~basic_string": return ret(st)
    if m in ("operator=", "assign"):
        v = ex.rd(st, a[1])
        if isinstance(v, Opaque) and v.tag == "cstr": v = Str(v.p.rstrip(b"\0"))
        ex.wr(st, a[0], v, 32); return ret(st, a[0])
    if m == "compare":
        x, y = ex.rd(st, a[0]), ex.rd(st, a[1])
        if isinstance(y, Opaque) and y.tag == "cstr": y = Str(y.p.rstrip(b"\0"))
        return ite(str_eq(x, y), ZERO, app("strcmp", repr(x.s), repr(y.s), sort="I"))
    if m in ("c_str", "data"): return Ptr(st.new("alloca", 8, "cstr"), (0,))
    if m in ("empty", "size", "length"):
        x = ex.rd(st, a[0])
        if isinstance(x, Str) and isinstance(x.s, bytes): return P(len(x.s)) if m != "empty" else B(not x.s)
        return app("strlen", repr(x.s), sort="I") if m != "empty" else EQ(app("strlen", repr(x.s), sort="I"), 0)
    if m in ("operator+=", "append"): ex.wr(st, a[0], Str("$s%d" % st.new("alloca", 1)), 32); return ret(st, a[0])
    raise Unsupported("std::string::" + m)
@hook("std::allocator::allocator", "std::allocator::~allocator", "std::__new_allocator::__new_allocator", "std::__new_allocator::~__new_allocator")
def h_alloc(ex, st, f, a, I): return ret(st)
@hook("std::operator+", "std::__cxx11::to_string", "std::to_string")
def h_strplus(ex, st, f, a, I):
    if "basic_string" in f.dem: ex.wr(st, a[0], Str("$s%d" % st.new("alloca", 1)), 32); return ret(st)
    return NotImplemented

# ------------------------------------------------------------------ smart pointers, std::function
def params_text(d):
    """the parameter list of a demangled name: its last parenthesis at template depth 0"""
    if not d.rstrip().endswith(")"): d = d[:d.rindex(")") + 1] if ")" in d else d + "()"
    depth = 0
    for i in range(len(d) - 1, -1, -1):
        if d[i] == ")": depth += 1
        elif d[i] == "(":
            depth -= 1
            if depth == 0: return d[i:]
    return "()"
@prefix("std::shared_ptr::", "std::__shared_ptr::", "std::__shared_ptr_access::", "std::unique_ptr::")
def h_sptr(ex, st, f, a, I):
    m = f.key.split("::")[-1]; uniq = f.key.startswith("std::unique_ptr"); sz = 8 if uniq else 16
    if m in ("shared_ptr", "__shared_ptr", "unique_ptr"):
        if len(a) == 1: ex.wr(st, a[0], NULL, sz); return ret(st)
        x = a[1]
        par = params_text(f.dem)
        if ("shared_ptr<" in par or "unique_ptr<" in par) and isinstance(x, Ptr) and x.obj is not None:
            v = ex.rd(st, x)
            if v is UNDEF: v = NULL
            ex.wr(st, a[0], v, sz)
            if "&&" in par: ex.wr(st, x, NULL, sz)
            return ret(st)
        if isinstance(x, Ptr): ex.wr(st, a[0], x, sz); return ret(st)
        ex.wr(st, a[0], NULL, sz); return ret(st)
    if m.startswith("~"): return ret(st)
    if m in ("operator->", "get", "operator*", "_M_get"):
        v = ex.rd(st, a[0])
        if not isinstance(v, Ptr): raise Unsupported("smart pointer content")
        return v
    if m == "operator=":
        x = a[1]
        v = ex.rd(st, x) if isinstance(x, Ptr) and x.obj is not None else NULL
        ex.wr(st, a[0], v, sz)
        if "&&)" in f.dem and x != a[0]: ex.wr(st, x, NULL, sz)
        return ret(st, a[0])
    if m == "operator bool" or f.key.endswith("operator bool"):
        return B(ex.rd(st, a[0]).obj is not None)
    if m == "reset": ex.wr(st, a[0], a[1] if len(a) > 1 else NULL, sz); return ret(st)
    if m == "release": v = ex.rd(st, a[0]); ex.wr(st, a[0], NULL, sz); return v
    if m == "use_count": return fresh("usecount", "I")
    raise Unsupported(f.key)
@hook("std::make_shared", "std::make_unique")
def h_make(ex, st, f, a, I):
    T_ = targs(f.dem, f.key)[0]
    sret, args = a[0], a[1:]
    if "unique" in f.key and not T_.startswith("std::"): return NotImplemented     # its body: operator new, the constructor
    es = esize(ex, T_)
    p = Ptr(st.new("heap", es, T_), (0,))
    out = []
    for s2, k, r in construct(ex, st, T_, p, args, targs(f.dem, f.key)[1:]):
        if k == "ret": ex.wr(s2, sret, p, 16 if "shared" in f.key else 8); r = None
        out.append((s2, k, r))
    return out
@prefix("std::function::")
def h_function(ex, st, f, a, I):
    m = f.key.split("::")[-1]
    if m == "function":
        if len(a) == 1: ex.wr(st, a[0], NULL, 32); return ret(st)
        x = a[1]
        if isinstance(x, Ptr):
            v = ex.rd(st, x)
            if isinstance(v, (FnPtr,)) or (isinstance(v, Opaque) and v.tag in ("ufun", "closure")): ex.wr(st, a[0], v, 32); return ret(st)
            # functor object: remember it by address with its call operator
            par = f.dem
            ty = targs(par, "function::function") or targs(par[par.index("::function<") + 2:] if "::function<" in par[10:] else par, "function")
            size = (st.objs[x.obj].size if len(x.path) == 1 else 8)
            c = load_obj(ex, st, x, size, False)
            p = Ptr(st.new("heap", size, "closure"), (0,)); store_obj(ex, st, p, c, size)
            name = ty[0] if ty else None
            cand = [nm for nm, g in ex.mod.fns.items() if g.dem and g.dem.split("(")[0].endswith("operator") and name and g.dem.startswith(name + "::operator()")]
            if not cand: raise Unsupported("std::function from " + str(name))
            ex.wr(st, a[0], Opaque("closure", (p, cand[0])), 32); return ret(st)
        if isinstance(x, FnPtr) or isinstance(x, Opaque): ex.wr(st, a[0], x, 32); return ret(st)
        raise Unsupported("std::function constructor")
    if m.startswith("~"): return ret(st)
    if m == "operator=":
        v = ex.rd(st, a[1]) if isinstance(a[1], Ptr) and a[1].obj is not None else a[1]
        ex.wr(st, a[0], v, 32); return ret(st, a[0])
    if f.key.endswith("operator bool"): return B(not (ex.rd(st, a[0]) == NULL))
    if m == "operator()":
        v = ex.rd(st, a[0]); args = a[1:]
        if isinstance(v, Opaque) and v.tag == "ufun": return ufun(ex, st, v, args, I)
        if isinstance(v, FnPtr):
            g = ex.mod.fns[v.name]; ex.mod.head(g)
            av = [x if t.k == "ptr" or not isinstance(x, Ptr) else ex.load(st, t, x) for (t, n_, at), x in zip(g.params, args)]
            return ex.call(st, v.name, av, I)
        if isinstance(v, Opaque) and v.tag == "closure":
            p, nm = v.p
            g = ex.mod.fns[nm]; ex.mod.head(g)
            av = [x if t.k == "ptr" or not isinstance(x, Ptr) else ex.load(st, t, x) for (t, n_, at), x in zip(g.params[1:], args)]
            return ex.call(st, nm, [p] + av, I)
        raise Unsupported("call of std::function %r" % (v,))
    raise Unsupported(f.key)
