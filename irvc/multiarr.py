"""Trusted contracts of boost::multi_array (owning array and constant view) and ublas::array_adaptor."""
import re
from models import *
from models import prefix, ret, vget
SIZE = {}
def ndim(d):
    m = re.search(r"multi_array(?:_ref)?<double, (\d+)ul", d)
    if not m: raise Unsupported("multi_array of " + d[:80])
    return int(m.group(1))
def ma(ex, st, p):
    v = ex.rd(st, p)
    if isinstance(v, Arr) and v.tag == "ma": return v
    raise Unsupported("multi_array object")
def view(ex, st, p):
    """(pointer to the owner, array value seen)"""
    v = ex.rd(st, p)
    if isinstance(v, Arr) and v.tag == "ma": return p, v
    if isinstance(v, Opaque) and v.tag == "maref":
        base, dims = v.p
        b = ma(ex, st, base)
        ex.oblige(st, "array view has the shape of the array", And(*[EQ(x, y) for x, y in zip(dims, b.dims)]))
        return base, b
    raise Unsupported("multi_array object")
def put(ex, st, p, v): ex.wr(st, p, Arr(v.dims, v.items, v.ix, v.body, "ma"), msz(v))
def msz(v): return 8
def index(ex, st, f, p, n):
    m = re.search(r"array<(unsigned long|long|int|unsigned int), ", f.dem[f.dem.index("operator()"):])
    if not m: raise Unsupported("multi_array index " + f.dem[:120])
    es = 8 if "long" in m.group(1) else 4
    if not isinstance(p[0], Ptr):
        # a small std::array passed in registers
        r = []
        for x in p: r += list(x.p) if isinstance(x, Opaque) and x.tag == "pack" else list(x.v) if isinstance(x, Agg) else [x]
        return [ex.inum(x) for x in r[:n]]
    p = p[0]
    r = [ex.inum(ex.rd(st, ex.padd(st, p, P(k), es) if k else p, es)) for k in range(n)]
    return r
def prod(d):
    r = P(1)
    for x in d: r = r * x
    return r
@prefix("boost::multi_array::", "boost::multi_array_ref::", "boost::const_multi_array_ref::")
def ma_hook(ex, st, f, a, I):
    m = f.key.split("::")[-1]; n = ndim(f.dem); own = f.key.startswith("boost::multi_array::")
    if m == "multi_array" and own:
        if len(a) == 2 and "std::allocator<double> const&)" in f.dem and "multi_array<double" not in f.dem[f.dem.rindex("::multi_array("):]:
            put(ex, st, a[0], fun_arr((0,) * n, lambda *k: ZERO)); return ret(st)
        if len(a) == 1: put(ex, st, a[0], fun_arr((0,) * n, lambda *k: ZERO)); return ret(st)
        if len(a) == 2 and re.search(r"::multi_array\(boost::multi_array<", f.dem): put(ex, st, a[0], ma(ex, st, a[1])); return ret(st)
        raise Unsupported("multi_array constructor " + f.dem[:200])
    if m == "const_multi_array_ref":
        if len(a) < 3 or not isinstance(a[1], Ptr) or len(a[1].path) < 2 or a[1].path[-1][0] != ("flat", ZERO): 
            if not (isinstance(a[1], Ptr) and len(a[1].path) >= 2 and isinstance(a[1].path[-1][0], Poly) and a[1].path[-1][0] == ZERO): raise Unsupported("view of something else than a whole multi_array")
        es = 4 if "std::array<int" in f.dem else 8
        dims = tuple(ex.inum(ex.rd(st, ex.padd(st, a[2], P(k), es) if k else a[2], es)) for k in range(n))
        base = Ptr(a[1].obj, a[1].path[:-1])
        ex.wr(st, a[0], Opaque("maref", (base, dims)), 8); return ret(st)
    if m.startswith("~"): return ret(st)
    if m == "resize":
        e = vget(ex, st, a[1])
        if e.dims[0].const() != n: raise Unsupported("resize with %s extents" % (e.dims[0],))
        d = tuple(ex.inum(e.get(P(k))) for k in range(n)); old = ma(ex, st, a[0])
        if any(x.const() == 0 for x in old.dims): new = fun_arr(d, lambda *k: ZERO)
        elif tuple(old.dims) == d: new = old
        else: new = fun_arr(d, lambda *k: vite(And(*[LT(i, x) for i, x in zip(k, old.dims)]), old.get(*k), ZERO))
        put(ex, st, a[0], new); return ret(st, a[0])
    if m == "operator=" and own or m == "operator=":
        src = ma(ex, st, a[1]); dst = ma(ex, st, a[0])
        ex.oblige(st, "assigned arrays have the same shape", And(*[EQ(x, y) for x, y in zip(dst.dims, src.dims)]))
        put(ex, st, a[0], src); return ret(st, a[0])
    if m == "num_dimensions": return P(n)
    p, v = view(ex, st, a[0])
    if m == "num_elements": return prod(v.dims)
    if m == "size": return v.dims[0]
    if m == "shape":
        q = Ptr(st.new("alloca", 8 * n, "shape"), (0,))
        for k, x in enumerate(v.dims): ex.wr(st, ex.padd(st, q, P(k), 8) if k else q, x, 8)
        return q
    if m in ("data", "origin"): return Ptr(p.obj, p.path + ((ZERO, 8, 0),))
    if m == "operator()":
        k = index(ex, st, f, a[1:], n)
        ex.oblige(st, "array index in range", And(*[And(LE(0, i), LT(i, x)) for i, x in zip(k, v.dims)]))
        if I.ty.k == "ptr": return Ptr(p.obj, p.path + (((tuple(k) if n > 1 else k[0]), 8, 0),))
        return v.get(*k)
    raise Unsupported("multi_array::" + m)

@prefix("boost::numeric::ublas::array_adaptor::")
def aa_hook(ex, st, f, a, I):
    """an adaptor over [p, p + n) that its container copies: the elements at construction"""
    m = f.key.split("::")[-1]
    if "array_adaptor<double>" not in f.dem: raise Unsupported(f.dem[:100])
    if m == "array_adaptor":
        par = f.dem[f.dem.rindex("::array_adaptor("):]
        if par.startswith("::array_adaptor(unsigned long, double*"):
            n = ex.inum(a[1]); v = vrange(ex, st, a[2], ex.padd(st, a[2], n, 8))
            if v is None: raise Unsupported("array_adaptor range")
            ex.wr(st, a[0], Arr(v.dims, v.items, v.ix, v.body, "aa"), 24); return ret(st)
        if "array_adaptor<double> const&" in par: ex.wr(st, a[0], ex.rd(st, a[1]), 24); return ret(st)
        raise Unsupported("array_adaptor constructor " + par[:80])
    if m.startswith("~"): return ret(st)
    v = ex.rd(st, a[0])
    if not isinstance(v, Arr): raise Unsupported("array_adaptor object")
    if m == "size": return v.dims[0]
    at = lambda i: Ptr(a[0].obj, a[0].path + ((P(i), 8, 0),))
    if m in ("begin", "cbegin"): return at(0)
    if m in ("end", "cend"): return at(v.dims[0])
    if m == "operator[]":
        ex.oblige(st, "element index in range", And(LE(0, ex.inum(a[1])), LT(ex.inum(a[1]), v.dims[0])))
        return at(ex.inum(a[1]))
    raise Unsupported("array_adaptor::" + m)
