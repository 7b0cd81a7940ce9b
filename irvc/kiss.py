"""Trusted contracts of Eigen's kissfft backend: the real transform fills the bins 0..n/2 with the discrete Fourier coefficients,
the real inverse reads the bins 0..n/2 and undoes the transform up to the factor n."""
from models import *
from models import ret, container_at
from execu import tdiv
SPEC = {}
def base(p):
    if not isinstance(p, Ptr) or len(p.path) < 2 or p.path[-1][0] != ZERO: raise Unsupported("transform of part of a vector")
    return Ptr(p.obj, p.path[:-1])
def parts(ex, v):
    if isinstance(v, Struct): return ex.num(v.c[0][1]), ex.num(v.c[8][1])
    raise Unsupported("complex element")
def k_hook(ex, st, f, a, I):
    m = f.key.split("::")[-1]
    if m in ("kissfft_impl", "~kissfft_impl", "operator="): return ret(st)
    real = "double const*, int)" in f.dem.replace("std::complex<double> const*", "C") if m == "fwd" else "inv(double*" in f.dem
    if m not in ("fwd", "inv") or not real: raise Unsupported("kissfft " + f.dem[:100])
    n = ex.inum(a[3]); h = tdiv(n, P(2)) if n.const() is None else P(int(n.const()) // 2)
    d, s = ex.rd(st, base(a[1])), ex.rd(st, base(a[2]))
    memo = ex.__dict__.setdefault("_spec", {})
    if m == "fwd":
        ex.oblige(st, "n samples", EQ(s.dims[0], n)); ex.oblige(st, "room for the bins", LT(h, d.dims[0]))
        k = fresh("K", "I"); src = lambda i: Subst({k.single_atom(): P(i)}).poly(e); e = ex.num(s.get(k))
        nm = "dft!%d" % st.new("alloca", 1); memo[nm] = (n, src)
        b = lambda i: (app(nm + "re", i), app(nm + "im", i))
        def el(i):
            x, o = b(i), parts(ex, d.get(i)); c = LE(i, h)
            return Struct({0: (8, ite(c, x[0], o[0])), 8: (8, ite(c, x[1], o[1]))})
        if d.dims[0].const() is not None: new = Arr(d.dims, tuple(el(P(i)) for i in range(int(d.dims[0].const()))))
        else: new = fun_arr(d.dims, el, d.tag)
        ex.wr(st, base(a[1]), new, 24); return ret(st)
    ex.oblige(st, "n samples wanted", EQ(d.dims[0], n)); ex.oblige(st, "bins given", LT(h, s.dims[0]))
    for nm, (n0, src) in memo.items():
        if n0 != n and not ex.known(st, EQ(n0, n)): continue
        if n.const() is not None:
            if not all(parts(ex, s.get(P(i))) == (app(nm + "re", P(i)), app(nm + "im", P(i))) for i in range(int(h.const()) + 1)): continue
        else:
            i = fresh("bin", "I"); t = st.copy(); t.assume(And(LE(0, i), LE(i, h)))
            x = parts(ex, s.get(i))
            if not (ex.known(t, EQ(x[0] - app(nm + "re", i), 0)) and ex.known(t, EQ(x[1] - app(nm + "im", i), 0))): continue
        if n.const() is not None: new = Arr(d.dims, tuple(n * src(i) for i in range(int(n.const()))))
        else: new = fun_arr(d.dims, lambda i: n * src(i), d.tag)
        ex.wr(st, base(a[1]), new, 24); return ret(st)
    i = fresh("bin", "I"); import os; os.environ.get("VP_PC") and print("\n".join(x.key()[:200] for x in st.pc)); raise Unsupported("inverse of something else than a spectrum: %s" % parts(ex, s.get(i))[0].key()[:300])
H["*"].insert(0, ("Eigen::internal::kissfft_impl::", k_hook))
