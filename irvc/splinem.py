"""Trusted contracts of Eigen's unsupported Splines module (what mathutils::Spline calls), of minCoeff / maxCoeff on a
sorted vector, of unaryExpr and of a Map over contiguous storage. The spline is an uninterpreted function of the parameter,
constrained by: it takes the given point at every given parameter; if the points are an affine function of the parameters
it is that affine function on [0, 1] (B-spline interpolation on averaged knots of degree 1 to number of points - 1 is
unique and reproduces polynomials up to its degree)."""
import re
from models import *
from models import H
from eigenm import EIG, eig, mget, sret_put, e_transpose, e_ctor
import smt, prove, terms as T
from terms import fresh
import decomp
def elems(M):
    """elements of a row or column and their number"""
    if M.dims[1].const() == 1: return (lambda k: M.get(k, ZERO)), M.dims[0]
    if M.dims[0].const() == 1: return (lambda k: M.get(ZERO, k)), M.dims[1]
    raise Unsupported("vector expected")
def extreme(ex, st, a, low):
    e, n = elems(mget(ex, st, a[0]))
    g = lambda k: ex.num(e(k))
    ex.oblige(st, "extreme value of a vector that is not empty", LT(0, n))
    c = n.const()
    if c is not None:
        v = g(P(0))
        for k in range(1, int(c)): v = ite(LE(v, g(P(k))) if low else LE(g(P(k)), v), v, g(P(k)))
        r = [k for k in range(int(c)) if all(ex.known(st, LE(g(P(k)), g(P(j))) if low else LE(g(P(j)), g(P(k)))) for j in range(int(c)))]
        return g(P(r[0])) if r else v
    k = fresh("q", "I")
    if prove.prove(list(st.pc) + [And(LE(0, k), LT(k, n - 1))], LE(g(k), g(k + 1)), budget=5).status == "proved": return g(ZERO) if low else g(n - 1)    # sorted: the extremes are at the ends (induction)
    i = fresh("ext", "I"); le = (lambda x, y: LE(x, y)) if low else (lambda x, y: LE(y, x))
    st.assume(And(LE(0, i), LT(i, n))); st.assume(Forall(k, ZERO, n, le(g(i), g(k)))); st.assume(And(le(g(i), g(ZERO)), le(g(i), g(n - 1))))
    return g(i)
@eig("minCoeff")
def s_min(ex, st, f, a, I): return extreme(ex, st, a, True)
@eig("maxCoeff")
def s_max(ex, st, f, a, I): return extreme(ex, st, a, False)
@eig("unaryExpr")
def s_unary(ex, st, f, a, I):
    m = re.search(r"::unaryExpr<(.*)>\(", f.dem)
    if len(a) != 2 or m is None: raise Unsupported("unaryExpr")
    c = [nm for nm, g in ex.mod.fns.items() if g.dem and g.dem.startswith(m.group(1) + "::operator()")]
    if len(c) != 1: raise Unsupported("function object of unaryExpr")
    e, n = elems(mget(ex, st, a[0])); k = fresh("u", "I")
    res = ex.call(st, c[0], [a[1], e(k)], None)
    if len(res) != 1 or res[0][1] != "ret" or res[0][0] is not st: raise Unsupported("function object with several outcomes")
    v = res[0][2]; kk = next(iter(k.syms()))
    body = ex.num(v)
    col = mget(ex, st, a[0]).dims[1].const() == 1
    at = lambda i: T.subst(body, {kk: P(i)})
    X = fun_arr((n, ONE), lambda i, j: at(i), "eig") if col else fun_arr((ONE, n), lambda i, j: at(j), "eig")
    return decomp.regval(I, X)
@eig("transpose")
def s_transpose(ex, st, f, a, I):
    if len(a) == 1 and I is not None and I.ty.k != "ptr":
        M = mget(ex, st, a[0])
        return decomp.regval(I, fun_arr((M.dims[1], M.dims[0]), lambda i, j: M.get(j, i), "eig"))
    return e_transpose(ex, st, f, a, I)
class Fit:
    def __init__(self, **k): self.__dict__.update(k)
def s_array(ex, st, f, a, I):
    """Eigen::Array<double, 1, -1>: held like a row vector"""
    m = f.key.split("::")[-1]
    if m == "~Array": return ret(st)
    if m == "Array" and len(a) == 2:
        M = mget(ex, st, a[1]); e, n = elems(M)
        ex.wr(st, a[0], Arr((ONE, n), None, None, None, "eig") if False else fun_arr((ONE, n), lambda i, j: e(j), "eig"), 16); return ret(st)
    raise Unsupported("Eigen::Array " + f.dem[:120])
def s_fit(ex, st, f, a, I):
    if f.key.split("::")[-1] != "Interpolate" or len(a) != 4: raise Unsupported("spline fitting " + f.dem[:100])
    pts, n = elems(mget(ex, st, a[1])); par, n2 = elems(mget(ex, st, a[3])); deg = ex.inum(a[2])
    y, p = (lambda k: ex.num(pts(k))), (lambda k: ex.num(par(k)))
    ex.oblige(st, "as many parameters as points", EQ(n, n2))
    ex.oblige(st, "degree from 1 to the number of points less 1", And(LE(1, deg), LE(deg, n - 1)))
    ex.oblige(st, "first parameter 0", EQ(p(ZERO), 0)); ex.oblige(st, "last parameter 1", EQ(p(n - 1), 1))
    k = fresh("q", "I"); c = n.const()
    if c is None: ex.oblige(st, "parameters increase", Forall(k, ZERO, n - 1, LT(p(k), p(k + 1))))
    else:
        for j in range(int(c) - 1): ex.oblige(st, "parameters increase", LT(p(P(j)), p(P(j + 1))))
    memo = ex.__dict__.setdefault("_spl", {}); w = sym("$w", "I")
    key = (n.key(), deg.key(), y(w).key() if c is None else tuple(y(P(j)).key() for j in range(int(c))), p(w).key() if c is None else tuple(p(P(j)).key() for j in range(int(c))))
    nm = "spl%d!S" % memo.setdefault(key, len(memo)); smt.SIG[nm] = "R"
    w = fresh("w", "I")
    aff = lambda t: y(ZERO) + (y(n - 1) - y(ZERO)) * t
    if c is None: ok = prove.prove(list(st.pc) + [And(LE(0, w), LT(w, n))], EQ(y(w), aff(p(w))), budget=10).status == "proved"
    else: ok = all(prove.prove(list(st.pc), EQ(y(P(j)), aff(p(P(j)))), budget=5).status == "proved" for j in range(int(c)))
    if c is None: st.assume(Forall(k, ZERO, n, EQ(app(nm, p(k)), y(k))))
    else:
        for j in range(int(c)): st.assume(EQ(app(nm, p(P(j))), y(P(j))))
    F = Fit(nm=nm, aff=aff if ok else None)
    sret_put(ex, st, a[0], Opaque("spline", F), 32); return ret(st)
def s_spline(ex, st, f, a, I):
    m = f.key.split("::")[-1]
    if m == "~Spline": return ret(st)
    if m == "Spline" and len(a) == 1: ex.wr(st, a[0], Opaque("spline", None), 32); return ret(st)
    if m in ("Spline", "operator=") and len(a) == 2:
        v = ex.rd(st, a[1])
        if not (isinstance(v, Opaque) and v.tag == "spline"): raise Unsupported("spline expected")
        ex.wr(st, a[0], v, 32); return ret(st, None if m == "Spline" else a[0])
    if m == "operator()":
        inreg = I is not None and I.ty is not None and I.ty.k != "void"
        t, u = (a[0], a[1]) if inreg else (a[1], a[2])
        v = ex.rd(st, t); u = ex.num(u)
        if not (isinstance(v, Opaque) and v.tag == "spline" and v.p): raise Unsupported("spline without a fit")
        r = app(v.p.nm, u)
        if v.p.aff is not None: st.assume(Or(LT(u, 0), GT(u, 1), EQ(r, v.p.aff(u))))
        if inreg:
            return r if I.ty.k not in ("struct", "array") else Agg([r])
        ex.wr(st, a[0], r, 8); return ret(st)
    raise Unsupported("Eigen::Spline " + f.dem[:100])
def s_map(ex, st, f, a, I):
    """Map over contiguous elements: the values at the moment it is made (mathutils copies it at once)"""
    if f.key.split("::")[-1] != "Map" or len(a) < 3: return NotImplemented
    p, n = a[1], ex.inum(a[2])
    src = vrange(ex, st, p, ex.padd(st, p, n, 8))
    if src is None: raise Unsupported("map over " + repr(p))
    ex.oblige(st, "mapped elements exist", EQ(src.dims[0], n))
    ex.wr(st, a[0], fun_arr((n, ONE), lambda i, j: src.get(i), "eig"), 24); return ret(st)
H["*"][:0] = [("Eigen::SplineFitting::", s_fit), ("Eigen::Spline::", s_spline), ("Eigen::Map::", s_map), ("Eigen::Array::", lambda ex, st, f, a, I: s_array(ex, st, f, a, I) if re.search(r"Eigen::Array<double, 1, -1", f.dem) else NotImplemented)]
