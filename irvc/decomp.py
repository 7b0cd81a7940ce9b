"""Trusted contracts of Eigen's dense decompositions and solvers on dynamic matrices (what the mathutils wrappers call).
Every factor is an uninterpreted function of (row, column), constrained only by the defining equations below; the
preconditions Eigen documents (invertible, full rank, positive definite) are those of the mathutils properties."""
import re
from models import *
from models import H
from eigenm import EIG, eig, mget, mk_val, sret_put, mk_ref, mput, e_bin, e_rows, e_cols, msize
from terms import fresh
import prove
prove.SUM_RULES[0] = True
def akey(A): 
    i, j = sym("$i", "I"), sym("$j", "I")
    return (A.dims[0].key(), A.dims[1].key(), A.get(i, j).key() if A.items is None else tuple(sorted((k, v.key()) for k, v in A.items.items())))
def names(ex, kind, A, n, *more):
    """the factors are a function of the matrix: the same matrix gives the same factors"""
    k = (kind, akey(A)) + more
    c = ex.__dict__.setdefault("_fact", {})
    if k not in c: c[k] = len(c)
    out = ["%s%d!%s" % (kind, c[k], x) for x in n]
    for x in out: smt.SIG[x] = "II"
    return out
_fun_arr = fun_arr
def fun_arr(dims, f, tag="eig"):
    """element by element where the shape is known"""
    d = [P(x).const() for x in dims]
    if None in d or len(d) != 2 or d[0] * d[1] > 64: return _fun_arr(dims, f, tag)
    return Arr(dims, {(i, j): P(f(P(i), P(j))) for i in range(int(d[0])) for j in range(int(d[1]))}, tag=tag)
def mat(nm, n, m):
    return concretise(fun_arr((n, m), lambda i, j: app(nm, i, j), "eig"))
def tri(M, lo, unitd=False, strict=False):
    c = (lambda i, j: LT(j, i)) if lo else (lambda i, j: LT(i, j))
    return fun_arr(M.dims, lambda i, j: vite(EQ(i, j), ONE if unitd else (ZERO if strict else M.get(i, j)), vite(c(i, j), M.get(i, j), ZERO)), "eig")
def tr(M): return fun_arr((M.dims[1], M.dims[0]), lambda i, j: M.get(j, i), "eig")
def mul(X, Y, n=None):
    def prod(i, j):
        N = P(n if n is not None else X.dims[1]).const()
        if N is not None: return sum((P(X.get(i, P(k))) * P(Y.get(P(k), j)) for k in range(int(N))), ZERO)
        k = fresh("k", "I")
        return T.mk_sum(k, ZERO, n if n is not None else X.dims[1], P(X.get(i, k)) * P(Y.get(k, j)))
    return fun_arr((X.dims[0], Y.dims[1]), prod, "eig")
def assume_eq(st, X, f, n=None, m=None):
    """X(i, j) == f(i, j) for every row i and column j"""
    n, m = P(n if n is not None else X.dims[0]), P(m if m is not None else X.dims[1])
    if n.const() is not None and m.const() is not None:
        for i in range(int(n.const())):
            for j in range(int(m.const())): st.assume(EQ(X.get(P(i), P(j)), f(P(i), P(j))))
        return
    i, j = (P(0) if n.const() == 1 else fresh("q", "I")), (P(0) if m.const() == 1 else fresh("q", "I"))
    b = EQ(X.get(i, j), f(i, j))
    if m.const() != 1: b = Forall(j, ZERO, m, b)
    if n.const() != 1: b = Forall(i, ZERO, n, b)
    st.assume(b)
delta = lambda i, j: ind(EQ(i, j))
class Fact:
    def __init__(self, kind, A, **k): self.kind, self.A = kind, A; self.__dict__.update(k)
def put_fact(ex, st, p, F): sret_put(ex, st, p, Opaque("fact", F), max(st.objs[p.obj].size, 8))
def fact(ex, st, p):
    v = ex.rd(st, p)
    if isinstance(v, Opaque) and v.tag == "fact": return v.p
    raise Unsupported("decomposition object expected, got %r" % (v,))
def ref(ex, st, M, n=24):
    p = Ptr(st.new("alloca", n, "factor"), (0,)); ex.wr(st, p, Arr(M.dims, M.items, M.ix, M.body, "eig"), n); return p

def regval(I, X):
    o = Opaque("mexpr", X)
    return o if I.ty.k == "ptr" else Agg([o, NULL])
@eig("householderQr")
def d_qr(ex, st, f, a, I):
    A = mget(ex, st, a[1]); m, n = A.dims
    ex.oblige(st, "QR of a matrix with at least as many rows as columns", LE(n, m))
    q, r = names(ex, "hqr", A, ("Q", "R"))
    Q, R = mat(q, m, m), mat(r, m, n)
    assume_eq(st, mul(Q, tri(R, False), n), A.get, m, n)
    assume_eq(st, mul(tr(Q), Q), delta); assume_eq(st, mul(Q, tr(Q)), delta)
    # equivalent to the first equation: Q^T A = R
    assume_eq(st, mul(tr(Q), A), lambda i, j: vite(LE(i, j), R.get(i, j), ZERO), m, n)
    put_fact(ex, st, a[0], Fact("qr", A, Q=Q, M=R)); return ret(st)
@eig("householderQ")
def d_hq(ex, st, f, a, I):
    F = fact(ex, st, a[1]); mk_val(ex, st, a[0], F.Q); return ret(st)
@eig("matrixQR", "matrixLU")
def d_mqr(ex, st, f, a, I): return ref(ex, st, fact(ex, st, a[0]).M)
@eig("partialPivLu")
def d_lu(ex, st, f, a, I):
    A = mget(ex, st, a[1]); n = A.dims[0]
    ex.oblige(st, "LU of a square matrix", EQ(A.dims[0], A.dims[1]))
    p, q, l = names(ex, "plu", A, ("perm", "permi", "LU"))
    M = mat(l, n, n)
    pi = lambda i: app(p, i, ZERO, sort="I"); pj = lambda i: app(q, i, ZERO, sort="I")
    Pm = fun_arr((n, n), lambda i, j: ind(EQ(pi(i), j)), "eig")
    i = fresh("q", "I")
    b = lambda i: And(LE(0, pi(i)), LT(pi(i), n), LE(0, pj(i)), LT(pj(i), n), EQ(pj(pi(i)), i), EQ(pi(pj(i)), i))
    if n.const() is not None:
        for k in range(int(n.const())): st.assume(b(P(k)))
    else: st.assume(Forall(i, ZERO, n, b(i)))
    assume_eq(st, mul(tri(M, True, True), tri(M, False)), lambda i, j: A.get(pi(i), j))
    put_fact(ex, st, a[0], Fact("lu", A, P=Pm, M=M)); return ret(st)
@eig("permutationP")
def d_perm(ex, st, f, a, I): return ref(ex, st, fact(ex, st, a[0]).P)
@eig("cast")
def d_cast(ex, st, f, a, I):
    if len(a) == 2: mk_val(ex, st, a[0], mget(ex, st, a[1])); return ret(st)
    return regval(I, mget(ex, st, a[0]))
@eig("llt")
def d_llt(ex, st, f, a, I):
    A = mget(ex, st, a[1]); n = A.dims[0]
    ex.oblige(st, "Cholesky of a square matrix", EQ(A.dims[0], A.dims[1]))
    put_fact(ex, st, a[0], chol(ex, st, A, lambda i, j: vite(LE(j, i), A.get(i, j), A.get(j, i)))); return ret(st)
def chol(ex, st, A, g, *key):
    n = A.dims[0]
    l, = names(ex, "llt", A, ("L",), *key)
    L = tri(mat(l, n, n), True)
    ok = GT(app(l + "ok", ZERO), 0); smt.SIG[l + "ok"] = "I"
    assume_eq(st, mul(L, tr(L)), g, n, n)
    return Fact("llt", A, L=L, ok=ok, g=g)
@eig("info")
def d_info(ex, st, f, a, I): return ite(fact(ex, st, a[0]).ok, ZERO, ONE)
@eig("matrixL")
def d_ml(ex, st, f, a, I):
    inreg = I is not None and I.ty is not None and I.ty.k != "void"
    F = fact(ex, st, a[0] if inreg else a[1])
    if inreg: return regval(I, F.L)
    mk_val(ex, st, a[0], F.L); return ret(st)
@eig("rankUpdate")
def d_ru(ex, st, f, a, I):
    inreg = I is not None and I.ty is not None and I.ty.k != "void"
    t, v, s = a if inreg else a[1:]
    F = fact(ex, st, t); v = mget(ex, st, v); s = ex.num(ex.rd(st, s, 8) if isinstance(s, Ptr) else s)
    ex.oblige(st, "the update is a column as long as the matrix", And(EQ(v.dims[0], F.A.dims[0]), EQ(v.dims[1], 1)))
    G = chol(ex, st, F.A, lambda i, j: F.g(i, j) + s * ex.num(v.get(i, ZERO)) * ex.num(v.get(j, ZERO)), akey(v), s.key())
    put_fact(ex, st, t, G)
    if inreg: return t
    put_fact(ex, st, a[0], G); return ret(st)
@eig("jacobiSvd", "bdcSvd")
def d_svd(ex, st, f, a, I):
    A = mget(ex, st, a[1]); m, n = A.dims
    fl = ex.inum(a[2]).const()
    if fl != 20 + 0 and fl != (0x08 | 0x20): raise Unsupported("singular values: options %s" % fl)
    if ex.known(st, LE(n, m)): k = n
    elif ex.known(st, LT(m, n)): k = m
    else: raise NeedSplit(LE(n, m))
    u, s, v = names(ex, "svd", A, ("U", "S", "V"))
    U, S, V = mat(u, m, k), mat(s, k, 1), mat(v, n, k)
    D = fun_arr((k, k), lambda i, j: vite(EQ(i, j), S.get(i, ZERO), ZERO), "eig")
    US = fun_arr((m, k), lambda i, j: U.get(i, j) * S.get(j, ZERO), "eig")
    assume_eq(st, mul(US, tr(V)), A.get); assume_eq(st, mul(tr(U), U), delta); assume_eq(st, mul(tr(V), V), delta)
    i = fresh("q", "I")
    if k.const() is None: st.assume(Forall(i, ZERO, k, GE(S.get(i, ZERO), 0))); st.assume(Forall(i, ZERO, k - 1, GE(S.get(i, ZERO), S.get(i + 1, ZERO))))
    else:
        for q in range(int(k.const())): st.assume(GE(S.get(P(q), ZERO), 0 if q == int(k.const()) - 1 else S.get(P(q + 1), ZERO)))
    put_fact(ex, st, a[0], Fact("svd", A, U=U, S=S, V=V)); return ret(st)
@eig("matrixU")
def d_u(ex, st, f, a, I): return ref(ex, st, fact(ex, st, a[0]).U)
@eig("matrixV")
def d_v(ex, st, f, a, I): return ref(ex, st, fact(ex, st, a[0]).V)
@eig("singularValues")
def d_s(ex, st, f, a, I): return ref(ex, st, fact(ex, st, a[0]).S, 16)
@eig("fullPivLu", "fullPivHouseholderQr", "colPivHouseholderQr")
def d_fp(ex, st, f, a, I):
    A = mget(ex, st, a[1]); put_fact(ex, st, a[0], Fact("exact", A)); return ret(st)
@eig("solve")
def d_solve(ex, st, f, a, I):
    inreg = I is not None and I.ty is not None and I.ty.k != "void"
    t, b = a if inreg else a[1:]
    F = fact(ex, st, t); b = mget(ex, st, b); A = F.A
    ex.oblige(st, "right-hand side has as many rows as the matrix", EQ(A.dims[0], b.dims[0]))
    x, = names(ex, "slv" if F.kind in ("exact", "lu", "qr") else "lsq", A, ("X",), akey(b)); X = mat(x, A.dims[1], b.dims[1])
    if F.kind in ("exact", "lu", "qr", "llt"):
        ex.oblige(st, "solution of a square system", EQ(A.dims[0], A.dims[1]))
        assume_eq(st, mul(A, X), b.get)
    else:
        # normal equations
        AX = mul(A, X); Rs = fun_arr(b.dims, lambda i, j: AX.get(i, j) - ex.num(b.get(i, j)), "eig")
        assume_eq(st, mul(tr(A), Rs), lambda i, j: ZERO)
    if inreg: return regval(I, X)
    mk_val(ex, st, a[0], X); return ret(st)
@eig("inverse")
def d_inv(ex, st, f, a, I):
    inreg = I is not None and I.ty is not None and I.ty.k != "void"
    A = mget(ex, st, a[0] if inreg else a[1])
    ex.oblige(st, "inverse of a square matrix", EQ(A.dims[0], A.dims[1]))
    x, = names(ex, "inv", A, ("X",)); X = mat(x, A.dims[0], A.dims[1])
    assume_eq(st, mul(A, X), delta); assume_eq(st, mul(X, A), delta)
    if inreg: return regval(I, X)
    mk_val(ex, st, a[0], X); return ret(st)
@eig("EigenSolver")
def d_es(ex, st, f, a, I):
    A = mget(ex, st, a[1]); n = A.dims[0]
    ex.oblige(st, "eigenvalues of a square matrix", EQ(A.dims[0], A.dims[1]))
    r, i = names(ex, "eig", A, ("re", "im"))
    E = _fun_arr((n, ONE), lambda x, y: Struct({0: (8, app(r, x, y)), 8: (8, app(i, x, y))}), "eig")
    put_fact(ex, st, a[0], Fact("eig", A, E=E)); return ret(st)
@eig("eigenvalues")
def d_ev(ex, st, f, a, I): return ref(ex, st, fact(ex, st, a[0]).E, 16)
for nm in ("EigenSolver", "HouseholderQR", "PartialPivLU", "FullPivLU", "LLT", "JacobiSVD", "BDCSVD", "FullPivHouseholderQR", "HouseholderSequence", "SVDBase", "Solve", "Inverse"):
    EIG["~" + nm] = lambda ex, st, f, a, I: ret(st)
_rows, _cols = EIG["rows"], EIG["cols"]
def sized(old, k):
    def g(ex, st, f, a, I):
        v = ex.rd(st, a[0])
        if isinstance(v, Opaque) and v.tag == "fact": return v.p.A.dims[k]
        return old(ex, st, f, a, I)
    return g
EIG["rows"], EIG["cols"] = sized(_rows, 0), sized(_cols, 1)
