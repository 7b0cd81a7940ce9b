"""Trusted contracts of Eigen's decompositions on fixed-size matrices (Matrix33, Matrix66): the same defining equations as in
decomp.py; the matrices themselves stay column-major memory, read and written element by element."""
import re
from models import *
import eigenm, decomp
from eigenm import EIG, dyn, sret_put
from decomp import fact
FM = re.compile(r"Eigen::Matrix<(double|unsigned int|int), (\d+), (\d+), \d+, \d+, \d+>")
def shape(d):
    m = FM.search(d)
    return m and (m.group(1), int(m.group(2)), int(m.group(3)))
def load(ex, st, p, d):
    """the matrix of the type named first in d at p, as an array value"""
    ty, n, m = shape(d); s = 8 if ty == "double" else 4
    it = {}
    for i in range(n):
        for j in range(m): it[(i, j)] = ex.num(ex.rd(st, ex.padd(st, p, P(j * n + i), s), s))
    return Arr((n, m), it, tag="eig")
def store(ex, st, p, A, s=8):
    n, m = int(A.dims[0].const()), int(A.dims[1].const())
    for i in range(n):
        for j in range(m): ex.wr(st, ex.padd(st, p, P(j * n + i), s), P(A.get(P(i), P(j))), s)
def tmp(ex, st, A):
    p = Ptr(st.new("alloca", 24, "fixed"), (0,)); ex.wr(st, p, A, 24); return p
def fixref(ex, st, A):
    p = Ptr(st.new("alloca", 8 * int(A.dims[0].const()) * int(A.dims[1].const()), "factor"), (0,)); store(ex, st, p, A); return p
FACT = ("HouseholderQR", "PartialPivLU", "FullPivLU", "LLT", "JacobiSVD", "BDCSVD", "FullPivHouseholderQR", "ColPivHouseholderQR", "SVDBase", "SolverBase", "HouseholderSequence")
MAKE = ("householderQr", "partialPivLu", "llt", "jacobiSvd", "bdcSvd", "fullPivLu", "fullPivHouseholderQr", "colPivHouseholderQr")
def isexpr(ex, st, p):
    if not isinstance(p, Ptr) or p.obj is None: return None
    try: v = ex.rd(st, p)
    except Unsupported: return None
    return v.p if isinstance(v, Opaque) and v.tag == "mexpr" else None
def fixed(ex, st, f, a, I):
    d, k = f.dem, f.key.split("::"); cls, m = k[-2], k[-1]
    if m in MAKE and shape(d): return EIG[m](ex, st, f, [a[0], tmp(ex, st, load(ex, st, a[1], d))] + list(a[2:]), I)
    if cls == "compute_inverse" and m == "run" and shape(d)[1] > 4:
        A = load(ex, st, a[0], d); x, = decomp.names(ex, "inv", A, ("X",)); X = decomp.mat(x, *A.dims)
        decomp.assume_eq(st, decomp.mul(A, X), decomp.delta); decomp.assume_eq(st, decomp.mul(X, A), decomp.delta); store(ex, st, a[1], X); return ret(st)
    if cls in FACT:
        if m.startswith("~"): return ret(st)
        if m == "solve":
            b = d[d.rindex("MatrixBase<"):]
            if not shape(b) or not b.startswith("MatrixBase<Eigen::Matrix<"): raise Unsupported("fixed-size solve: " + d[:120])
            return EIG["solve"](ex, st, f, list(a[:-1]) + [tmp(ex, st, load(ex, st, a[-1], b))], I)
        if m == "householderQ" or m == "info" or m in ("rows", "cols"): return EIG[m](ex, st, f, a, I)
        if m in ("matrixQR", "matrixLU"): return fixref(ex, st, fact(ex, st, a[0]).M)
        if m in ("matrixU", "matrixV"): return fixref(ex, st, getattr(fact(ex, st, a[0]), m[-1]))
        if m == "singularValues": return fixref(ex, st, fact(ex, st, a[0]).S)
        if m == "matrixL" and I.ty.k == "ptr": return fixref(ex, st, fact(ex, st, a[0]).L)
        if m == "permutationP":
            p = Ptr(st.new("alloca", 24, "permutation"), (0,)); ex.wr(st, p, Opaque("mexpr", fact(ex, st, a[0]).P), 24); return p
        if cls == "HouseholderSequence" and m == "operator*" and "scalar_identity_op" in d and isexpr(ex, st, a[1]):
            store(ex, st, a[0], isexpr(ex, st, a[1])); return ret(st)
        return NotImplemented
    if cls in ("Matrix", "PlainObjectBase") and m in ("Matrix", "PlainObjectBase", "operator=", "_set") and len(a) == 2:
        v = isexpr(ex, st, a[1])
        if v is not None:
            ty, n, k = shape(d)
            if (v.dims[0].const(), v.dims[1].const()) != (n, k): raise Unsupported("shape of a fixed-size matrix")
            store(ex, st, a[0], v, 8 if ty == "double" else 4)
            return a[0] if I is not None and I.ty is not None and I.ty.k == "ptr" else ret(st)
    return NotImplemented
eigenm.FIXED = fixed
