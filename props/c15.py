from contract import *
from smt import PI
sq = lambda x: x * x
ab = lambda v: ite(LT(v, 0), -v, v)
def approx(A, Bf, n, m, prec):
    """Eigen's documented relative comparison"""
    fro = lambda f: Sum(lambda i: Sum(lambda j: sq(f(i, j)), 0, m), 0, n)
    d = fro(lambda i, j: A(i, j) - Bf(i, j)); p, q = fro(A), fro(Bf)
    return LE(d, sq(prec) * ite(LT(q, p), q, p))
E12 = P(Fraction(1, 10**12))
def fixed(N, cls):
    c0 = "mathutils::" + cls + "::"
    pre = "m%d" % N
    C = "m%d" % N
    @unit(cls + " access and initialisation", [c0 + x for x in ("at", "SetIdentity", "SetNull", "GetColumn", "GetRow", "GetDiag", "GetNbRows", "GetNbCols", "IsSquare")], conc=40)
    def _(c):
        a = c.vec("a", N * N); A = lambda i, j: a(i * N + j)
        v = c.real("v")
        R = range(N)
        pairs = [(i, j) for i in R for j in R] if N == 3 else [(0, 0), (1, 4), (5, 2), (3, 3)]
        if c.mode == "conc": pairs = [c.rng.choice(pairs)]
        out = c.out("out", 2 * N * N)
        for (i, j) in pairs:
            for o in c.call(C + "ops", 0, a, i, j, v, out):
                if c.returns(o): c.eq(o, "at", o.arr(out, 0), A(i, j))
            for o in c.call(C + "ops", 1, a, i, j, v, out):
                if c.returns(o):
                    for p in R:
                        for q in R: c.eq(o, "write through at", o.arr(out, p * N + q), v if (p, q) == (i, j) else A(p, q))
        for f, w in ((2, lambda p, q: P(int(p == q))), (3, lambda p, q: P(0))):
            for o in c.call(C + "ops", f, a, 0, 0, v, out):
                if c.returns(o):
                    for p in R:
                        for q in R: c.eq(o, "identity" if f == 2 else "null", o.arr(out, p * N + q), w(p, q))
        for k in R:
            for f, w, nm in ((4, lambda q: A(q, k), "column"), (5, lambda q: A(k, q), "row")):
                for o in c.call(C + "ops", f, a, k, k, v, out):
                    if c.returns(o):
                        for q in R: c.eq(o, nm, o.arr(out, q), w(q))
        for o in c.call(C + "ops", 6, a, 0, 0, v, out):
            if c.returns(o):
                for q in R: c.eq(o, "diagonal", o.arr(out, q), A(q, q))
        for o in c.call(C + "ops", 11, a, 0, 0, v, out):
            if c.returns(o): c.eq(o, "rows", o.arr(out, 0), N); c.eq(o, "columns", o.arr(out, 1), N); c.eq(o, "square", o.arr(out, 2), 1)
    @unit(cls + " transposition and symmetric completion", [c0 + "Transpose", "mathutils::Transpose", "mathutils::MakeSymmetricFromUpper", "mathutils::MakeSymmetricFromLower"], conc=40)
    def _(c):
        a = c.vec("a", N * N); A = lambda i, j: a(i * N + j); R = range(N); out = c.out("out", 2 * N * N)
        for f, nm, w in ((7, "in-place transpose", lambda p, q: A(q, p)), (8, "transpose", lambda p, q: A(q, p)),
                         (9, "upper completion", lambda p, q: A(min(p, q), max(p, q))), (10, "lower completion", lambda p, q: A(max(p, q), min(p, q)))):
            for o in c.call(C + "ops", f, a, 0, 0, 0, out):
                if not c.returns(o): continue
                for p in R:
                    for q in R:
                        c.eq(o, nm, o.arr(out, p * N + q), w(p, q))
                        if f != 7: c.eq(o, nm + ": source unchanged", o.arr(out, N * N + p * N + q), A(p, q))
    def near(b0):
        """concrete inputs near and far from b0"""
        def g(r, n):
            b = b0(r); m = r.choice([0, 0, 1, 2])
            if m: k = r.randrange(n); b[k] += r.choice([1e-5, 0.5, -1e-7, 3.0])
            return b
        return g
    def symm(r):
        m = [[r.uniform(-2, 2) for _ in range(N)] for _ in range(N)]
        return [m[min(i, j)][max(i, j)] for i in range(N) for j in range(N)]
    @unit(cls + "::IsSymmetric", [c0 + "IsSymmetric"], conc=80)
    def _(c):
        a = c.vec("a", N * N, conc=near(symm)); A = lambda i, j: a(P(i).const() * N + P(j).const() if P(i).const() is not None else P(i) * N + j)
        for o in c.call(C + "sym", a):
            if c.returns(o): c.eq(o, "true exactly up to the relative tolerance", o.val, ind(approx(A, lambda i, j: A(j, i), N, N, E12)))
    @unit(cls + "::IsSymmetric on symmetric input", [c0 + "IsSymmetric"], conc=0)
    def _(c):
        s = [[c.real("s%d%d" % (min(i, j), max(i, j))) for j in range(N)] for i in range(N)]
        a = Vec(c, "a", P(N * N), [s[i][j] for i in range(N) for j in range(N)])
        for o in c.call(C + "sym", a):
            if c.returns(o): c.eq(o, "true for every symmetric matrix", o.val, 1)
    @unit(cls + "::IsEqual", [c0 + "IsEqual"], conc=80)
    def _(c):
        b = c.vec("b", N * N); a = c.vec("a", N * N, conc=near(lambda r: list(b.raw))); e = c.real("eps", lo=0, conc=[1e-12, 1e-6, 0.1, 0.0])
        F = lambda v: (lambda i, j: v(P(i) * N + j))
        for o in c.call(C + "eq", a, b, e):
            if c.returns(o): c.eq(o, "equal up to the relative tolerance", o.val, ind(approx(F(a), F(b), N, N, e)))
    @unit(cls + "::IsIdentity", [c0 + "IsIdentity"], conc=80)
    def _(c):
        a = c.vec("a", N * N, conc=near(lambda r: [float(i == j) for i in range(N) for j in range(N)]))
        g = TRUE
        for i in range(N):
            for j in range(N):
                x = a(i * N + j)
                g = And(g, LE(ab(x - 1), E12 * ite(LT(ab(x), 1), ab(x), 1)) if i == j else LE(ab(x), E12))
        for o in c.call(C + "id", a):
            if c.returns(o): c.ensure(o, "entries of the identity within tolerance", Or(And(EQ(o.val, 1), g), And(EQ(o.val, 0), Not(g))))
    @unit(cls + "::GetCholeskyDecomposition refuses", [c0 + "GetCholeskyDecomposition"], conc=60)
    def _(c):
        a = c.vec("a", N * N, conc=near(symm)); A = lambda i, j: a(P(i) * N + j)
        c.require(Not(approx(A, lambda i, j: A(j, i), N, N, E12)))
        for o in c.call(C + "chol", a): c.kinds(o, throw=TRUE)
fixed(3, "Matrix33"); fixed(6, "Matrix66")
def vecs(N, cls):
    c0 = "mathutils::" + cls + "::"
    @unit(cls + " outer and inner products", ["mathutils::outer", "mathutils::inner"], conc=60)
    def _(c):
        a, b = c.vec("a", N), c.vec("b", N); out = c.out("out", 2 * N * N + 1)
        for o in c.call("outer%d" % N, a, b, out):
            if c.returns(o):
                for i in range(N):
                    for j in range(N): c.eq(o, "outer", o.arr(out, i * N + j), a(i) * b(j)); c.eq(o, "outer with itself", o.arr(out, N * N + i * N + j), a(i) * a(j))
                c.eq(o, "inner", o.arr(out, 2 * N * N), sum((a(i) * b(i) for i in range(N)), P(0)))
    @unit(cls + " basics and infinity norm", [c0 + x for x in (cls, "at", "Set", "SetNull", "infNorm")], conc=60)
    def _(c):
        a = c.vec("a", N); x = c.real("x"); out = c.out("out", 5 * N + 5)
        for i in range(N):
            for o in c.call("v%dbasics" % N, a, i, x, out):
                if c.returns(o):
                    w = [P(0)] * N + [a(k) for k in range(N)] + [a(i)] + [x if k == i else a(k) for k in range(N)] + [a((k - 1) % N) for k in range(N)] + [P(0)] * N
                    for k, y in enumerate(w): c.eq(o, "value %d" % k, o.arr(out, k), y)
                    r = o.arr(out, len(w))
                    for k in range(N): c.ensure(o, "norm bounds every component", LE(ab(a(k)), r))
                    c.ensure(o, "norm is attained", Or(*[EQ(r, ab(a(k))) for k in range(N)]))
                    if N == 3:
                        for k in range(3): c.eq(o, "expression", o.arr(out, 17 + k), a(k) * 2)
    @unit(cls + "::IsEqual", [c0 + "IsEqual"], conc=80)
    def _(c):
        b = c.vec("b", N); a = c.vec("a", N, conc=lambda r, n: [x + r.choice([0, 0, 1e-5, 1e-13]) for x in b.raw]); e = c.real("eps", lo=0, conc=[1e-12, 1e-6, 0.1])
        for o in c.call("v%deq" % N, a, b, e):
            if c.returns(o): c.eq(o, "equal up to the relative tolerance", o.val, ind(approx(lambda i, j: a(i), lambda i, j: b(i), N, 1, e)))
vecs(3, "Vector3d"); vecs(6, "Vector6d")
@unit("Vector3d::Normalize", ["mathutils::Vector3d::Normalize"], conc=80)
def _(c):
    a = c.vec("a", 3); out = c.out("out", 3); n2 = sum((sq(a(k)) for k in range(3)), P(0))
    c.require(GT(n2, 0))
    for o in c.call("v3norm", a, out):
        if c.returns(o):
            for k in range(3): c.eq(o, "divided by the length", o.arr(out, k), a(k) / T.rebuild_app("sqrt", (n2,), "R"))
@unit("Vector3d::IsUnit", ["mathutils::Vector3d::IsUnit", "mathutils::IsClose"], conc=80)
def _(c):
    def g(r, n):
        v = [r.uniform(-1, 1) for _ in range(3)]; m = math.sqrt(sum(x * x for x in v)) or 1; k = r.choice([1, 1, 1 + 1e-5, 2])
        return [x / m * k for x in v]
    a = c.vec("a", 3, conc=g); l = T.rebuild_app("sqrt", (sum((sq(a(k)) for k in range(3)), P(0)),), "R")
    for o in c.call("v3unit", a):
        if c.returns(o):
            c.ensure(o, "a vector of length one is a unit vector", Or(EQ(o.val, 1), NE(l, 1))) if c.mode != "conc" else None
            c.ensure(o, "a unit vector has length one", Or(EQ(o.val, 0), LE(ab(l - 1), P(Fraction(1, 10**4)))))
            if c.mode == "conc" and abs(ev(l) - 1) < 1e-10: c.eq(o, "length one", o.val, 1)
@unit("projected angles", ["mathutils::Vector3d::GetProjectedAngleAround" + x for x in "XYZ"], conc=80)
def _(c):
    a = c.vec("a", 3); at = lambda y, x: T.rebuild_app("atan2", (y, x), "R")
    if c.mode == "conc": c.require(NE(a(0), 0), NE(a(1), 0), NE(a(2), 0))
    for ax, (y, x) in enumerate(((2, 1), (0, 2), (1, 0))):
        for u in (0, 1):
            for o in c.call("projang", ax, a, u):
                if c.returns(o): c.eq(o, "angle around " + "XYZ"[ax], o.val, at(a(y), a(x)) * (180 / PI if u == 0 else 1))
# ---------------------------------------------------------------- dynamic sizes
MM = "mathutils::MatrixMN::"
SZ = [{"n": 2, "m": 3}, {"n": 3, "m": 2}, {"n": 1, "m": 3}, {"n": 3, "m": 3}]
def dims(c, o, d, n, m): c.eq(o, "rows", o.arr(d, 0), n); c.eq(o, "columns", o.arr(d, 1), m)
@unit("MatrixMN::at", [MM + "at", MM + "MatrixMN"], SZ, conc=60)
def _(c):
    n, m = c.int("n", 1), c.int("m", 1); A = c.ten("a", n, m); i = c.int("i", 0, conc=lambda r: r.randrange(int(n.const()))); j = c.int("j", 0, conc=lambda r: r.randrange(int(m.const()))); v = c.real("v"); c.require(LT(i, n), LT(j, m))
    for o in c.call("mnat", A, n, m, i, j):
        if c.returns(o): c.eq(o, "value", o.val, A(i, j))
    out = c.out2("out", n, m); d = c.out("d", 2, "i")
    for o in c.call("mnset", A, n, m, i, j, v, out, d):
        if c.returns(o):
            dims(c, o, d, n, m)
            c.all_eq2(o, "write through at", n, m, lambda p, q: (o.arr2(out, p, q), ite(And(EQ(p, i), EQ(q, j)), v, A(p, q))))
@unit("MatrixMN identity, null, size", [MM + "SetIdentity", MM + "SetNull", MM + "GetNbRows", MM + "GetNbCols", MM + "IsSquare"], SZ, conc=60)
def _(c):
    n, m = c.int("n", 1), c.int("m", 1); A = c.ten("a", n, m); out = c.out2("out", n, m); d = c.out("d", 2, "i"); d3 = c.out("d3", 3, "i")
    for o in c.call("mnid", A, n, m, out, d):
        if c.returns(o): dims(c, o, d, n, m); c.all_eq2(o, "identity", n, m, lambda p, q: (o.arr2(out, p, q), ind(EQ(p, q))))
    for o in c.call("mnnull", A, n, m, out, d):
        if c.returns(o): dims(c, o, d, n, m); c.all_eq2(o, "null", n, m, lambda p, q: (o.arr2(out, p, q), P(0)))
    for o in c.call("mndims", A, n, m, d3):
        if c.returns(o): dims(c, o, d3, n, m); c.eq(o, "square", o.arr(d3, 2), ind(EQ(n, m)))
@unit("MatrixMN row, column, diagonal", [MM + "GetColumn", MM + "GetRow", MM + "GetDiag"], SZ, conc=60)
def _(c):
    n, m = c.int("n", 1), c.int("m", 1); A = c.ten("a", n, m); d = c.out("d", 2, "i")
    i = c.int("i", 0, conc=lambda r: r.randrange(int(n.const()))); j = c.int("j", 0, conc=lambda r: r.randrange(int(m.const()))); c.require(LT(i, n), LT(j, m))
    out = c.out2("oc", n, 1)
    for o in c.call("mncol", A, n, m, j, out, d):
        if c.returns(o): dims(c, o, d, n, 1); c.all_eq2(o, "column", n, 1, lambda p, q: (o.arr2(out, p, q), A(p, j)))
    out2 = c.out2("orow", 1, m)
    for o in c.call("mnrow", A, n, m, i, out2, d):
        if c.returns(o): dims(c, o, d, 1, m); c.all_eq2(o, "row", 1, m, lambda p, q: (o.arr2(out2, p, q), A(i, q)))
    k = ite(LE(n, m), n, m)
    if k.const() is None and c.mode == "sym":
        k = c.int("k", 1); c.require(LE(k, n), LE(k, m), Or(EQ(k, n), EQ(k, m)))
    out3 = c.out2("od", k, 1)
    for o in c.call("mndiag", A, n, m, k, out3, d):
        if c.returns(o): dims(c, o, d, k, 1); c.all_eq2(o, "diagonal", k, 1, lambda p, q: (o.arr2(out3, p, q), A(p, p)))
@unit("MatrixMN transposition", [MM + "Transpose", "mathutils::Transpose"], SZ, conc=60)
def _(c):
    n, m = c.int("n", 1), c.int("m", 1); A = c.ten("a", n, m); d = c.out("d", 2, "i"); out = c.out2("out", m, n); src = c.out2("src", n, m)
    for f in (0, 1):
        for o in c.call("mntr", f, A, n, m, out, d):
            if c.returns(o): dims(c, o, d, m, n); c.all_eq2(o, "transpose", m, n, lambda p, q: (o.arr2(out, p, q), A(q, p)))
    for o in c.call("mntr_src", A, n, m, src, d):
        if c.returns(o): dims(c, o, d, n, m); c.all_eq2(o, "source unchanged", n, m, lambda p, q: (o.arr2(src, p, q), A(p, q)))
@unit("MatrixMN symmetric completion", ["mathutils::MakeSymmetricFromUpper", "mathutils::MakeSymmetricFromLower"], [{"n": 1}, {"n": 3}], conc=60)
def _(c):
    n = c.int("n", 1); A = c.ten("a", n, n); d = c.out("d", 2, "i"); out = c.out2("out", n, n)
    for f in (0, 1):
        for o in c.call("mnsymm", f, A, n, out, d):
            if c.returns(o):
                dims(c, o, d, n, n)
                c.all_eq2(o, "completed from the " + ("upper", "lower")[f] + " triangle", n, n, lambda p, q: (o.arr2(out, p, q), ite(LE(p, q) if f == 0 else LE(q, p), A(p, q), A(q, p))))
def ndyn(c, name, base, n, m):
    return c.ten(name, n, m)
SQ = [{"n": 1}, {"n": 2}, {"n": 3}]
def rndsym(c, A, n):
    if c.mode == "conc" and c.rng.random() < 0.6:
        k = int(n.const()); A.raw = [A.raw[min(i, j) * k + max(i, j)] for i in range(k) for j in range(k)]
        if k > 1 and c.rng.random() < 0.6: A.raw[c.rng.randrange(k * k)] += c.rng.choice([1e-5, -1e-7, 1.0])
        A.vals = {(i, j): fl(A.raw[i * k + j]) for i in range(k) for j in range(k)}
@unit("MatrixMN::IsSymmetric", [MM + "IsSymmetric", MM + "IsSquare"], SQ, conc=120)
def _(c):
    n = c.int("n", 1); A = c.ten("a", n, n); rndsym(c, A, n)
    for o in c.call("mnsym", A, n, n):
        if c.returns(o): c.eq(o, "equal to its transpose up to the relative tolerance", o.val, ind(approx(A, lambda i, j: A(j, i), n, n, E12)))
@unit("MatrixMN::IsSymmetric, not square", [MM + "IsSymmetric", MM + "IsSquare"], SZ[:3], conc=60)
def _(c):
    n, m = c.int("n", 1), c.int("m", 1); c.require(NE(n, m)); A = c.ten("a", n, m)
    for o in c.call("mnsym", A, n, m):
        if c.returns(o): c.eq(o, "false for a matrix that is not square", o.val, 0)
@unit("MatrixMN::IsSymmetric on symmetric input", [MM + "IsSymmetric"], [{"n": 2}, {"n": 3}], conc=80)
def _(c):
    n = c.int("n", 1); A = c.ten("a", n, n)
    for o in c.call("mnsymof", A, n):
        if c.returns(o): c.eq(o, "true for every symmetric matrix", o.val, 1, extra=(GE(Sum(lambda i: Sum(lambda j: sq(A(i, j) + A(j, i)), 0, n), 0, n), 0),))   # lemma: a sum of squares is not negative
@unit("MatrixMN::IsEqual", [MM + "IsEqual"], SZ, conc=80)
def _(c):
    n, m = c.int("n", 1), c.int("m", 1); A = c.ten("a", n, m); Bm = c.ten("b", n, m); e = c.real("eps", lo=0, conc=[1e-12, 1e-6, 0.1])
    if c.mode == "conc" and c.rng.random() < 0.7:
        Bm.raw = [x + c.rng.choice([0, 0, 1e-13, 1e-5]) for x in A.raw]; mm = int(m.const()); Bm.vals = {(i // mm, i % mm): fl(x) for i, x in enumerate(Bm.raw)}
    for o in c.call("mneq", A, Bm, n, m, e):
        if c.returns(o): c.eq(o, "equal up to the relative tolerance", o.val, ind(approx(A, Bm, n, m, e)))
@unit("MatrixMN::GetCholeskyDecomposition refuses non-square", [MM + "GetCholeskyDecomposition"], SZ[:3], conc=60)
def _(c):
    n, m = c.int("n", 1), c.int("m", 1); c.require(NE(n, m)); A = c.ten("a", n, m)
    for o in c.call("mnchol", A, n, m): c.kinds(o, throw=TRUE)
@unit("MatrixMN::GetCholeskyDecomposition refuses non-symmetric", [MM + "GetCholeskyDecomposition"], SQ, conc=80)
def _(c):
    n = c.int("n", 1); A = c.ten("a", n, n); rndsym(c, A, n)
    c.require(Not(approx(A, lambda i, j: A(j, i), n, n, E12)))
    for o in c.call("mnchol", A, n, n): c.kinds(o, throw=TRUE)
VV = "mathutils::VectorN::"
N1 = [{"n": 1}, {"n": 3}]
@unit("VectorN matrices", [VV + "GetMatrixSquare", VV + "GetDiagonalMatrix", "mathutils::GetMatrixSquare", "mathutils::GetDiagonalMatrix", "mathutils::Transpose"], N1, conc=60)
def _(c):
    n = c.int("n", 1); a = c.vec("a", n); d = c.out("d", 2, "i"); out = c.out2("out", n, n)
    for f in (0, 1):
        for o in c.call("vnsq", f, a, n, out, d):
            if c.returns(o): dims(c, o, d, n, n); c.all_eq2(o, "v v^T", n, n, lambda p, q: (o.arr2(out, p, q), a(p) * a(q)))
        for o in c.call("vndiag", f, a, n, out, d):
            if c.returns(o): dims(c, o, d, n, n); c.all_eq2(o, "diag(v)", n, n, lambda p, q: (o.arr2(out, p, q), ite(EQ(p, q), a(p), P(0))))
    ot = c.out2("ot", 1, n)
    for o in c.call("vntr", a, n, ot, d):
        if c.returns(o): dims(c, o, d, 1, n); c.all_eq2(o, "row", 1, n, lambda p, q: (o.arr2(ot, p, q), a(q)))
@unit("VectorN elements", [VV + x for x in ("VectorN", "at", "SetNull", "SetOnes", "Reverse")], N1, conc=60)
def _(c):
    n = c.int("n", 1); a = c.vec("a", n); i = c.int("i", 0, conc=lambda r: r.randrange(int(n.const()))); c.require(LT(i, n)); x = c.real("x"); out = c.out("out", n)
    for o in c.call("vnat", a, n, i):
        if c.returns(o): c.eq(o, "at", o.val, a(i))
    for f, nm, w in ((0, "write through at", lambda k: ite(EQ(k, i), x, a(k))), (1, "null", lambda k: P(0)), (2, "ones", lambda k: P(1)), (3, "reversed", lambda k: a(n - 1 - k))):
        for o in c.call("vnset", f, a, n, i, x, out):
            if c.returns(o): c.all_eq(o, nm, 0, n, lambda k: (o.arr(out, k), w(k)))
@unit("VectorN::infNorm", [VV + "infNorm"], N1, conc=80)
def _(c):
    n = c.int("n", 1); a = c.vec("a", n); M = c.real("M", lo=0)
    for o in c.call("vninf", a, n):
        if c.returns(o):
            c.all_holds(o, "bounds every component", 0, n, lambda k: LE(ab(a(k)), o.val))
            if c.mode == "conc" or n.const() is not None: c.ensure(o, "attained", Or(*[EQ(o.val, ab(a(k))) for k in range(int(n.const()))]))
            else:
                k = fresh("q", "I"); c.ensure(o, "least upper bound", LE(o.val, M), extra=(Forall(k, 0, n, LE(ab(a(k)), M)),))
@unit("VectorN::IsEqual", [VV + "IsEqual"], N1, conc=80)
def _(c):
    n = c.int("n", 1); b = c.vec("b", n); a = c.vec("a", n, conc=lambda r, k: [x + r.choice([0, 0, 1e-5, 1e-13]) for x in b.raw]); e = c.real("eps", lo=0, conc=[1e-12, 1e-6, 0.1])
    for o in c.call("vneq", a, b, n, e):
        if c.returns(o): c.eq(o, "equal up to the relative tolerance", o.val, ind(approx(lambda i, j: a(i), lambda i, j: b(i), n, 1, e)))
@unit("VectorN::Sort order", [VV + "Sort", VV + "Reverse"], [{"n": 1}, {"n": 2}, {"n": 3}], conc=80)
def _(c):
    n = c.int("n", 1); a = c.vec("a", n); out = c.out("out", n)
    for f in (0, 1, 2):
        for o in c.call("vnsort", f, a, n, out):
            if not c.returns(o): continue
            c.all_holds(o, "increasing" if f else "decreasing", 0, n - 1, lambda k: LE(o.arr(out, k), o.arr(out, k + 1)) if f else LE(o.arr(out, k + 1), o.arr(out, k)))
@unit("VectorN::Sort keeps the values", [VV + "Sort"], [{"n": 1}, {"n": 2}], conc=60)
def _(c):
    n = c.int("n", 1); a = c.vec("a", n); out = c.out("out", n)
    for f in (0, 1):
        for o in c.call("vnsort", f, a, n, out):
            if not c.returns(o): continue
            x = c.real("x") if c.mode != "conc" else a(c.rng.randrange(int(n.const())))
            cnt = lambda g: Sum(lambda k: ind(EQ(g(k), x)), 0, n)
            ax = ()
            if c.mode == "sym":     # instances at x of std::sort's count axiom and of the reversal of a sum
                for src, g, m in c.ex.sorts: ax += (EQ(cnt(g), cnt(src.get)), EQ(cnt(lambda k: g(n - 1 - k)), cnt(g)))
            c.eq(o, "every value occurs as often as before", cnt(lambda k: o.arr(out, k)), cnt(a), extra=ax)
