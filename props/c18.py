from contract import *
import execu
import decomp, fixdec
M = "mathutils::MatrixMN::"
LEVEL_NOTE = "MatrixMN, Matrix33 and Matrix66 wrappers and eigenvalues proved against assumed contracts of Eigen's decompositions (defining equations), MatrixMN for all sizes; equality-constrained least squares bounded; Eigen's numerical kernels themselves are exercised on concrete matrices only"
BN = [{"n": 1}, {"n": 2}]; BMN = [{"m": 2, "n": 1}, {"m": 2, "n": 2}]
def well(r, d):
    """well-conditioned matrices, entries of ordinary size; sometimes integers, zeros, negative entries"""
    n, m = d
    k = r.choice([0, 1, 2])
    v = [[r.uniform(-1, 1) if k else float(r.randint(-3, 3)) * 0.25 for _ in range(m)] for _ in range(n)]
    q = list(range(n)); r.shuffle(q)
    for i in range(min(n, m)): v[q[i] if k == 2 else i][i] += r.choice([-1, 1]) * (min(n, m) + 1.5)
    return [x for row in v for x in row]
def spd(r, d):
    n = d[0]; v = [[r.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
    for i in range(n): v[i][i] = n + 1 + r.random()
    return [x for row in v for x in row]
def size(c, n, lo=1, hi=6): return c.int(n, lo, conc=lambda r: r.randint(lo, hi))
def dims(c, o, d, n, m, name):
    c.ensure(o, name + " has the promised shape", And(EQ(o.arr(d, 0), n), EQ(o.arr(d, 1), m)))
def mm(f, g, n): return lambda i, j: Sum(lambda k: f(i, k) * g(k, j), 0, n)
def tr(f): return lambda i, j: f(j, i)
def delta(i, j): return ind(EQ(i, j))
TOL = 1e-8
def meq(c, o, name, n, m, f, g): c.all_eq2(o, name, n, m, lambda i, j: (f(i, j), g(i, j)), tol=TOL)
def mzero(c, o, name, n, m, f, cond):
    """f(i, j) == 0 wherever cond"""
    c.all_eq2(o, name, n, m, lambda i, j: (f(i, j) * ind(cond(i, j)), P(0)), tol=TOL)
for fn, full in (("qr", 0), ("fqr", 1)):
    @unit("QR" + (", full" if full else ""), [M + ("GetFullQRDecomposition" if full else "GetQRDecomposition")], bounds=BMN, conc=80)
    def _(c, fn=fn, full=full):
        n = size(c, "n"); m = c.int("m", 1, conc=lambda r: int(ev(n)) + r.choice([0, 0, 1, 2, 4])); c.require(LE(n, m))
        A = c.ten("a", m, n, conc=well); w = m if full else n
        q, r, dq, dr = c.out2("q", m, w), c.out2("r", n, n), c.out("dq", 2, "i"), c.out("dr", 2, "i")
        for o in c.call(fn, A, m, n, q, r, dq, dr):
            if not c.returns(o): continue
            dims(c, o, dq, m, w, "Q"); dims(c, o, dr, n, n, "R")
            Q, R = lambda i, j: o.arr2(q, i, j), lambda i, j: o.arr2(r, i, j)
            meq(c, o, "Q R is the matrix", m, n, mm(Q, R, n), A)
            meq(c, o, "the columns of Q are orthonormal", w, w, mm(tr(Q), Q, m), delta)
            mzero(c, o, "R is upper triangular", n, n, R, lambda i, j: LT(j, i))
@unit("LU", [M + "GetLUDecomposition"], bounds=BN, conc=80)
def _(c):
    n = size(c, "n"); A = c.ten("a", n, n, conc=well)
    p, l, u = c.out2("p", n, n), c.out2("l", n, n), c.out2("u", n, n); dp, dl, du = (c.out(x, 2, "i") for x in ("dp", "dl", "du"))
    for o in c.call("lu", A, n, p, l, u, dp, dl, du):
        if not c.returns(o): continue
        for d, x in ((dp, "P"), (dl, "L"), (du, "U")): dims(c, o, d, n, n, x)
        Pm, L, U = lambda i, j: o.arr2(p, i, j), lambda i, j: o.arr2(l, i, j), lambda i, j: o.arr2(u, i, j)
        meq(c, o, "P A is L U", n, n, mm(L, U, n), mm(Pm, A, n))
        mzero(c, o, "L is lower triangular", n, n, L, lambda i, j: LT(i, j))
        mzero(c, o, "U is upper triangular", n, n, U, lambda i, j: LT(j, i))
        c.all_eq(o, "L has a unit diagonal", 0, n, lambda i: (L(i, i), P(1)), tol=TOL)
        c.all_eq2(o, "P has zeros and ones", n, n, lambda i, j: (Pm(i, j) * (Pm(i, j) - 1), P(0)), tol=TOL)
        c.all_eq(o, "one 1 per row of P", 0, n, lambda i: (Sum(lambda k: Pm(i, k), 0, n), P(1)), tol=TOL)
        meq(c, o, "P is orthogonal", n, n, mm(Pm, tr(Pm), n), delta)
def low(A): return lambda i, j: ite(LT(i, j), A(j, i), A(i, j))
@unit("Cholesky", [M + "GetCholeskyDecomposition"], bounds=BN, conc=80)
def _(c):
    n = size(c, "n"); A = c.ten("a", n, n, conc=spd); l, dl = c.out2("l", n, n), c.out("dl", 2, "i")
    for o in c.call("chol", A, n, l, dl):
        if c.mode == "conc": c.kinds(o, ret=TRUE)
        if o.kind != "ret": continue
        dims(c, o, dl, n, n, "L"); L = lambda i, j: o.arr2(l, i, j)
        meq(c, o, "L L^T is the matrix", n, n, mm(L, tr(L), n), low(A))
        mzero(c, o, "L is lower triangular", n, n, L, lambda i, j: LT(i, j))
for fn in ("cholup", "cholin"):
    @unit("rank update" + (" in place" if fn == "cholin" else ""), [M + ("GetCholeskyUpdate" if fn == "cholup" else "InPlaceCholeskyUpdate")], bounds=BN, conc=80)
    def _(c, fn=fn):
        n = size(c, "n"); A = c.ten("a", n, n, conc=spd); v = c.vec("v", n, conc=lambda r, d: [r.uniform(-1, 1) for _ in range(d)]); s = c.real("s", conc=[1.0, 0.5, 2.0, -0.2, -1.0, 0.0])
        if c.mode == "conc" and float(ev(s)) < 0: c.require(LT(Sum(lambda k: v(k) * v(k), 0, n), Fraction(3, 4)))
        l, dl = c.out2("l", n, n), c.out("dl", 2, "i")
        for o in c.call(fn, A, n, v, s, l, dl):
            if not c.returns(o): continue
            dims(c, o, dl, n, n, "L"); L = lambda i, j: o.arr2(l, i, j)
            meq(c, o, "L L^T is the updated matrix", n, n, mm(L, tr(L), n), lambda i, j: low(A)(i, j) + s * v(i) * v(j))
            mzero(c, o, "L is lower triangular", n, n, L, lambda i, j: LT(i, j))
def mn(c, tall):
    if tall: n = size(c, "n"); m = c.int("m", 1, conc=lambda r: int(ev(n)) + r.choice([0, 0, 1, 3])); c.require(LE(n, m)); return m, n, n
    m = size(c, "m"); n = c.int("n", 1, conc=lambda r: int(ev(m)) + r.choice([1, 2, 3])); c.require(LT(m, n)); return m, n, m
for tall in (1, 0):
    sfx = ", at least as many rows as columns" if tall else ", more columns than rows"; bb = BMN if tall else [{"m": 1, "n": 2}]
    @unit("singular values" + sfx, [M + "GetSVDDecomposition"], bounds=bb, conc=80)
    def _(c, tall=tall):
        m, n, k = mn(c, tall); A = c.ten("a", m, n, conc=well)
        u, s, v = c.out2("u", m, k), c.out("s", k), c.out2("v", n, k); du, ds, dv = (c.out(x, 2, "i") for x in ("du", "ds", "dv"))
        for o in c.call("svd", A, m, n, k, u, s, v, du, ds, dv):
            if not c.returns(o): continue
            dims(c, o, du, m, k, "U"); dims(c, o, ds, k, 1, "S"); dims(c, o, dv, n, k, "V")
            U, S, V = lambda i, j: o.arr2(u, i, j), lambda i: o.arr(s, i), lambda i, j: o.arr2(v, i, j)
            meq(c, o, "U S V^T is the matrix", m, n, mm(lambda i, q: U(i, q) * S(q), tr(V), k), A)
            meq(c, o, "the columns of U are orthonormal", k, k, mm(tr(U), U, m), delta)
            meq(c, o, "the columns of V are orthonormal", k, k, mm(tr(V), V, n), delta)
            c.all_holds(o, "singular values are not negative", 0, k, lambda i: GE(S(i), 0))
            c.all_holds(o, "singular values decrease", 0, k - 1, lambda i: GE(S(i), S(i + 1)))
for op in (0, 1):
    @unit(("Inverse", "GetInverse")[op], [M + ("Inverse", "GetInverse")[op]], bounds=BN, conc=80)
    def _(c, op=op):
        n = size(c, "n"); A = c.ten("a", n, n, conc=well); x, dx = c.out2("x", n, n), c.out("dx", 2, "i")
        for o in c.call("inverse", A, n, op, x, dx):
            if not c.returns(o): continue
            dims(c, o, dx, n, n, "inverse"); X = lambda i, j: o.arr2(x, i, j)
            meq(c, o, "A X is the identity", n, n, mm(A, X, n), delta); meq(c, o, "X A is the identity", n, n, mm(X, A, n), delta)
        if op:
            y, dy = c.out2("y", n, n), c.out("dy", 2, "i")
            for o in c.call("inversekeeps", A, n, y, dy):
                if c.returns(o): meq(c, o, "the matrix is unchanged", n, n, lambda i, j: o.arr2(y, i, j), A)
for op in (0, 1):
    @unit(("LUSolver", "QRSolver")[op], [M + ("LUSolver", "QRSolver")[op]], bounds=[{"n": 2, "k": 1}], conc=80)
    def _(c, op=op):
        n, k = size(c, "n"), size(c, "k", 1, 3); A = c.ten("a", n, n, conc=well); b = c.ten("b", n, k); x, dx = c.out2("x", n, k), c.out("dx", 2, "i")
        for o in c.call("solve", A, n, b, k, op, x, dx):
            if not c.returns(o): continue
            dims(c, o, dx, n, k, "solution"); c.all_eq2(o, "A x is the right-hand side", n, k, lambda i, j: (mm(A, lambda p, q: o.arr2(x, p, q), n)(i, j), b(i, j)), tol=TOL, scale=1000 if c.mode == "conc" else 1)
@unit("LeastSquareSolver", [M + "LeastSquareSolver"], bounds=[{"m": 2, "n": 1, "k": 1}], conc=80)
def _(c):
    m, n, _k = mn(c, 1); k = size(c, "k", 1, 2); A = c.ten("a", m, n, conc=well); b = c.ten("b", m, k, conc=lambda r, d: [r.uniform(-3, 3) for _ in range(d[0] * d[1])]); x, dx = c.out2("x", n, k), c.out("dx", 2, "i")
    for o in c.call("ls", A, m, n, b, k, x, dx):
        if not c.returns(o): continue
        dims(c, o, dx, n, k, "solution"); X = lambda i, j: o.arr2(x, i, j)
        meq(c, o, "normal equations", n, k, mm(tr(A), lambda i, j: mm(A, X, n)(i, j) - b(i, j), m), lambda i, j: P(0))
for op, nm in ((0, "default tolerance"), (1, "given tolerance"), (2, "free function")):
    for tall in (1, 0):
        @unit("pseudo-inverse, %s%s" % (nm, "" if tall else ", more columns than rows"), ["mathutils::Pinv" if op == 2 else M + "GetPseudoInverse", M + "GetSVDDecomposition"], bounds=[{"m": 2, "n": 1}, {"m": 2, "n": 2}] if tall else [{"m": 1, "n": 2}], conc=60)
        def _(c, op=op, tall=tall):
            m, n, k = mn(c, tall); tol = c.real("tol", conc=[1e-6, 1e-9, 1e-2]) if op else Fraction(1, 10 ** 6)
            tf = lambda: float(ev(tol)) if op else 1e-6
            def spectrum(r, d):
                """a matrix with chosen singular values: of several magnitudes, some of them below the tolerance or zero"""
                import numpy as np
                g = np.random.RandomState(r.randint(0, 10 ** 6)); q = min(d); base = r.choice([1.0, 1.0, 1e-3, 1e3]) if tf() < 1e-3 else r.choice([1.0, 30.0])
                s = [base * r.uniform(0.5, 3) * r.choice([1, 1, 0.03]) if r.random() < 0.7 else r.choice([0.0, tf() / 20]) for _ in range(q)]
                U, V = np.linalg.qr(g.randn(d[0], d[0]))[0][:, :q], np.linalg.qr(g.randn(d[1], d[1]))[0][:, :q]
                return [float(t) for t in ((U * s) @ V.T).ravel()]
            A = c.ten("a", m, n, conc=spectrum)
            if c.mode != "conc" and op: c.require(GE(tol, 0))
            x, dx = c.out2("x", n, m), c.out("dx", 2, "i")
            for o in c.call("pinv", A, m, n, op, tol if op else P(0), x, dx):
                if not c.returns(o): continue
                dims(c, o, dx, n, m, "pseudo-inverse"); X = lambda i, j: o.arr2(x, i, j)
                if c.mode == "conc":
                    import numpy as np
                    Am = np.array([[float(ev(A(i, j))) for j in range(int(ev(n)))] for i in range(int(ev(m)))]); U, S, V = np.linalg.svd(Am, full_matrices=False)
                    sp = [1 / t if t > tf() else 0.0 for t in S]; W = (V.T * sp) @ U.T; big = max(1e-3, max(sp))
                    gap = any(abs(t / tf() - 1) < 1e-3 for t in S)       # too close to the tolerance to call
                    if not gap: c.all_eq2(o, "V S+ U^T", n, m, lambda i, j: (X(i, j), P(execu.snap(float(W[int(ev(i)), int(ev(j))])))), tol=1e-7, scale=big)
                else:
                    # V S+ U^T for the singular value decomposition of the matrix: the Moore-Penrose equations follow
                    U, S, V = lambda i, j: app("svd0!U", i, j), lambda i: app("svd0!S", i, 0), lambda i, j: app("svd0!V", i, j)
                    meq(c, o, "V S+ U^T", n, m, mm(lambda i, q: V(i, q) * ite(GT(S(q), tol), inv(S(q)), P(0)), tr(U), k), X)
@unit("least squares with equality constraints", [M + "LeastSquareSolverConstraint"], bounds=[{"m": 3, "n": 2, "p": 1}], conc=120, sym=False)
def _(c):
    p = size(c, "p", 1, 3); n = c.int("n", 1, conc=lambda r: int(ev(p)) + r.randint(1, 3)); m = c.int("m", 1, conc=lambda r: int(ev(n)) + r.randint(1, 3)); c.require(LT(p, n), LT(n, m))
    A = c.ten("a", m, n, conc=well); C = c.ten("c", p, n, conc=well); small = lambda r, d: [r.uniform(-3, 3) for _ in range(d)]
    b, d = c.vec("b", m, conc=small), c.vec("d", p, conc=small)
    x, dx = c.out("x", n), c.out("dx", 2, "i")
    for o in c.call("lsc", A, m, n, b, C, p, d, x, dx):
        if not c.returns(o): continue
        dims(c, o, dx, n, 1, "solution"); X = lambda i: o.arr(x, i)
        c.all_eq(o, "the constraint holds", 0, p, lambda i: (Sum(lambda j: C(i, j) * X(j), 0, n), d(i)), tol=TOL)
        if c.mode == "conc":
            # stationarity: the gradient is orthogonal to the null space of C (projector I - C^T (C C^T)^-1 C applied to it vanishes)
            import mpmath
            Cm = mpmath.matrix([[ev(C(i, j)) for j in range(int(ev(n)))] for i in range(int(ev(p)))]); Am = mpmath.matrix([[ev(A(i, j)) for j in range(int(ev(n)))] for i in range(int(ev(m)))])
            g = Am.T * (Am * mpmath.matrix([ev(X(j)) for j in range(int(ev(n)))]) - mpmath.matrix([ev(b(i)) for i in range(int(ev(m)))]))
            r = g - Cm.T * mpmath.lu_solve(Cm * Cm.T, Cm * g)
            c.ensure(o, "the residual is stationary under the constraint", B(max(abs(t) for t in r) < 1e-7))
        else:
            # the trailing columns of the orthogonal factor of C^T are orthogonal to the rows of C and (C of full rank) span the allowed
            # directions: the squared residual is stationary along each of them
            Q = lambda i, j: app("hqr0!Q", i, j); k = fresh("k", "I")
            if p.const() is not None and n.const() is not None: ks = [P(t) for t in range(int(p.const()), int(n.const()))]
            else: ks = [k]
            rs = lambda i: Sum(lambda j: A(i, j) * X(j), 0, n) - b(i)
            for k in ks:
                rk = (LE(p, k), LT(k, n))
                c.eq(o, "stationary along the allowed directions", Sum(lambda i: Sum(lambda j: A(i, j) * Q(j, k), 0, n) * rs(i), 0, m), P(0), extra=rk)
                c.all_eq(o, "the directions are allowed by the constraint", 0, p, lambda i: (Sum(lambda j: C(i, j) * Q(j, k), 0, n), P(0)), given=rk)
# Matrix33, Matrix66 (contracts of the fixed-size decompositions: fixdec.py)
for cls, K, N in (("Matrix33", "m3", 3), ("Matrix66", "m6", 6)):
    F = "mathutils::%s::" % cls
    def mat(c, a): return lambda i, j: a(i * N + j)
    def sq(gen, N): return lambda r, d: gen(r, (N, N))
    def fx(nm, fns, conc=60, **kw): return unit("%s: %s" % (cls, nm), [F + f for f in fns], conc=conc, **dict(dict(bounds=[{}]), **kw))
    def view(o, x, N): return lambda i, j: o.arr(x, i * N + j)
    def outs(c, N, *n): return [c.out(x, N * N) for x in n]
    @fx("QR", ["GetQRDecomposition"])
    def _(c, K=K, N=N):
        a = c.vec("a", N * N, conc=sq(well, N)); q, r = outs(c, N, "q", "r")
        for o in c.call(K + "qr", a, q, r):
            if not c.returns(o): continue
            Q, R, A = view(o, q, N), view(o, r, N), lambda i, j: a(i * N + j)
            meq(c, o, "Q R is the matrix", N, N, mm(Q, R, N), A); meq(c, o, "Q is orthogonal", N, N, mm(tr(Q), Q, N), delta)
            mzero(c, o, "R is upper triangular", N, N, R, lambda i, j: LT(j, i))
    @fx("LU", ["GetLUDecomposition"])
    def _(c, K=K, N=N):
        a = c.vec("a", N * N, conc=sq(well, N)); p, l, u = outs(c, N, "p", "l", "u")
        for o in c.call(K + "lu", a, p, l, u):
            if not c.returns(o): continue
            Pm, L, U, A = view(o, p, N), view(o, l, N), view(o, u, N), lambda i, j: a(i * N + j)
            meq(c, o, "P A is L U", N, N, mm(L, U, N), mm(Pm, A, N))
            mzero(c, o, "L is lower triangular", N, N, L, lambda i, j: LT(i, j)); mzero(c, o, "U is upper triangular", N, N, U, lambda i, j: LT(j, i))
            c.all_eq(o, "L has a unit diagonal", 0, N, lambda i: (L(i, i), P(1)), tol=TOL)
            meq(c, o, "P has zeros and ones", N, N, lambda i, j: Pm(i, j) * (Pm(i, j) - 1), lambda i, j: P(0)); meq(c, o, "P is orthogonal", N, N, mm(Pm, tr(Pm), N), delta)
    @fx("Cholesky", ["GetCholeskyDecomposition"])
    def _(c, K=K, N=N):
        a = c.vec("a", N * N, conc=sq(spd, N)); l, = outs(c, N, "l")
        for o in c.call(K + "chol", a, l):
            if c.mode == "conc": c.kinds(o, ret=TRUE)
            if o.kind != "ret": continue                    # the matrix may turn out not to be positive definite
            L = view(o, l, N)
            meq(c, o, "L L^T is the matrix", N, N, mm(L, tr(L), N), low(lambda i, j: a(i * N + j))); mzero(c, o, "L is lower triangular", N, N, L, lambda i, j: LT(i, j))
    @fx("inverse", ["Inverse", "GetInverse"])    # 3x3: Eigen's cofactor code itself is verified
    def _(c, K=K, N=N):
        a = c.vec("a", N * N, conc=sq(well, N)); x, y, z = outs(c, N, "x", "y", "z"); A = lambda i, j: a(i * N + j)
        if c.mode != "conc" and N == 3: c.require(NE(sum(A(0, i) * (A(1, (i + 1) % 3) * A(2, (i + 2) % 3) - A(1, (i + 2) % 3) * A(2, (i + 1) % 3)) for i in range(3)), 0))
        for o in c.call(K + "inv", a, x):
            if not c.returns(o): continue
            meq(c, o, "A X is the identity", N, N, mm(A, view(o, x, N), N), delta)
        for o in c.call(K + "ginv", a, y, z):
            if not c.returns(o): continue
            meq(c, o, "A GetInverse is the identity", N, N, mm(A, view(o, y, N), N), delta); meq(c, o, "GetInverse leaves the matrix", N, N, view(o, z, N), A)
    for op, nm in enumerate(("LUSolver", "QRSolver", "LeastSquareSolver")):
        @fx(nm, [nm])
        def _(c, K=K, N=N, op=op):
            a, b = c.vec("a", N * N, conc=sq(well, N)), c.vec("b", N * N, conc=sq(well, N)); v = c.vec("v", N, conc=lambda r, d: [r.uniform(-3, 3) for _ in range(d)]); A = lambda i, j: a(i * N + j)
            x, = outs(c, N, "x"); z = c.out("z", N)
            for o in c.call(K + "solve", a, b, v, op, x, z):
                if not c.returns(o): continue
                X = view(o, x, N); z_ = lambda i: o.arr(z, i); B = lambda i, j: b(i * N + j)
                if op < 2 or c.mode == "conc":
                    meq(c, o, "A X is the right-hand side", N, N, mm(A, X, N), B)
                    c.all_eq(o, "A x is the right-hand side vector", 0, N, lambda i: (Sum(lambda k: A(i, k) * z_(k), 0, N), v(i)), tol=TOL)
                if op == 2:
                    meq(c, o, "normal equations", N, N, mm(tr(A), lambda i, j: mm(A, X, N)(i, j) - B(i, j), N), lambda i, j: P(0))
                    c.all_eq(o, "normal equations, vector", 0, N, lambda i: (Sum(lambda r: A(r, i) * (Sum(lambda k: A(r, k) * z_(k), 0, N) - v(r)), 0, N), P(0)), tol=TOL)
@unit("eigenvalues", [M + "Eigenvalues"], bounds=BN, conc=80)
def _(c):
    n = size(c, "n", 1, 5); A = c.ten("a", n, n, conc=well); re, im, d = c.out("re", n), c.out("im", n), c.out("d", 2, "i")
    for o in c.call("eigv", A, n, re, im, d):
        if not c.returns(o): continue
        dims(c, o, d, n, 1, "eigenvalues")
        if c.mode != "conc":       # exactly the eigenvalues of Eigen's solver (whose contract they are), in its order
            c.all_eq(o, "real parts", 0, n, lambda i: (o.arr(re, i), app("eig0!re", i, 0))); c.all_eq(o, "imaginary parts", 0, n, lambda i: (o.arr(im, i), app("eig0!im", i, 0)))
            continue
        # the power sums of the eigenvalues are the traces of the powers: this fixes them as a multiset
        import mpmath
        m = int(ev(n)); Am = mpmath.matrix([[ev(A(i, j)) for j in range(m)] for i in range(m)]); ls = [mpmath.mpc(ev(o.arr(re, i)), ev(o.arr(im, i))) for i in range(m)]
        Q = mpmath.eye(m)
        for k in range(1, m + 1):
            Q = Q * Am; t = sum(Q[i, i] for i in range(m)); s = sum(l ** k for l in ls)
            c.ensure(o, "power sum %d is the trace of that power" % k, B(bool(abs(s - t) <= 1e-8 * (1 + mpmath.mnorm(Q, 1)))))
