from contract import *
from smt import PI
import boostm, mpmath
LEVEL_NOTE = "Chebyshev polynomials, their derivatives and the Clenshaw sum of boost::math are trusted contracts; power-series conversion in 1D for every order 0..18, in 2D and 3D for listed orders (bounded); 3D evaluation and derivatives proved for any coefficients and orders, the 3D coefficients themselves bounded"
A = lambda n, *x: T.rebuild_app(n, tuple(P(v) for v in x), "R")
cheb = lambda i, x: A("cheb", i, x)
chebp = lambda i, x: A("chebp", i, x)
def dom(c, nm, kind):
    """domain of one coordinate: bounds, a point inside, mapped point and chain factor, map of [-1, 1] to the domain"""
    x0 = c.real(nm + "0", **({} if kind == "c" else {"lo": Fraction(1, 4)}))
    if kind == "c":
        x1 = c.real(nm + "1", conc=lambda r: float(ev(x0)) + r.choice([1.0, 0.5, r.uniform(0.1, 4)])); c.require(LT(x0, x1))
        x = c.real(nm, conc=lambda r: r.choice([float(ev(x0)), float(ev(x1)), r.uniform(float(ev(x0)), float(ev(x1)))]))
        return x0, x1, x, (x * 2 - x0 - x1) / (x1 - x0), P(2) / (x1 - x0), lambda t: (x1 - x0) / 2 * t + (x0 + x1) / 2
    c.require(GT(x0, 0))
    x = c.real(nm, conc=lambda r: r.choice([float(ev(x0)), float(ev(x0)) * r.uniform(1, 5)])); c.require(GE(x, x0))
    return x0, P(0), x, 1 - x0 * 2 / x, x0 * 2 / (x * x), lambda t: x0 * 2 / (1 - t)
def node(r, n): return A("cos", PI.scale(Fraction(1, 2)) * (P(r) * 2 + 1) / (P(n) + 1))
def lemma(c, *ns):
    """0 < pi (2 r + 1) / (2 (n + 1)) < pi, so the cosine is below one"""
    if c.mode == "conc": return
    for n in ns:
        r = fresh("r", "I"); c.require(Forall(r, 0, P(n) + 1, LT(node(r, n), 1)))
def w(i, n): return (P(2) - ind(EQ(P(i), 0))) / (P(n) + 1)
def coef1(f, n, m, i): return w(i, n) * Sum(lambda r: f(m(node(r, n))) * cheb(i, node(r, n)), 0, n + 1)
# sizes (n, nx, ny, nz) are order + 1
B = {1: [{"n": k} for k in (1, 2, 3, 4)], 2: [{"nx": i, "ny": j} for i, j in ((1, 1), (2, 3), (3, 2))], 3: [{"nx": i, "ny": j, "nz": k} for i, j, k in ((1, 1, 1), (2, 2, 2), (1, 2, 3))]}
C1 = ["ChebyshevSeries1dClosed", "ChebyshevSeries1dOpened"]
M = "mathutils::"
def mk1(d, op, times):
    m = ["Evaluate", "Evaluate_derivative_x"][op]
    @unit("%s.%s%s" % (C1[d], m, "" if times == 1 else " after %d computations" % times), [M + "%s::%s" % (C1[d], m), M + C1[d] + "::Compute_ai"], bounds=B[1], conc=60)
    def _(c):
        n = c.int("n", 1, conc=range(1, 10)) - 1; f = c.ufun("f"); x0, x1, x, u, dx, mp = dom(c, "x", "co"[d])
        lemma(c, n)
        for o in c.call("ch1", f, d, times, op, n, x0, x1, x):
            if c.returns(o):
                s = Sum(lambda i: coef1(f, n, mp, i) * (cheb(i, u) if op == 0 else chebp(i, u)), 0, n + 1)
                c.eq(o, "Chebyshev series" if op == 0 else "derivative of the series", o.val, s if op == 0 else dx * s, tol=1e-8, scale=100 * big(c, f, [mp], [int(float(ev(n)))]) if c.mode == 'conc' else 1)
for d in (0, 1):
    for op in (0, 1):
        for t in (1, 2): mk1(d, op, t)

def coef2(f, nx, ny, mx, my, i, j):
    return w(i, nx) * w(j, ny) * Sum(lambda r: cheb(i, node(r, nx)) * Sum(lambda q: f(mx(node(r, nx)), my(node(q, ny))) * cheb(j, node(q, ny)), 0, ny + 1), 0, nx + 1)
C2 = ["ChebyshevSeries2dClosed", "ChebyshevSeries2dOpened", "ChebyshevSeries2dMixed"]; K2 = ["cc", "oo", "co"]
def mk2(d, op, times):
    m = ["Evaluate", "Evaluate_derivative_x", "Evaluate_derivative_y"][op]
    @unit("%s.%s%s" % (C2[d], m, "" if times == 1 else " after %d computations" % times), [M + "%s::%s" % (C2[d], m), M + C2[d] + "::Compute_aij"], bounds=B[2], conc=40)
    def _(c):
        nx = c.int("nx", 1, conc=range(1, 7)) - 1; ny = c.int("ny", 1, conc=range(1, 7)) - 1; f = c.ufun("f", 2)
        x0, x1, x, u, dx, mx = dom(c, "x", K2[d][0]); y0, y1, y, v, dy, my = dom(c, "y", K2[d][1]); lemma(c, nx, ny)
        for o in c.call("ch2", f, d, times, op, nx, ny, x0, x1, y0, y1, x, y):
            if c.returns(o):
                tx, ty = (chebp if op == 1 else cheb), (chebp if op == 2 else cheb)
                s = Sum(lambda i: tx(i, u) * Sum(lambda j: ty(j, v) * coef2(f, nx, ny, mx, my, i, j), 0, ny + 1), 0, nx + 1)
                c.eq(o, "Chebyshev series" if op == 0 else "derivative of the series", o.val, s * [1, dx, dy][op], tol=1e-8, scale=100 * big(c, f, [mx, my], [int(float(ev(nx))), int(float(ev(ny)))]) if c.mode == 'conc' else 1)
for d in (0, 1, 2):
    for op in (0, 1, 2): mk2(d, op, 1)
    mk2(d, 0, 2)
def coef3(f, n, m, i, j, k):
    return w(i, n[0]) * w(j, n[1]) * w(k, n[2]) * Sum(lambda r: cheb(i, node(r, n[0])) * Sum(lambda q: cheb(j, node(q, n[1])) * Sum(
        lambda t: f(m[0](node(r, n[0])), m[1](node(q, n[1])), m[2](node(t, n[2]))) * cheb(k, node(t, n[2])), 0, n[2] + 1), 0, n[1] + 1), 0, n[0] + 1)
C3 = ["ChebyshevSeries3dClosed", "ChebyshevSeries3dYZOpenedXClosed", "ChebyshevSeries3dZOpenedXYClosed"]; K3 = ["ccc", "coo", "cco"]
def mk3(d, op, times):
    m = ["Evaluate", "Evaluate_derivative_x", "Evaluate_derivative_y", "Evaluate_derivative_z"][op]
    @unit("%s.%s%s" % (C3[d], m, "" if times == 1 else " after %d computations" % times), [M + "%s::%s" % (C3[d], m), M + C3[d] + "::Compute_aijk"], bounds=B[3], conc=24, sym=False)
    def _(c):
        n = [c.int(q, 1, conc=range(1, 5)) - 1 for q in ("nx", "ny", "nz")]; f = c.ufun("f", 3)
        D = [dom(c, q, k) for q, k in zip("xyz", K3[d])]; lemma(c, *n)
        for o in c.call("ch3", f, d, times, op, *n, *[t for q in D for t in q[:2]], *[q[2] for q in D]):
            if c.returns(o):
                t = [chebp if op == a + 1 else cheb for a in range(3)]; ms = [q[5] for q in D]
                s = Sum(lambda i: t[0](i, D[0][3]) * Sum(lambda j: t[1](j, D[1][3]) * Sum(lambda k: t[2](k, D[2][3]) * coef3(f, n, ms, i, j, k), 0, n[2] + 1), 0, n[1] + 1), 0, n[0] + 1)
                c.eq(o, "Chebyshev series" if op == 0 else "derivative of the series", o.val, s * (D[op - 1][4] if op else 1), tol=1e-8, scale=100 * big(c, f, ms, [int(float(ev(q))) for q in n]) if c.mode == 'conc' else 1)
for d in (0, 1, 2):
    for op in range(4): mk3(d, op, 1)
    mk3(d, 0, 2)

def member(c):
    """whether the coefficients are the member the harness reaches; if not, the end-to-end units decide alone"""
    ok = all(int(float(ev(o.val))) == 1 for o in c.call("h3_ok"))
    if not ok and c.mode == "sym": raise Unsupported("no member m_aijk")
    return ok
def mkg3(d, op):
    m = ["Evaluate", "Evaluate_derivative_x", "Evaluate_derivative_y", "Evaluate_derivative_z"][op]
    @unit("%s.%s for any coefficients" % (C3[d], m), [M + "%s::%s" % (C3[d], m)], bounds=B[3], conc=12)
    def _(c):
        if not member(c): return
        n = [c.int(q, 1, conc=range(1, 5)) - 1 for q in ("nx", "ny", "nz")]; a = c.ufun("a", 3)
        D = [dom(c, q, k) for q, k in zip("xyz", K3[d])]
        for o in c.call("cg3", a, d, op, *n, *[t for q in D for t in q[:2]], *[q[2] for q in D]):
            if c.returns(o):
                t = [chebp if op == q + 1 else cheb for q in range(3)]
                s = Sum(lambda i: t[0](i, D[0][3]) * Sum(lambda j: t[1](j, D[1][3]) * Sum(lambda k: t[2](k, D[2][3]) * a(i, j, k), 0, n[2] + 1), 0, n[1] + 1), 0, n[0] + 1)
                c.eq(o, "series with the given coefficients" if op == 0 else "derivative of the series with the given coefficients", o.val, s * (D[op - 1][4] if op else 1), tol=1e-8, scale=1000)
def mkc3(d, times):
    @unit("%s.Compute_aijk%s" % (C3[d], "" if times == 1 else " %d times" % times), [M + C3[d] + "::Compute_aijk"], bounds=B[3], conc=12, sym=False)
    def _(c):
        if not member(c): return
        n = [c.int(q, 1, conc=range(1, 5)) - 1 for q in ("nx", "ny", "nz")]; f = c.ufun("f", 3)
        ix = [c.int(q, 0, conc=lambda r, p=p: r.randint(0, int(float(ev(p))))) for q, p in zip("ijk", n)]
        for q, p in zip(ix, n): c.require(LE(q, p))
        D = [dom(c, q, k) for q, k in zip("xyz", K3[d])]; lemma(c, *n); ms = [q[5] for q in D]
        for o in c.call("cc3", f, d, times, *n, *ix, *[t for q in D for t in q[:2]]):
            if c.returns(o):
                c.eq(o, "coefficient", o.val, coef3(f, n, ms, *ix), tol=1e-8, scale=100 * big(c, f, ms, [int(float(ev(q))) for q in n]) if c.mode == 'conc' else 1)
for d in (0, 1, 2):
    for op in range(4): mkg3(d, op)
    for t in (1, 2): mkc3(d, t)

def big(c, f, ms, ns):
    """largest value of f at the nodes (concrete runs: scale of the rounding errors)"""
    if c.mode != "conc": return 1
    import itertools
    pts = [[m(node(r, n)) for r in sorted({0, n // 2, n})] for m, n in zip(ms, ns)]
    return 1 + max(abs(float(ev(f(*x)))) for x in itertools.product(*pts))
# ---- conversion to power series: b_i = sum_r a_r [x^i] T_r
TC = [[1], [0, 1]]
while len(TC) < 24: TC.append([(2 * TC[-1][i - 1] if i else 0) - (TC[-2][i] if i < len(TC[-2]) else 0) for i in range(len(TC[-1]) + 1)])
tc = lambda r, i: TC[r][i] if i < len(TC[r]) else 0
def mkb1(d, n):
    @unit("%s.Compute_bi of order %d" % (C1[d], n), [M + C1[d] + "::Compute_bi"], bounds=[{}], conc=6, budget=100)
    def _(c):
        f = c.ufun("f"); x0, x1, x, u, dx, mp = dom(c, "x", "co"[d]); lemma(c, n)
        out = c.out("out", n + 1)
        for o in c.call("cb1", f, d, 1 + n % 2, n, x0, x1, out, n + 1):
            if c.returns(o):
                mx = big(c, f, [mp], [n])
                c.ensure(o, "number of coefficients", EQ(o.val, n + 1))
                for i in range(n + 1):
                    c.eq(o, "coefficient %d of the power series" % i, o.arr(out, i), sum((coef1(f, P(n), mp, r) * tc(r, i) for r in range(i, n + 1)), P(0)), tol=1e-8, scale=10 * mx * max(abs(x) for x in TC[n]))
for d in (0, 1):
    for n in range(19): mkb1(d, n)
def mkb1x(d):
    @unit("%s.Compute_bi above order 18" % C1[d], [M + C1[d] + "::Compute_bi"], bounds=[{"n": 20}], conc=4)
    def _(c):
        n = c.int("n", 20, conc=range(20, 24)) - 1; f = c.ufun("f"); x0, x1, x, u, dx, mp = dom(c, "x", "co"[d]); lemma(c, n)
        out = c.out("out", n + 1)
        for o in c.call("cb1", f, d, 1, n, x0, x1, out, n + 1): c.kinds(o, exit=TRUE)
for d in (0, 1): mkb1x(d)
def mkb2(d, nx, ny):
    @unit("%s.Compute_bij of orders %d, %d" % (C2[d], nx, ny), [M + C2[d] + "::Compute_bij"], bounds=[{}], conc=6, budget=100)
    def _(c):
        f = c.ufun("f", 2); x0, x1, x, u, dx, mx = dom(c, "x", K2[d][0]); y0, y1, y, v, dy, my = dom(c, "y", K2[d][1]); lemma(c, nx, ny)
        out = c.out2("out", nx + 1, ny + 1)
        for o in c.call("cb2", f, d, 1 + (nx + ny) % 2, nx, ny, x0, x1, y0, y1, out):
            if c.returns(o):
                bg = big(c, f, [mx, my], [nx, ny])
                a = [[coef2(f, P(nx), P(ny), mx, my, r, s) for s in range(ny + 1)] for r in range(nx + 1)]
                for i in range(nx + 1):
                    for j in range(ny + 1):
                        c.eq(o, "coefficient %d, %d of the power series" % (i, j), o.arr2(out, i, j), sum((a[r][s] * (tc(r, i) * tc(s, j)) for r in range(i, nx + 1) for s in range(j, ny + 1)), P(0)), tol=1e-8, scale=10 * bg * max(map(abs, TC[nx])) * max(map(abs, TC[ny])))
for d in (0, 1, 2):
    for nx, ny in ((0, 0), (1, 2), (2, 1), (0, 3), (3, 0), (2, 4), (5, 5), (0, 18), (18, 1)): mkb2(d, nx, ny)
def mkb3(d, ns):
    @unit("%s.Compute_bijk of orders %d, %d, %d" % ((C3[d],) + ns), [M + C3[d] + "::Compute_bijk"], bounds=[{}], conc=3, budget=100)
    def _(c):
        f = c.ufun("f", 3); D = [dom(c, q, k) for q, k in zip("xyz", K3[d])]; lemma(c, *ns); ms = [q[5] for q in D]; bg = big(c, f, ms, ns)
        for k in range(ns[2] + 1):
            out = c.out2("out%d" % k, ns[0] + 1, ns[1] + 1)
            for o in c.call("cb3", f, d, 1 + k % 2, *ns, k, *[t for q in D for t in q[:2]], out):
                if c.returns(o):
                    for i in range(ns[0] + 1):
                        for j in range(ns[1] + 1):
                            c.eq(o, "coefficient %d, %d, %d of the power series" % (i, j, k), o.arr2(out, i, j), sum((coef3(f, [P(q) for q in ns], ms, r, s, t) * (tc(r, i) * tc(s, j) * tc(t, k))
                                for r in range(i, ns[0] + 1) for s in range(j, ns[1] + 1) for t in range(k, ns[2] + 1)), P(0)), tol=1e-8, scale=100 * bg)
for d in (0, 1, 2):
    for ns in ((0, 0, 0), (1, 2, 1), (2, 0, 2), (0, 1, 3), (2, 2, 2), (3, 1, 4)): mkb3(d, ns)
