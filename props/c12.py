from contract import *
def closed(x, a, b): return (x * 2 - a - b) / (b - a), P(2) / (b - a)
def opened(x, a): return 1 - a * 2 / x, a * 2 / (x * x)
B1 = [{"n": k} for k in (1, 2, 3, 4)]
@unit("Horner", ["mathutils::Horner"], bounds=B1)
def _(c):
    n = c.int("n", 1); x = c.real("x"); a = c.vec("a", n)
    for o in c.call("horner", a, n, x):
        if c.returns(o): c.eq(o, "Horner = sum a_k x^k", o.val, Sum(lambda k: a(k) * power(x, k), 0, n), scale=mag(c, a, x))
@unit("Horner_derivative", ["mathutils::Horner_derivative"], bounds=B1)
def _(c):
    n = c.int("n", 1); x = c.real("x"); a = c.vec("a", n)
    for o in c.call("horner_d", a, n, x):
        if c.returns(o): c.eq(o, "Horner' = sum k a_k x^(k-1)", o.val, Sum(lambda k: P(k) * a(k) * power(x, k - 1), 1, n), scale=mag(c, a, x) * 20)
def mag(c, a, *xs):
    if c.mode != "conc": return 1
    m = 1.0
    for x in xs: m *= max(1.0, abs(float(ev(x)))) ** 25 if False else max(1.0, abs(float(ev(x)))) ** 8
    return m * (1 + sum(abs(v) for v in a.raw))
def dom1(c, nm, kind):
    x0 = c.real(nm + "0", **({} if kind == "c" else {"lo": Fraction(1, 4)}))
    x1 = c.real(nm + "1", conc=lambda r: float(ev(x0)) + r.choice([1.0, 0.5, r.uniform(0.1, 4)])) if kind == "c" else P(0)
    if kind == "c":
        c.require(LT(x0, x1))
        x = c.real(nm, conc=lambda r: r.choice([float(ev(x0)), float(ev(x1)), r.uniform(float(ev(x0)), float(ev(x1)))]))
        u, d = closed(x, x0, x1)
    else:
        c.require(GT(x0, 0))
        x = c.real(nm, conc=lambda r: r.choice([float(ev(x0)), float(ev(x0)) * r.uniform(1, 5)]))
        c.require(GE(x, x0)); u, d = opened(x, x0)
    return x0, x1, x, u, d
def mk1(dom, op):
    cls = ["PowerSeries1dClosed", "PowerSeries1dOpened"][dom]; m = ["Evaluate", "Evaluate_derivative_x"][op]
    @unit("%s.%s" % (cls, m), ["mathutils::%s::%s" % (cls, m)], bounds=B1, conc=80)
    def _(c):
        n = c.int("n", 1); a = c.vec("a", n); x0, x1, x, u, d = dom1(c, "x", "co"[dom])
        for o in c.call("ps1", a, n, dom, op, x0, x1, x):
            if c.returns(o):
                w = Sum(lambda k: a(k) * power(u, k), 0, n) if op == 0 else d * Sum(lambda k: P(k) * a(k) * power(u, k - 1), 1, n)
                c.eq(o, "series value" if op == 0 else "exact derivative", o.val, w, scale=mag(c, a) * 10)
for d in (0, 1):
    for op in (0, 1): mk1(d, op)
B2 = [{"nx": i, "ny": j} for i, j in ((1, 1), (1, 3), (2, 2), (3, 2))]
def P2(a, nx, ny, u, v, dx=False, dy=False):
    return Sum(lambda i: (P(i) * power(u, i - 1) if dx else power(u, i)) * Sum(lambda j: a(i, j) * (P(j) * power(v, j - 1) if dy else power(v, j)), 1 if dy else 0, ny), 1 if dx else 0, nx)
def mk2(dom, op):
    cls = ["PowerSeries2dClosed", "PowerSeries2dOpened", "PowerSeries2dMixed"][dom]; m = ["Evaluate", "Evaluate_derivative_x", "Evaluate_derivative_y"][op]
    @unit("%s.%s" % (cls, m), ["mathutils::%s::%s" % (cls, m)], bounds=B2, conc=60)
    def _(c):
        nx = c.int("nx", 1, conc=range(1, 6)); ny = c.int("ny", 1, conc=range(1, 6)); a = c.ten("a", nx, ny)
        k = ["cc", "oo", "co"][dom]
        x0, x1, x, u, dx = dom1(c, "x", k[0]); y0, y1, y, v, dy = dom1(c, "y", k[1])
        for o in c.call("ps2", a, nx, ny, dom, op, x0, x1, y0, y1, x, y):
            if c.returns(o):
                w = [P2(a, nx, ny, u, v), dx * P2(a, nx, ny, u, v, dx=True), dy * P2(a, nx, ny, u, v, dy=True)][op]
                c.eq(o, "series value" if op == 0 else "exact derivative", o.val, w, scale=mag(c, a) * 10)
for d in (0, 1, 2):
    for op in (0, 1, 2): mk2(d, op)
B3 = [{"nx": i, "ny": j, "nz": k} for i, j, k in ((1, 1, 1), (2, 2, 2), (1, 3, 2))]
OPS = ["Evaluate", "Evaluate_derivative_x", "Evaluate_derivative_y", "Evaluate_derivative_z", "Evaluate_zinf", "Evaluate_derivative_x_zinf", "Evaluate_derivative_y_zinf", "Evaluate_f_dfdx_dfdy",
       "Evaluate_z_predefined", "Evaluate_derivative_x_z_predefined", "Evaluate_derivative_y_z_predefined", "Evaluate_f_dfdx_dfdy_z_predefined", "Evaluate_z_predefined(zinf)"]
def P3(a, nx, ny, nz, u, v, w, dx=False, dy=False, dz=False):
    f = lambda t, e, d: P(e) * power(t, e - 1) if d else power(t, e)
    return Sum(lambda k: f(w, k, dz) * Sum(lambda i: f(u, i, dx) * Sum(lambda j: a(i, j, k) * f(v, j, dy), 1 if dy else 0, ny), 1 if dx else 0, nx), 1 if dz else 0, nz)
def mk3(dom, op):
    cls = ["PowerSeries3dClosed", "PowerSeries3dYZOpenedXClosed", "PowerSeries3dZOpenedXYClosed"][dom]
    @unit("%s.%s" % (cls, OPS[op]), ["mathutils::%s::%s" % (cls, OPS[op])] + (["mathutils::%s::Compute_cij" % cls] if op >= 8 else []), bounds=B3, conc=40)
    def _(c):
        nx = c.int("nx", 1, conc=range(1, 5)); ny = c.int("ny", 1, conc=range(1, 5)); nz = c.int("nz", 1, conc=range(1, 5)); a = c.ten("a", nx, ny, nz)
        k = ["ccc", "coo", "cco"][dom]
        x0, x1, x, u, dx = dom1(c, "x", k[0]); y0, y1, y, v, dy = dom1(c, "y", k[1]); z0, z1, z, w, dz = dom1(c, "z", k[2])
        out = c.out("out", 3)
        if op in (4, 5, 6, 12): w = P(1)
        f, fx, fy = lambda: P3(a, nx, ny, nz, u, v, w), lambda: dx * P3(a, nx, ny, nz, u, v, w, dx=True), lambda: dy * P3(a, nx, ny, nz, u, v, w, dy=True)
        for o in c.call("ps3", a, nx, ny, nz, dom, op, x0, x1, y0, y1, z0, z1, x, y, z, out):
            if c.returns(o):
                s = mag(c, a) * 10
                if op in (7, 11):
                    for j, (nm, g) in enumerate((("f", f), ("df/dx", fx), ("df/dy", fy))): c.eq(o, nm, o.arr(out, j), g(), scale=s)
                else:
                    g = f if op in (0, 4, 8, 12) else fx if op in (1, 5, 9) else fy if op in (2, 6, 10) else (lambda: dz * P3(a, nx, ny, nz, u, v, w, dz=True))
                    c.eq(o, "series value" if op in (0, 4, 8, 12) else "exact derivative", o.arr(out, 0), g(), scale=s)
for d in (0, 1, 2):
    for op in range(13): mk3(d, op)
