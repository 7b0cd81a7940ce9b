from contract import *
def trap(f, n, dx):
    s = f(P(0)) + f(n - 1)
    return dx * (Sum(f, 1, n - 1) + s / 2)
BN = [{"n": k} for k in (2, 3, 4)]
@unit("uniform step", ["mathutils::Trapz"], bounds=BN, conc=200)
def _(c):
    n = c.int("n", 2); y = c.vec("y", n); dx = c.real("dx")
    for o in c.call("tz", y, n, dx):
        if c.returns(o): c.eq(o, "trapezoid sum", o.val, trap(y, n, dx))
@unit("given abscissae", ["mathutils::Trapz"], bounds=BN, conc=200)
def _(c):
    n = c.int("n", 2); x = c.vec("x", n); y = c.vec("y", n)
    for o in c.call("tzx", x, y, n):
        if c.returns(o): c.eq(o, "trapezoid sum", o.val, Sum(lambda i: (x(i + 1) - x(i)) * (y(i) + y(i + 1)) / 2, 0, n - 1))
IT = ["mathutils::Integrate1d::" + m for m in ("Integrate1d", "Get", "Compute", "ComputeTrapz", "SetXmin", "SetXmax", "SetIntegrationMethod", "GetXmin", "GetXmax")]
NM = ["Get", "SetXmin", "SetXmax", "SetMethod", "copy"]
import itertools
def history(c, src, ops, last=0):
    n = c.int("n", 2, conc=range(2, 9)); a = c.real("a"); b = c.real("b"); v = c.vec("v", P(max(len(ops), 1)))
    g = c.ufun("f") if src == "function" else c.vec("y", n)
    a1, b1 = a, b
    for i, op in enumerate(ops):
        if op == 1: a1 = v(P(i))
        if op == 2: b1 = v(P(i))
    dx = (b1 - a1) / (n - 1)
    return a1, b1, trap((lambda i: g(a1 + i * dx)) if src == "function" else g, n, dx), c.call("itf" if src == "function" else "itv", g, a, b, n, c.ivec("ops", list(ops) or [0]), v, len(ops), last)
def hunit(src, ops, b):
    @unit("%s: %s" % (src, ", ".join([NM[q] for q in ops] + ["Get"])), IT, bounds=b, conc=40)
    def _(c):
        a1, b1, want, os = history(c, src, ops)
        for o in os:
            if c.returns(o): c.eq(o, "trapezoid sum over the current bounds", o.val, want, scale=100)
for src in ("function", "table"):
    for k in range(3):
        for ops in itertools.product(range(5), repeat=k): hunit(src, ops, [{"n": 2}, {"n": 3}] if k < 2 else [{"n": 3}])
    @unit("%s: longer histories" % src, IT, bounds=[{"n": 3}], conc=300)
    def _(c, src=src):
        ops = [c.rng.randrange(5) for _ in range(c.rng.randint(1, 8))] if c.mode == "conc" else [1, 0, 2, 4, 0, 1, 3, 0]
        a1, b1, want, os = history(c, src, ops)
        for o in os:
            if c.returns(o): c.eq(o, "trapezoid sum over the current bounds", o.val, want, scale=100)
    @unit("%s: bounds and unknown method" % src, IT + ["mathutils::Integrate1d::ComputeNewtonCotes"], bounds=[{"n": 2}, {"n": 3}], conc=60)
    def _(c, src=src):
        for last in (1, 2, 3):
            for ops in ([], [1, 0], [0, 2]):
                a1, b1, want, os = history(c, src, ops, last)
                for o in os:
                    if last == 3: c.kinds(o, throw=TRUE)
                    elif c.returns(o): c.eq(o, "current bound", o.val, (a1, b1)[last - 1], tol=0)
for rev, e in ((1, 0), (0, 0), (1, 1), (0, 1)):
    @unit("convolution, signal read %s, %d samples overwritten" % ("forwards" if rev else "backwards", e), ["mathutils::NaiveConvolution", "mathutils::Trapz"], bounds=[{"n": a, "m": b} for a, b in ((2, 2), (2, 3), (3, 3), (3, 5))], conc=150)
    def _(c, rev=rev, e=e):
        n = c.int("n", 2, conc=range(2, 9)); m = c.int("m", 2, conc=lambda r: int(n.const()) + r.choice([0, 0, 1, 3])); c.require(LE(n, m))
        if c.mode == "conc" and e: e = c.rng.randint(1, 12)
        k = c.vec("k", n); s = c.vec("s", m + e); dt = c.real("dt")
        for o in c.call("cv", k, n, s, m, e, dt, rev):
            if c.returns(o): c.eq(o, "trapezoid sum of the products", o.val, trap(lambda i: k(i) * s((i if rev else n - 1 - i) + e), n, dt))
