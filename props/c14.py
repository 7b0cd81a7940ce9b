from contract import *
B1 = [{"n": k} for k in (1, 2, 3)]
B2 = [{"n": k} for k in (2, 3, 4)]
def lin(a, b, n, k): return a + P(k) * (b - a) / (n - 1)
def vec_out(c, o, out, n, f, name="element", tol=None, scale=1):
    if c.returns(o):
        c.eq(o, "length", o.val, n)
        c.all_eq(o, name, 0, n, lambda k: (o.arr(out, k), f(k)), tol=tol, scale=scale)
def ends(c):
    a = c.real("a"); b = c.real("b", conc=lambda r: float(ev(a)) + r.choice([0.0, 1.0, r.uniform(0, 5)])); c.require(LE(a, b)); return a, b
@unit("linspace", ["mathutils::linspace"], bounds=B2)
def _(c):
    n = c.int("n", 2); a, b = ends(c); out = c.out("out", n)
    for o in c.call("linsp", a, b, n, out, n): vec_out(c, o, out, n, lambda k: lin(a, b, n, k), "equally spaced", scale=1 + abs(float(ev(a))) if c.mode == "conc" else 1)
@unit("linspace ends exact", ["mathutils::linspace"], bounds=B2)
def _(c):
    n = c.int("n", 2); a, b = ends(c); out = c.out("out", n)
    for o in c.call("linsp", a, b, n, out, n):
        if c.returns(o):
            c.eq(o, "first = start", o.arr(out, 0), a, tol=0)
            c.eq(o, "last = stop", o.arr(out, n - 1), b, tol=0)
def mklog(d):
    @unit("logspace" + (" base 10" if d else ""), ["mathutils::logspace"], bounds=B2, uses=["mathutils::linspace"])
    def _(c):
        n = c.int("n", 2); a, b = ends(c); out = c.out("out", n)
        if c.mode == "conc": c.require(LE(-50, a), LE(b, 50))
        base = P(10) if d else c.real("base", lo=Fraction(1, 8), hi=20)
        for o in c.call("logsp10", a, b, n, out, n) if d else c.call("logsp", a, b, n, base, out, n):
            vec_out(c, o, out, n, lambda k: T.rebuild_app("pow", (base, lin(a, b, n, k)), "R"), "powers of the base")
mklog(0); mklog(1)
def mkar(d):
    @unit("arange" + (" step 1" if d else ""), ["mathutils::arange"], bounds=[{"n": 1}, {"n": 2}, {"n": 5}])
    def _(c):
        # dyadic values in the concrete runs, so that the number of values is not a matter of rounding
        n = c.int("n", 1)
        step = P(1) if d else c.real("step", conc=[0.5, 1.0, 2.0, 0.25, 1.5])
        a = c.real("a", conc=[0.0, 1.0, -3.0, 2.5, 10.0]); last = a + (n - 1) * step
        b = c.real("b", conc=lambda r: float(ev(last)) + float(ev(step)) * r.choice([1, 1, 0.5, 0.25]))
        c.require(GT(step, 0), LT(last, b), LE(b, last + step))         # exactly n values lie in [a, b[
        out = c.out("out", n)
        for o in c.call("arng1", a, b, out, n) if d else c.call("arng", a, b, step, out, n): vec_out(c, o, out, n, lambda k: a + P(k) * step, "start + k step")
mkar(0); mkar(1)
OPS = [("Add", lambda x, y: x + y), ("Minus", lambda x, y: x - y), ("Mult", lambda x, y: x * y), ("Divide", lambda x, y: x / y)]
def mkbin(op):
    nm, f = OPS[op]
    @unit(nm, ["mathutils::" + nm], bounds=[{"n": 0}] + B1, conc=100)
    def _(c):
        n = c.int("n", 0); a = c.vec("a", n); b = c.vec("b", n, **({"lo": Fraction(1, 16)} if op == 3 else {})); out = c.out("out", n)
        for o in c.call("bin", op, a, n, b, n, out, n): vec_out(c, o, out, n, lambda k: f(a(k), b(k)))
for i in range(4): mkbin(i)
UN = [("AddScalar", lambda x, s: x + s), ("Scale", lambda x, s: x * s), ("Pow", lambda x, s: T.rebuild_app("pow", (x, s), "R")), ("Negate", lambda x, s: -x)]
def mkun(op):
    nm, f = UN[op]
    @unit(nm, ["mathutils::" + nm], bounds=[{"n": 0}] + B1, conc=100)
    def _(c):
        n = c.int("n", 0); kw = {"lo": Fraction(1, 16)} if op == 2 else {}
        a = c.vec("a", n, **kw); s = c.real("s"); out = c.out("out", n)
        for o in c.call("una", op, a, n, s, out, n): vec_out(c, o, out, n, lambda k: f(a(k), s))
for i in range(4): mkun(i)
@unit("Pow integer exponent", ["mathutils::Pow"], bounds=B1)
def _(c):
    n = c.int("n", 0); a = c.vec("a", n); out = c.out("out", n)
    for e in (0, 1, 2, 3):
        for o in c.call("una", 2, a, n, e, out, n): vec_out(c, o, out, n, lambda k: power(a(k), e), "power %d" % e)
@unit("Sum", ["mathutils::Sum"], bounds=[{"n": 0}] + B1)
def _(c):
    n = c.int("n", 0); a = c.vec("a", n)
    for o in c.call("sumv", a, n):
        if c.returns(o): c.eq(o, "sum", o.val, Sum(lambda k: a(k), 0, n), scale=sum(abs(x) for x in a.raw) + 1 if c.mode == "conc" else 1)
def fsinc(x): return ite(EQ(x, 0), P(1), T.rebuild_app("sin", (x,), "R") / x) if x.const() != 0 else P(1)
@unit("Sinc", ["mathutils::Sinc"], bounds=[{"n": 0}] + B1)
def _(c):
    n = c.int("n", 0); a = c.vec("a", n); out = c.out("out", n)
    for o in c.call("sinc", a, n, out, n): vec_out(c, o, out, n, lambda k: fsinc(a(k)))
def k_linspace(ex, st, f, a, I):
    """contract of linspace (proved by the unit of that name), used by its callers"""
    out, lo, hi, n = a[0], ex.num(a[1]), ex.num(a[2]), ex.inum(a[3])
    ex.oblige(st, "precondition of linspace", And(GT(n, 1), LE(lo, hi)))
    vput(ex, st, out, fun_arr((n,), lambda k: lin(lo, hi, n, k))); return ret(st)
CONTRACTS = {"mathutils::linspace": k_linspace}
@unit("Sinc over a range", ["mathutils::Sinc"], bounds=B2, uses=["mathutils::linspace"])
def _(c):
    n = c.int("n", 2); a, b = ends(c); out = c.out("out", n)
    if c.mode == "conc": c.require(Or(GT(a, Fraction(1, 100)), LT(b, -Fraction(1, 100)), EQ(a, 0)))   # 0 hit only exactly
    for o in c.call("sincr", a, b, n, out, n): vec_out(c, o, out, n, lambda k: fsinc(lin(a, b, n, k)))
def hv(x, s): return ite(LT(x, s), P(0), ite(EQ(x, s), P(Fraction(1, 2)), P(1)))
def pick(c, nm, a):
    """a parameter that often equals an element, in the concrete runs"""
    return c.real(nm, conc=lambda r: r.choice(a.raw) if a.raw and r.random() < 0.6 else r.uniform(-3, 3))
@unit("Heaviside", ["mathutils::Heaviside"], bounds=[{"n": 0}] + B1)
def _(c):
    n = c.int("n", 0); a = c.vec("a", n); s = pick(c, "s", a); out = c.out("out", n)
    for o in c.call("shape", 0, a, n, s, 0, 0, 0, out, n): vec_out(c, o, out, n, lambda k: hv(a(k), s))
def mkdoor(d):
    @unit("Door" + (" of unit height" if d else ""), ["mathutils::Door"], bounds=[{"n": 0}] + B1)
    def _(c):
        n = c.int("n", 0); a = c.vec("a", n); s = pick(c, "s", a); t = pick(c, "t", a); h = P(1) if d else c.real("h"); out = c.out("out", n)
        for o in c.call("shape", 2 if d else 1, a, n, s, t, h, 0, out, n): vec_out(c, o, out, n, lambda k: h * (hv(a(k), s) - hv(a(k), t)))
mkdoor(0); mkdoor(1)
def mkdirac(d):
    @unit("Dirac" + (" of unit height" if d else ""), ["mathutils::Dirac"], bounds=B2)
    def _(c):
        n = c.int("n", 2)
        a = c.vec("a", n, conc=lambda r, m: [r.choice([-2.0, 0.0, 1.0]) + r.choice([0.5, 1.0]) * j for j in range(m)] if r.random() < 0.7 else sorted(r.uniform(-3, 3) for _ in range(m)))
        s = c.real("s", conc=lambda r: r.choice(a.raw) + r.choice([0, 0, 0.25, -0.25, 0.3, 0.5])); h = P(1) if d else c.real("h"); out = c.out("out", n)
        for o in c.call("shape", 4 if d else 3, a, n, s, 0, h, 0, out, n):
            vec_out(c, o, out, n, lambda k: ite(LT(fabs(a(k) - s) * 2, a(1) - a(0)), h, P(0)))
mkdirac(0); mkdirac(1)
@unit("Ramp", ["mathutils::Ramp"], bounds=B1)
def _(c):
    n = c.int("n", 1); a = c.vec("a", n, conc=lambda r, m: sorted(r.choice([r.uniform(-3, 3), float(r.randint(-3, 3))]) for _ in range(m))); p = pick(c, "p", a); q = pick(c, "q", a); r = c.real("r"); s = c.real("s")
    c.require(LT(p, q), LE(a(0), p), LE(q, a(n - 1))); out = c.out("out", n)
    for o in c.call("shape", 5, a, n, p, q, r, s, out, n):
        vec_out(c, o, out, n, lambda k: ite(LE(a(k), p), r, ite(LE(a(k), q), r + (s - r) * (a(k) - p) / (q - p), s)), scale=1e3 / min(1, float(ev(q - p))) if c.mode == "conc" else 1)
from smt import PI
CX = [("Real", lambda x, y: x), ("Imag", lambda x, y: y), ("Amplitude", lambda x, y: fsqrt(x * x + y * y)), ("Phase", lambda x, y: app("atan2", y, x)),
      ("Phase in radians", lambda x, y: app("atan2", y, x)), ("Phase in degrees", lambda x, y: app("atan2", y, x) * 180 / PI)]
def mkcx(op):
    nm, f = CX[op]
    @unit(nm, ["mathutils::" + nm.split()[0]], bounds=[{"n": 0}] + B1, conc=100)
    def _(c):
        n = c.int("n", 0); a = c.vec("a", n); b = c.vec("b", n); out = c.out("out", n)
        for o in c.call("cplx", op, a, b, n, out, n): vec_out(c, o, out, n, lambda k: f(a(k), b(k)))
for i in range(6): mkcx(i)
@unit("Amplitude squared", ["mathutils::Amplitude"], bounds=B1)
def _(c):
    n = c.int("n", 0); a = c.vec("a", n); b = c.vec("b", n); out = c.out("out", n)
    for o in c.call("cplx", 2, a, b, n, out, n):
        if c.returns(o):
            c.all_eq(o, "square = re^2 + im^2", 0, n, lambda k: (o.arr(out, k) * o.arr(out, k), a(k) * a(k) + b(k) * b(k)))
            c.all_holds(o, "non-negative", 0, n, lambda k: GE(o.arr(out, k), 0))
def sg(x): return ite(GT(x, 0), P(1), ite(EQ(x, 0), P(0), P(-1)))
@unit("sgn", ["mathutils::sgn"])
def _(c):
    x = c.real("x"); i = c.int("i", -1000000, 1000000, conc=range(-3, 4))
    for o in c.call("sgnd", x):
        if c.returns(o): c.eq(o, "sign", o.val, sg(x))
    for o in c.call("sgni", i):
        if c.returns(o): c.eq(o, "sign of an integer", o.val, sg(i))
@unit("Saturate", ["mathutils::Saturate"])
def _(c):
    a = c.real("a"); b = c.real("b", conc=lambda r: float(ev(a)) + r.choice([0, 1.0, r.uniform(0, 3)])); x = c.real("x", conc=lambda r: r.choice([float(ev(a)), float(ev(b)), r.uniform(-4, 4)]))
    c.require(LE(a, b))
    for o in c.call("sat", x, a, b):
        if c.returns(o): c.eq(o, "clamped", o.val, ite(LT(x, a), a, ite(GT(x, b), b, x)), tol=0)
@unit("SgnSqrt", ["mathutils::SgnSqrt"])
def _(c):
    x = c.real("x")
    for o in c.call("sgsq", x):
        if c.returns(o):
            c.eq(o, "square has the magnitude", o.val * o.val, fabs(x))
            c.ensure(o, "sign kept", And(Or(LT(x, 0), GE(o.val, 0)), Or(GT(x, 0), LE(o.val, 0))))
RT, AT = Fraction(1, 10**5), Fraction(1, 10**8)
def cl(a, b, r, t): return LE(fabs(a - b), t + r * fabs(b))
def near(c, a):
    return lambda r: float(ev(a)) * r.choice([1.0, 1.0, 1 + 9.9e-6, 1 + 1.02e-5, -1.0, 1.5]) + r.choice([0, 0, 1e-9, 1.02e-8, 0.5])
def iff(c, o, nm, g):
    if c.returns(o): c.ensure(o, nm, Or(And(EQ(o.val, 1), g), And(EQ(o.val, 0), Not(g))), tol=0)
@unit("IsClose", ["mathutils::IsClose", "mathutils::AssertIsClose"])
def _(c):
    a = c.real("a"); b = c.real("b", conc=near(c, a)); r = c.real("r", lo=0, conc=[0.0, 0.1, 0.5, 1e-5]); t = c.real("t", lo=0, conc=[0.0, 0.3, 1e-3])
    for o in c.call("close4", a, b, r, t): iff(c, o, "closeness", cl(a, b, r, t))
    for o in c.call("close2", a, b): iff(c, o, "closeness, default tolerances", cl(a, b, RT, AT))
    for o in c.call("asscl", 1, a, b, r, t): c.kinds(o, ret=cl(a, b, r, t), abort=Not(cl(a, b, r, t)))
    for o in c.call("asscl", 0, a, b, 0, 0): c.kinds(o, ret=cl(a, b, RT, AT), abort=Not(cl(a, b, RT, AT)))
@unit("IsClose of vectors", ["mathutils::IsClose", "mathutils::AssertIsClose"], bounds=[{"n": 0}] + B1, conc=100)
def _(c):
    n = c.int("n", 0); a = c.vec("a", n)
    b = c.vec("b", n, conc=lambda r, m: [x + r.choice([0, 0, 0, 1e-9, 0.2, 0.7]) for x in a.raw]); r = c.real("r", lo=0, conc=[0.0, 0.1, 1e-5]); t = c.real("t", lo=0, conc=[0.0, 0.3, 1e-3])
    k = fresh("q", "I")
    A = lambda r, t: Forall(k, 0, n, cl(a(k), b(k), r, t))
    if n.const() is not None: A = lambda r, t: And(*[cl(a(j), b(j), r, t) for j in range(int(n.const()))])
    for o in c.call("closev", a, n, b, n, r, t): iff(c, o, "all elements close", A(r, t))
    for o in c.call("closev2", a, n, b, n): iff(c, o, "all elements close, default tolerances", A(RT, AT))
    for o in c.call("assclv", a, n, b, n, r, t): c.kinds(o, ret=A(r, t), abort=Not(A(r, t)))
@unit("parity", ["mathutils::is_odd", "mathutils::is_even"], conc=60)
def _(c):
    h = c.int("h", -1000000, 1000000, conc=range(-4, 5))
    for fn, x, w in (("oddi", h * 2, 0), ("oddi", h * 2 + 1, 1), ("eveni", h * 2, 1), ("eveni", h * 2 + 1, 0)):
        for o in c.call(fn, x):
            if c.returns(o): c.eq(o, "%s(%s)" % (fn, "2h" if x == h * 2 else "2h+1"), o.val, w)
    g = c.int("g", 0, 1000000)
    for fn, x, w in (("oddu", g * 2, 0), ("oddu", g * 2 + 1, 1), ("evenu", g * 2, 1), ("evenu", g * 2 + 1, 0)):
        for o in c.call(fn, x):
            if c.returns(o): c.eq(o, "%s(%s)" % (fn, "2g" if x == g * 2 else "2g+1"), o.val, w)
