from contract import *
M = ["Linear", "LinearExtrapolate", "LinearSaturate"]
BN = [{"n": k} for k in (2, 3, 4)]
def chord(x, y, k, q): return y(k - 1) + (y(k) - y(k - 1)) * (q - x(k - 1)) / (x(k) - x(k - 1))
def cov(m, *more): return ["mathutils::Interp1d::MakeInterp1d", "mathutils::Interp1dLinearBase::Initialize", "mathutils::Interp1dLinearBase::PrivEval", "mathutils::Interp1d%s::PrivEval" % M[m]] + list(more)
def data(c, n="n", x="x", y="y"):
    N = c.int(n, 2); return N, c.vec(x, N, incr=True), c.vec(y, N)
def sc(c, x, y):
    if c.mode != "conc": return 1
    dx = min(b - a for a, b in zip(x.raw, x.raw[1:])); return (1 + max(abs(v) for v in y.raw)) * (1 + max(abs(v) for v in x.raw)) / dx
def inside(c, n, x, nm=""):
    k = c.int("k" + nm, 1, conc=lambda r: r.randint(1, int(n.const()) - 1)); c.require(LT(k, n))
    q = c.real("q" + nm, conc=lambda r: r.choice([x.raw[int(k.const()) - 1], x.raw[int(k.const())], r.uniform(x.raw[int(k.const()) - 1], x.raw[int(k.const())])]))
    c.require(LE(x(k - 1), q), LE(q, x(k))); return k, q
def below(c, x):
    q = c.real("q", conc=lambda r: x.raw[0] - r.choice([0.5, 1e-6, r.uniform(0, 3), 1e3])); c.require(LT(q, x(0))); return q
def above(c, n, x):
    q = c.real("q", conc=lambda r: x.raw[-1] + r.choice([0.5, 1e-6, r.uniform(0, 3), 1e3])); c.require(GT(q, x(n - 1))); return q
def k_eval(m):
    def f(ex, st, fn, a, I):
        """contract of PrivEval (units 'inside', 'below/above the range'): a function of the abscissa and the (unchanged) data;
        the non-extrapolating one ends the program outside the range"""
        this, q = a[0], ex.num(a[1]); v = app("interp%d" % m, q)
        if m: return ret(st, v)
        lo, hi = XR
        t = st.copy(); t.assume(And(LE(lo, q), LE(q, hi))); e = st.copy(); e.assume(Or(LT(q, lo), GT(q, hi)))
        return [(t, "ret", v), (e, "exit", None)]
    return f
XR = [None, None]
CONTRACTS = {"mathutils::Interp1d%s::PrivEval" % M[m]: k_eval(m) for m in range(3)}
def mk(m):
    @unit("%s inside" % M[m], cov(m), bounds=[{"n": a, "k": b} for a, b in ((2, 1), (3, 1), (3, 2), (4, 2))])
    def _(c):
        n, x, y = data(c); k, q = inside(c, n, x)
        for op in (0, 1):
            for o in c.call("in1", m, op, x, y, n, q):
                if c.returns(o): c.eq(o, "chord value", o.val, chord(x, y, k, q), scale=sc(c, x, y))
    @unit("%s at a node" % M[m], cov(m), bounds=[{"n": a, "j": b} for a, b in ((2, 0), (2, 1), (3, 1), (3, 2))])
    def _(c):
        n, x, y = data(c); j = c.int("j", 0, conc=lambda r: r.randrange(int(n.const()))); c.require(LT(j, n))
        for o in c.call("in1", m, 0, x, y, n, x(j)):
            if c.returns(o): c.eq(o, "sample value", o.val, y(j), scale=sc(c, x, y))
    for side in ("below", "above"):
        @unit("%s %s the range" % (M[m], side), cov(m), bounds=BN)
        def _(c, side=side):
            n, x, y = data(c); q = below(c, x) if side == "below" else above(c, n, x)
            for o in c.call("in1", m, 0, x, y, n, q):
                if m == 0: c.kinds(o, exit=TRUE)
                elif c.returns(o):
                    if m == 1: c.eq(o, "%s segment continued" % ("first" if side == "below" else "last"), o.val, chord(x, y, P(1) if side == "below" else n - 1, q), scale=sc(c, x, y) * (1 + (abs(float(ev(q))) if c.mode == "conc" else 0)))
                    else: c.eq(o, "%s sample" % ("first" if side == "below" else "last"), o.val, y(0) if side == "below" else y(n - 1), scale=sc(c, x, y))
    @unit("%s initialised twice" % M[m], cov(m), bounds=[{"n": a, "k": b, "n0": d} for a, b, d in ((2, 1, 3), (3, 1, 2), (3, 2, 3))])
    def _(c):
        n0, u, v = data(c, "n0", "u", "v"); r = c.real("r", conc=lambda r: r.uniform(u.raw[0], u.raw[-1])); c.require(LE(u(0), r), LE(r, u(n0 - 1)))
        n, x, y = data(c); k, q = inside(c, n, x)
        for o in c.call("in1re", m, 0, u, v, n0, r, x, y, n, q):
            if c.returns(o): c.eq(o, "chord value of the new data", o.val, chord(x, y, k, q), scale=sc(c, x, y))
    @unit("%s initialised twice, outside and limits" % M[m], cov(m), bounds=[{"n": a, "n0": d} for a, d in ((2, 3), (3, 2))])
    def _(c):
        n0, u, v = data(c, "n0", "u", "v"); r = c.real("r", conc=lambda r: r.uniform(u.raw[0], u.raw[-1])); c.require(LE(u(0), r), LE(r, u(n0 - 1)))
        n, x, y = data(c)
        for o in c.call("in1re", m, 2, u, v, n0, r, x, y, n, 0):
            if c.returns(o): c.eq(o, "xmin of the new data", o.val, x(0), tol=0)
        for o in c.call("in1re", m, 3, u, v, n0, r, x, y, n, 0):
            if c.returns(o): c.eq(o, "xmax of the new data", o.val, x(n - 1), tol=0)
        q = above(c, n, x)
        for o in c.call("in1re", m, 0, u, v, n0, r, x, y, n, q):
            if m == 0: c.kinds(o, exit=TRUE)
            elif c.returns(o): c.eq(o, "beyond the new data", o.val, chord(x, y, n - 1, q) if m == 1 else y(n - 1), scale=sc(c, x, y) * (1 + (abs(float(ev(q))) if c.mode == "conc" else 0)))
    @unit("%s range getters" % M[m], ["mathutils::Interp1d::Initialize", "mathutils::Interp1d::GetXmin", "mathutils::Interp1d::GetXmax"], bounds=BN, conc=60)
    def _(c):
        n, x, y = data(c)
        for o in c.call("in1", m, 2, x, y, n, 0):
            if c.returns(o): c.eq(o, "xmin", o.val, x(0), tol=0)
        for o in c.call("in1", m, 3, x, y, n, 0):
            if c.returns(o): c.eq(o, "xmax", o.val, x(n - 1), tol=0)
    @unit("%s of a vector of abscissae" % M[m], cov(m, "mathutils::Interp1d::Eval"), bounds=[{"n": 2, "p": 2}, {"n": 3, "p": 1}, {"n": 2, "p": 0}], conc=80, uses=["mathutils::Interp1d%s::PrivEval" % M[m]])
    def _(c):
        n, x, y = data(c); XR[:] = [x(0), x(n - 1)]; p = c.int("p", 0, conc=range(0, 6)); out = c.out("out", p)
        q = c.vec("q", p, conc=lambda r, l: [r.choice([r.choice(x.raw), r.uniform(x.raw[0], x.raw[-1])]) for _ in range(l)])
        if c.mode == "sym":
            i = fresh("q", "I"); c.require(Forall(i, 0, p, And(LE(x(0), q(i)), LE(q(i), x(n - 1)))))
        else:
            for i in range(int(p.const())): c.require(LE(x(0), q(i)), LE(q(i), x(n - 1)))
        for op in (0, 1):
            for o in c.call("in1v", m, op, x, y, n, q, p, out, p):
                if not c.returns(o): continue
                c.eq(o, "length", o.val, p)
                j = c.int("j", 0, conc=range(0, 8)); k = c.int("k", 1, conc=range(1, 8))
                if c.mode == "conc":
                    for a in range(int(p.const())):
                        b = next(b for b in range(1, int(n.const())) if q.raw[a] <= x.raw[b])
                        c.eq(o, "element %d" % a, o.arr(out, a), chord(x, y, P(b), q(a)), scale=sc(c, x, y))
                elif c.mode == "bnd":
                    for a in range(int(p.const())):
                        for b in range(1, int(n.const())): c.eq(o, "element %d" % a, o.arr(out, a), chord(x, y, P(b), q(a)), given=And(LE(x(b - 1), q(a)), LE(q(a), x(b))))
                else: c.eq(o, "element", o.arr(out, j), app("interp%d" % m, q(j)), given=And(LE(0, j), LT(j, p)))
    @unit("%s complex values" % M[m], cov(m), bounds=[{"n": a, "k": b} for a, b in ((2, 1), (3, 2))], conc=80)
    def _(c):
        n, x, y = data(c); w = c.vec("w", n); k, q = inside(c, n, x)
        for part, z in ((0, y), (1, w)):
            for o in c.call("in1c", m, part, x, y, w, n, q):
                if c.returns(o): c.eq(o, "chord of the %s part" % ("real", "imaginary")[part], o.val, chord(x, z, k, q), scale=sc(c, x, z))
for i in range(3): mk(i)
@unit("Linear vector with a point outside", cov(0, "mathutils::Interp1d::Eval"), bounds=[{"n": 2, "p": 2, "i": 1}], conc=60, uses=["mathutils::Interp1dLinear::PrivEval"])
def _(c):
    n, x, y = data(c); XR[:] = [x(0), x(n - 1)]; p = c.int("p", 1, conc=range(1, 6)); out = c.out("out", p)
    i = c.int("i", 0, conc=range(0, 5)); c.require(LT(i, p))
    q = c.vec("q", p, conc=lambda r, l: [r.uniform(x.raw[0] - 1, x.raw[-1] + 1) for _ in range(l)])
    c.require(Or(LT(q(i), x(0)), GT(q(i), x(n - 1))))
    for o in c.call("in1v", 0, 0, x, y, n, q, p, out, p): c.kinds(o, exit=TRUE)
@unit("vectors of different lengths are refused", ["mathutils::Interp1d::Initialize"], bounds=[{"n": 2, "p": 3}, {"n": 3, "p": 2}], conc=60)
def _(c):
    n = c.int("n", 2); x = c.vec("x", n, incr=True); p = c.int("p", 0); y = c.vec("y", p); c.require(NE(n, p))
    for m in (0, 1, 2):
        for o in c.call("in1bad", m, x, n, y, p, x(0)): c.kinds(o, abort=TRUE, throw=TRUE, exit=TRUE)
@unit("unsupported method is refused", ["mathutils::Interp1d::MakeInterp1d"], bounds=[{"n": 2}], conc=20)
def _(c):
    n, x, y = data(c)
    for o in c.call("in1", 3, 0, x, y, n, x(0)): c.kinds(o, exit=TRUE, throw=TRUE, abort=TRUE)
