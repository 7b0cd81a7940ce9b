from contract import *
INIT, EVAL = "mathutils::Interp2dLinear::Initialize", "mathutils::Interp2dLinear::Eval"
COV = ["mathutils::Interp2d::MakeInterp2d", "mathutils::Interp2d::Initialize", INIT, EVAL]
def bilin(x, y, z, ny, i, j, q, r):
    """blend of the four corners of cell (i-1..i, j-1..j); z row-major"""
    s = (q - x(i - 1)) / (x(i) - x(i - 1)); t = (r - y(j - 1)) / (y(j) - y(j - 1))
    return (1 - s) * (1 - t) * z(ny * (i - 1) + j - 1) + s * (1 - t) * z(ny * i + j - 1) + (1 - s) * t * z(ny * (i - 1) + j) + s * t * z(ny * i + j)
def data(c, s=""):
    nx, ny = c.int("nx" + s, 2, conc=range(2, 6)), c.int("ny" + s, 2, conc=range(2, 7))
    nz = nx * ny
    return nx, c.vec("x" + s, nx, incr=True), ny, c.vec("y" + s, ny, incr=True), nz, c.vec("z" + s, nz)
def sc(c, x, y, z):
    if c.mode != "conc": return 1
    f = lambda v: (1 + max(abs(a) for a in v.raw)) / min(b - a for a, b in zip(v.raw, v.raw[1:]))
    return (1 + max(abs(a) for a in z.raw)) * f(x) * f(y)
def cell(c, n, x, nm, qn):
    k = c.int(nm, 1, conc=lambda r: r.randint(1, int(n.const()) - 1)); c.require(LT(k, n))
    q = c.real(qn, conc=lambda r: r.choice([x.raw[int(k.const()) - 1], x.raw[int(k.const())], r.uniform(x.raw[int(k.const()) - 1], x.raw[int(k.const())])]))
    c.require(LE(x(k - 1), q), LE(q, x(k))); return k, q
BB = [{"nx": a, "ny": b, "i": i, "j": j} for a, b, i, j in ((2, 2, 1, 1), (2, 3, 1, 2), (3, 2, 2, 1), (3, 3, 2, 2), (3, 4, 1, 3), (4, 3, 3, 1), (3, 4, 2, 2))]
for op in (0, 1):
    @unit("inside a cell" + (": operator()" if op else ""), COV, bounds=BB, conc=200)
    def _(c, op=op):
        nx, x, ny, y, nz, z = data(c); i, q = cell(c, nx, x, "i", "q"); j, r = cell(c, ny, y, "j", "r")
        for o in c.call("in2", op, x, nx, y, ny, z, nz, q, r):
            if c.returns(o): c.eq(o, "bilinear blend", o.val, bilin(x, y, z, ny, i, j, q, r), scale=sc(c, x, y, z))
@unit("at a grid node", COV, bounds=[{"nx": a, "ny": b, "i": i, "j": j} for a, b, i, j in ((2, 2, 0, 0), (2, 2, 1, 1), (2, 3, 1, 2), (3, 2, 2, 1), (3, 2, 0, 1), (2, 3, 0, 2), (3, 3, 1, 1))], conc=150)
def _(c):
    nx, x, ny, y, nz, z = data(c)
    i = c.int("i", 0, conc=lambda r: r.randrange(int(nx.const()))); j = c.int("j", 0, conc=lambda r: r.randrange(int(ny.const()))); c.require(LT(i, nx), LT(j, ny))
    for o in c.call("in2", 0, x, nx, y, ny, z, nz, x(i), y(j)):
        if c.returns(o): c.eq(o, "data value", o.val, z(ny * i + j), scale=sc(c, x, y, z))
@unit("range getters", ["mathutils::Interp2d::GetXmin", "mathutils::Interp2d::GetXmax", "mathutils::Interp2d::GetYmin", "mathutils::Interp2d::GetYmax"], bounds=[{"nx": 2, "ny": 3}, {"nx": 3, "ny": 2}], conc=60)
def _(c):
    nx, x, ny, y, nz, z = data(c)
    for op, nm, v in ((2, "xmin", x(0)), (3, "xmax", x(nx - 1)), (4, "ymin", y(0)), (5, "ymax", y(ny - 1))):
        for o in c.call("in2", op, x, nx, y, ny, z, nz, 0, 0):
            if c.returns(o): c.eq(o, nm, o.val, v, tol=0)
for side in range(4):
    @unit("outside stops %s" % ("left", "right", "below", "above")[side], COV, bounds=[{"nx": 2, "ny": 3, "i": 1, "j": 2}, {"nx": 3, "ny": 2, "i": 1, "j": 1}], conc=60)
    def _(c, side=side):
        nx, x, ny, y, nz, z = data(c); i, q = cell(c, nx, x, "i", "q"); j, r = cell(c, ny, y, "j", "r")
        v = x if side < 2 else y; n = nx if side < 2 else ny
        d = c.real("d", conc=lambda g: g.choice([1e-6, 0.25, 3.0, 1e4])); c.require(GT(d, 0))
        e = v(0) - d if side % 2 == 0 else v(n - 1) + d
        for o in c.call("in2", 0, x, nx, y, ny, z, nz, *((e, r) if side < 2 else (q, e))): c.kinds(o, abort=TRUE, throw=TRUE, exit=TRUE)
def k_eval(ex, st, fn, a, I):
    """contract of the scalar Eval (units 'inside a cell', 'outside stops'): a function of the point and the unchanged data"""
    if "vector<std::vector" in fn.dem: return NotImplemented
    q, r = ex.num(a[1]), ex.num(a[2])
    if FIRST[0] is not None and q != FIRST[0]: return NotImplemented       # the evaluation under scrutiny: its body
    (x0, x1), (y0, y1) = RANGE
    g = And(LE(x0, q), LE(q, x1), LE(y0, r), LE(r, y1))
    t = st.copy(); t.assume(g); e = st.copy(); e.assume(Not(g))
    return [(t, "ret", app("interp2", q, r)), (e, "abort", None)]
RANGE = [None, None]; FIRST = [None]
CONTRACTS = {EVAL: k_eval}
BT = [{"nx": a, "ny": b, "i": i, "j": j, "nxu": k, "nyu": l, "iu": 1, "ju": 1} for a, b, i, j, k, l in ((2, 2, 1, 1, 2, 3), (2, 3, 1, 2, 2, 2), (3, 2, 2, 1, 2, 2))]
for what in range(5):
    @unit("initialised twice" + ("", ": xmin", ": xmax", ": ymin", ": ymax")[what], COV, bounds=BT, conc=150, uses=[EVAL], budget=300)
    def _(c, what=what):
        nu, u, nv, v, nw, w = data(c, "u"); iu, a = cell(c, nu, u, "iu", "a"); ju, b = cell(c, nv, v, "ju", "b")
        nx, x, ny, y, nz, z = data(c); i, q = cell(c, nx, x, "i", "q"); j, r = cell(c, ny, y, "j", "r")
        RANGE[:] = [(u(0), u(nu - 1)), (v(0), v(nv - 1))]; FIRST[0] = a
        if what == 0:
            for o in c.call("in2re", 0, u, nu, v, nv, w, nw, a, b, x, nx, y, ny, z, nz, q, r):
                if c.returns(o): c.eq(o, "bilinear blend of the new data", o.val, bilin(x, y, z, ny, i, j, q, r), scale=sc(c, x, y, z))
        else:
            op, nm, e = ((2, "xmin", x(0)), (3, "xmax", x(nx - 1)), (4, "ymin", y(0)), (5, "ymax", y(ny - 1)))[what - 1]
            for o in c.call("in2re", op, u, nu, v, nv, w, nw, a, b, x, nx, y, ny, z, nz, q, r):
                if c.returns(o): c.eq(o, nm + " of the new data", o.val, e, tol=0)
@unit("list of points", COV, bounds=[{"nx": 2, "ny": 2, "p": 2}, {"nx": 2, "ny": 3, "p": 1}, {"nx": 2, "ny": 2, "p": 0}], conc=100, uses=[EVAL])
def _(c):
    nx, x, ny, y, nz, z = data(c); RANGE[:] = [(x(0), x(nx - 1)), (y(0), y(ny - 1))]; FIRST[0] = None
    p = c.int("p", 0, conc=range(0, 6)); out = c.out("out", p)
    pick = lambda v: lambda r, l: [r.choice([r.choice(v.raw), r.uniform(v.raw[0], v.raw[-1])]) for _ in range(l)]
    q = c.vec("q", p, conc=pick(x)); r = c.vec("r", p, conc=pick(y))
    ins = lambda i: And(LE(x(0), q(i)), LE(q(i), x(nx - 1)), LE(y(0), r(i)), LE(r(i), y(ny - 1)))
    if c.mode == "sym":
        i = fresh("q", "I"); c.require(Forall(i, 0, p, ins(i)))
    else:
        for i in range(int(p.const())): c.require(ins(P(i)))
    for op in (0, 1):
        for o in c.call("in2v", op, x, nx, y, ny, z, nz, q, r, p, out, p):
            if not c.returns(o): continue
            c.eq(o, "length", o.val, p)
            if c.mode == "sym":
                j = c.int("j", 0); c.eq(o, "element", o.arr(out, j), app("interp2", q(j), r(j)), given=And(LE(0, j), LT(j, p)))
            elif c.mode == "conc":
                for a in range(int(p.const())):
                    i = next(b for b in range(1, int(nx.const())) if q.raw[a] <= x.raw[b]); j = next(b for b in range(1, int(ny.const())) if r.raw[a] <= y.raw[b])
                    c.eq(o, "element %d" % a, o.arr(out, a), bilin(x, y, z, ny, P(i), P(j), q(a), r(a)), scale=sc(c, x, y, z))
            else:
                for a in range(int(p.const())):
                    for i in range(1, int(nx.const())):
                        for j in range(1, int(ny.const())):
                            c.eq(o, "element %d" % a, o.arr(out, a), bilin(x, y, z, ny, P(i), P(j), q(a), r(a)), given=And(LE(x(i - 1), q(a)), LE(q(a), x(i)), LE(y(j - 1), r(a)), LE(r(a), y(j))))
@unit("unsupported method is refused", ["mathutils::Interp2d::MakeInterp2d"], bounds=[{"nx": 2, "ny": 2}], conc=20)
def _(c):
    nx, x, ny, y, nz, z = data(c)
    for m in (1, 2, 3):
        for o in c.call("in2meth", m, x, nx, y, ny, z, nz, x(0), y(0)): c.kinds(o, exit=TRUE, throw=TRUE, abort=TRUE)
