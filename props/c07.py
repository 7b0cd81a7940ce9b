from contract import *
from models import ret
from values import Unsupported, Opaque
from terms import Subst
import umap
LEVEL_NOTE = "histories of up to three additions (all coincidence patterns of the names, names that are prefixes or differ in case or by a blank, the empty name) with a move after any of them; sizes, abscissae, data and query points unbounded and symbolic; std::unordered_map and std::string are trusted contracts"
T = "mathutils::LookupTable1D::"; T2 = "mathutils::LookupTable2d::"
C1 = [T + x for x in ("LookupTable1D", "SetX", "AddY", "Eval", "GetIndex")]; C2 = [T2 + x for x in ("SetX", "SetY", "SetInterpolationMethod", "AddData", "Eval", "GetIndex")]
METH = ["Linear", "LinearExtrapolate", "LinearSaturate"]
def chord(x, y, k, q): return y(k - 1) + (y(k) - y(k - 1)) * (q - x(k - 1)) / (x(k) - x(k - 1))
def data(c):
    n = c.int("n", 2); return n, c.vec("x", n, incr=True), [c.vec(v, n) for v in "yzw"]
def sc(c, x, y):
    if c.mode != "conc": return 1
    dx = min(b - a for a, b in zip(x.raw, x.raw[1:])); return (1 + max(abs(v) for v in y.raw)) * (1 + max(abs(v) for v in x.raw)) / dx
def inside(c, n, x, kn="k", qn="q"):
    k = c.int(kn, 1, conc=lambda r: r.randint(1, int(n.const()) - 1)); c.require(LT(k, n))
    q = c.real(qn, conc=lambda r: r.choice([x.raw[int(k.const()) - 1], x.raw[int(k.const())], r.uniform(x.raw[int(k.const()) - 1], x.raw[int(k.const())])]))
    c.require(LE(x(k - 1), q), LE(q, x(k))); return k, q
def outcome(adds):
    """name -> series kept, code of what the additions returned"""
    kept, code = {}, 0
    for i, a in enumerate(adds):
        if a >= 0 and a not in kept: kept[a] = i; code += 1 << i
    return kept, code
HIST = [((0, -1, -1), (0, 0, 0)), ((0, 1, -1), (0, 0, 0)), ((0, 0, -1), (0, 0, 0)), ((0, 1, 2), (0, 0, 0)), ((0, 1, 0), (0, 0, 0)), ((0, 1, 1), (0, 0, 0)), ((3, 3, 0), (0, 0, 0)), ((2, 4, 0), (0, 0, 0)), ((0, 0, 0), (0, 0, 0)),
        ((-1, 0, 1), (1, 0, 0)), ((0, 1, -1), (1, 0, 0)), ((0, 1, -1), (2, 0, 0)), ((0, 1, -1), (3, 0, 0)), ((0, 1, 0), (0, 1, 0)), ((0, 0, 1), (0, 2, 0)), ((0, 3, 4), (0, 0, 3)), ((1, 0, 2), (0, 1, 2)), ((0, 4, 1), (3, 2, 1)), ((0, 4, 2), (0, 3, 0))]
def tag(h): return "add %s%s" % (",".join(str(a) for a in h[0] if a >= 0), " moves %s" % ",".join(map(str, h[1])) if any(h[1]) else "")
def hargs(m, h, x, n, ys): return [m, *h[0], *h[1], x, n, *ys]
BK = [{"n": 2, "k": 1}, {"n": 3, "k": 2}, {"n": 3, "k": 1}]; BN = [{"n": 2}, {"n": 3}]
for j, h in enumerate(HIST):
    kept, code = outcome(h[0])
    @unit("1D %s: every series answers by its name" % tag(h), C1, bounds=BK, conc=40)
    def _(c, h=h, kept=kept, j=j):
        n, x, ys = data(c); k, q = inside(c, n, x)
        for m in ((j % 3,) if j > 2 else (0, 1, 2)):
            for a, i in kept.items():
                for op in (0, 3):
                    for o in c.call("l1", op, a, q, *hargs(m, h, x, n, ys)):
                        if c.returns(o): c.eq(o, "series %d" % i, o.val, chord(x, ys[i], k, q), scale=sc(c, x, ys[i]))
    @unit("1D %s: counts, names, range" % tag(h), C1 + [T + v for v in ("GetNbSeries", "GetNbSample", "GetX", "GetXmin", "GetXmax")], bounds=BK, conc=30)
    def _(c, h=h, kept=kept, code=code, j=j):
        n, x, ys = data(c); k, q = inside(c, n, x); m = j % 3
        for op, w in ((0, P(code)), (1, P(len(kept))), (2, n), (3, P(len(kept)))):
            for o in c.call("l1n", op, q, *hargs(m, h, x, n, ys)):
                if c.returns(o): c.ensure(o, ("what the additions returned", "number of series", "number of samples", "answers for all series")[op], EQ(o.val, w))
        for a in range(5):
            for op in ((0, 3) if a not in kept else (1, 2)):
                for o in c.call("l1", op, a, q, *hargs(m, h, x, n, ys)):
                    if a not in kept: c.kinds(o, throw=TRUE)
                    elif c.returns(o): c.eq(o, "range", o.val, x(0) if op == 1 else x(n - 1), tol=0)
        out = c.out("out", n)
        for o in c.call("l1v", 1, 0, c.vec("qq", 1), 1, out, n, *hargs(m, h, x, n, ys)):
            if c.returns(o): c.ensure(o, "size", EQ(o.val, n)); c.all_eq(o, "abscissae", 0, n, lambda i: (o.arr(out, i), x(i)), tol=0)
    if any(h[1]) or j == 1:
        for m in range(3):
            @unit("1D %s: outside the range, method %s" % (tag(h), METH[m]), C1, bounds=BN, conc=30)
            def _(c, h=h, kept=kept, m=m):
                n, x, ys = data(c); d = c.real("d", conc=lambda g: g.choice([1e-6, 0.25, 3.0])); c.require(GT(d, 0))
                for a, i in kept.items():
                    y = ys[i]
                    for side, q in ((0, x(0) - d), (1, x(n - 1) + d)):
                        for o in c.call("l1", 0, a, q, *hargs(m, h, x, n, ys)):
                            if m == 0: c.kinds(o, exit=TRUE)
                            elif c.returns(o): c.eq(o, "series %d" % i, o.val, (y(0) if side == 0 else y(n - 1)) if m == 2 else chord(x, y, P(1) if side == 0 else n - 1, q), scale=sc(c, x, y) * 4)
for h in (HIST[3], HIST[10], HIST[13]):
    kept, code = outcome(h[0])
    for m in (1, 2):
        @unit("1D %s: several points at once, method %s" % (tag(h), METH[m]), C1, bounds=[{"n": 2, "p": 2, "i": 1, "k": 1}, {"n": 3, "p": 1, "i": 0, "k": 2}], conc=40)
        def _(c, h=h, kept=kept, m=m):
            n, x, ys = data(c); p = c.int("p", 1, conc=range(1, 5)); qs = c.vec("qs", p, conc=lambda r, k: [r.choice(x.raw + [r.uniform(x.raw[0], x.raw[-1])]) for _ in range(k)]); i = c.int("i", 0, conc=lambda r: r.randrange(int(p.const()))); c.require(LT(i, p))
            k = c.int("k", 1, conc=lambda r: next(j for j in range(1, len(x.raw)) if qs.raw[int(i.const())] <= x.raw[j])); c.require(LT(k, n), LE(x(k - 1), qs(i)), LE(qs(i), x(k)))
            out = c.out("out", p)
            for a, s in kept.items():
                for o in c.call("l1v", 0, a, qs, p, out, p, *hargs(m, h, x, n, ys)):
                    if c.returns(o):
                        c.ensure(o, "size", EQ(o.val, p))
                        c.eq(o, "series %d, point i" % s, o.arr(out, i), chord(x, ys[s], k, qs(i)), scale=sc(c, x, ys[s]))
def bilin(x, y, z, ny, i, j, q, r):
    s = (q - x(i - 1)) / (x(i) - x(i - 1)); t = (r - y(j - 1)) / (y(j) - y(j - 1))
    return (1 - s) * (1 - t) * z(ny * (i - 1) + j - 1) + s * (1 - t) * z(ny * i + j - 1) + (1 - s) * t * z(ny * (i - 1) + j) + s * t * z(ny * i + j)
def data2(c):
    nx, ny = c.int("nx", 2, conc=range(2, 5)), c.int("ny", 2, conc=range(2, 5))
    c.require(LT(nx * ny, 2 ** 31), GE(nx * ny, 4))
    return nx, c.vec("x", nx, incr=True), ny, c.vec("y", ny, incr=True), [c.vec(v, nx * ny) for v in "def"]
def sc2(c, x, y, z):
    if c.mode != "conc": return 1
    f = lambda v: (1 + max(abs(a) for a in v.raw)) / min(b - a for a, b in zip(v.raw, v.raw[1:]))
    return (1 + max(abs(a) for a in z.raw)) * f(x) * f(y)
I2 = "mathutils::Interp2dLinear::"
def vec_of(ex, st, p):
    """contents of the vector behind a shared_ptr argument"""
    q = ex.rd(st, p, 8); v = ex.rd(st, q)
    if not hasattr(v, "dims") or len(v.dims) != 1: raise Unsupported("shared vector")
    k = fresh("K", "I"); return v.dims[0], ex.num(v.get(k)), k
def k_init(ex, st, fn, a, I):
    """contract of Interp2dLinear::Initialize (property C06): the object now stands for the bilinear blend of these coordinates and data"""
    (nx, x, kx), (ny, y, ky), (nd, d, kd) = (vec_of(ex, st, p) for p in a[1:4]); at = lambda v, k, i: Subst({k.single_atom(): P(i)}).poly(v)
    for n, v, k in ((nx, x, kx), (ny, y, ky)):
        r = fresh("r", "I"); ex.oblige(st, "coordinates increase", Forall(r, P(0), n - 1, LT(at(v, k, r), at(v, k, r + 1)))); ex.oblige(st, "two coordinates", GE(n, 2))
    ex.oblige(st, "one value per node", EQ(nd, nx * ny))
    key = tuple(Subst({k.single_atom(): app("slot", sort="I")}).poly(v).key() for v, k in ((x, kx), (y, ky), (d, kd)))
    st.w(a[0].obj).cells[1 << 20] = (8, Opaque("blend", (key, nx, ny, at(x, kx, 0), at(x, kx, nx - 1), at(y, ky, 0), at(y, ky, ny - 1))))
    return ret(st)
def k_eval(ex, st, fn, a, I):
    """contract of the scalar Interp2dLinear::Eval (property C06)"""
    if "vector<std::vector" in fn.dem: return NotImplemented
    c = st.objs[a[0].obj].cells.get(1 << 20)
    if c is None: raise Unsupported("interpolator that was not initialised")
    (_, nx, ny, x0, x1, y0, y1) = c[1].p; q, r = ex.num(a[1]), ex.num(a[2])
    ex.oblige(st, "point in the range", And(LE(x0, q), LE(q, x1), LE(y0, r), LE(r, y1)))
    return ret(st, blend(c[1].p[0], q, r))
def blend(key, q, r): return app("blend[%s]" % "|".join(key), q, r)
CONTRACTS = {I2 + "Initialize": k_init, I2 + "Eval": k_eval}
def want2(c, x, y, d, ny, i, j, q, r):
    if c.mode != "sym": return bilin(x, y, d, ny, i, j, q, r)
    s = app("slot", sort="I"); return blend(tuple(v(s).key() for v in (x, y, d)), q, r)
B2 = [{"nx": 2, "ny": 2, "i": 1, "j": 1}, {"nx": 2, "ny": 3, "i": 1, "j": 2}, {"nx": 3, "ny": 2, "i": 2, "j": 1}]
for j, a3 in enumerate([h[0] for h in HIST[:9]]):
    kept, code = outcome(a3); tg = tag((a3, (0, 0, 0)))
    @unit("2D %s: every series answers by its name" % tg, C2, bounds=B2, conc=40, uses=list(CONTRACTS))
    def _(c, a3=a3, kept=kept):
        nx, x, ny, y, ds = data2(c); i, q = inside(c, nx, x, "i", "q"); j, r = inside(c, ny, y, "j", "r")
        for a, s in kept.items():
            for op in (0, 1, 2):
                for o in c.call("l2", op, a, q, r, *a3, x, nx, y, ny, *ds):
                    if c.returns(o): c.eq(o, "series %d" % s, o.val, want2(c, x, y, ds[s], ny, i, j, q, r), scale=sc2(c, x, y, ds[s]))
    @unit("2D %s: counts, names, coordinates" % tg, C2 + [T2 + v for v in ("GetNbSeries", "GetNbSample", "GetX", "GetY", "HasSerie")], bounds=B2, conc=30, uses=list(CONTRACTS))
    def _(c, a3=a3, kept=kept, code=code):
        nx, x, ny, y, ds = data2(c); i, q = inside(c, nx, x, "i", "q"); j, r = inside(c, ny, y, "j", "r")
        for op, w in ((0, P(code)), (1, P(len(kept))), (2, nx * ny)):
            for o in c.call("l2n", op, 0, *a3, x, nx, y, ny, *ds):
                if c.returns(o): c.ensure(o, ("what the additions returned", "number of series", "number of samples")[op], EQ(o.val, w))
        for a in range(5):
            for o in c.call("l2n", 3, a, *a3, x, nx, y, ny, *ds):
                if c.returns(o): c.ensure(o, "membership of name %d" % a, EQ(o.val, 1 if a in kept else 0))
            if a not in kept:
                for op in (0, 1, 2):
                    for o in c.call("l2", op, a, q, r, *a3, x, nx, y, ny, *ds): c.kinds(o, throw=TRUE)
        for op, v, n in ((0, x, nx), (1, y, ny)):
            out = c.out("out%d" % op, n)
            for o in c.call("l2v", op, out, n, *a3, x, nx, y, ny, *ds):
                if c.returns(o): c.ensure(o, "size", EQ(o.val, n)); c.all_eq(o, "coordinates", 0, n, lambda k: (o.arr(out, k), v(k)), tol=0)
