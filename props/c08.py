from contract import *
import multiarr, itertools
LEVEL_NOTE = "boost::multi_array, ublas::array_adaptor and std::upper_bound are trusted contracts; the number of grid points is below 2^31; every combination of inside/below/above per dimension in dimensions 1 to 3"
M = "mathutils::RegularGridInterpolator::"; L = "InterpMultilinear::"; ND = "NDInterpolator::"
COV = [M + "AddCoord", M + "AddVar", M + "_BuildInterpolator", M + "Interp", L + "interp_vec", L + "linterp_nd_unitcube", ND + "find_cell", ND + "get_f_val", ND + "set_grids", ND + "set_f_array"]
AX = "xyz"; PT = "pqs"
def grid(c, N, lo=1, sizes=None):
    ns = [c.int("n" + AX[k], lo if isinstance(lo, int) else lo[k], conc=range(lo if isinstance(lo, int) else lo[k], 5)) for k in range(N)]
    if N > 1:
        t = P(1)
        for n in ns: t = t * n
        c.require(LT(t, 2 ** 31), GE(t, 1))
    xs = [c.vec(AX[k], ns[k], incr=True) for k in range(N)]
    return ns, xs
def tensor(c, nm, ns): return c.vec(nm, ns[0]) if len(ns) == 1 else c.ten(nm, *ns)
def where(c, k, kind, n, x, strict=False):
    """point coordinate of the kind asked for; corners and weights [(index, weight)]"""
    nm, pt = "c" + AX[k], PT[k]
    if kind == "inside":
        i = c.int(nm, 1, conc=lambda r: r.randint(1, int(n.const()) - 1)); c.require(LT(i, n))
        p = c.real(pt, conc=lambda r: r.choice([x.raw[int(i.const()) - 1], x.raw[int(i.const())], r.uniform(x.raw[int(i.const()) - 1], x.raw[int(i.const())])]))
        c.require(LE(x(i - 1), p), LT(p, x(i)) if strict else LE(p, x(i)))
        s = (p - x(i - 1)) / (x(i) - x(i - 1))
        return p, [(i - 1, 1 - s), (i, s)]
    if kind == "node":
        i = c.int(nm, 0, conc=lambda r: r.randrange(int(n.const()))); c.require(LT(i, n))
        return x(i), [(i, P(1))]
    if kind == "last": return x(n - 1), [(n - 1, P(1))]
    d = c.real("d" + AX[k], conc=lambda g: g.choice([1e-6, 0.25, 3.0, 1e4])); c.require(GT(d, 0))
    return (x(0) - d, [(P(0), P(1))]) if kind == "below" else (x(n - 1) + d, [(n - 1, P(1))])
def blend(f, ws):
    t = P(0)
    for c in itertools.product(*ws):
        w = P(1)
        for _, q in c: w = w * q
        t = t + w * f(*[i for i, _ in c])
    return t
def sc(c, xs, d):
    if c.mode != "conc": return 1
    r = 1 + max(abs(a) for a in d.raw)
    for x in xs:
        if len(x.raw) > 1: r *= (1 + max(abs(a) for a in x.raw)) / min(b - a for a, b in zip(x.raw, x.raw[1:]))
    return r
def args(xs, ns): return [t for x, n in zip(xs, ns) for t in (x, n)]
KINDS = ("inside", "below", "above")
def bnds(kinds):
    out = []
    for s in ((2, 2, 2), (3, 2, 3), (2, 3, 2)):
        b = {"n" + AX[k]: s[k] for k in range(len(kinds))}
        for j, q in enumerate(kinds):
            if q in ("inside", "node"): b["c" + AX[j]] = s[j] - 1
        out.append(b)
    return out
def mk(kinds, op):
    N = len(kinds)
    @unit("%dD %s%s" % (N, ", ".join(kinds), " (bound check)" if op else ""), COV, bounds=bnds(kinds), conc=60 if N < 3 else 24)
    def _(c):
        ns, xs = grid(c, N, [2 if k == "inside" else 1 for k in kinds]); d = tensor(c, "d", ns)
        w = [where(c, k, kinds[k], ns[k], xs[k], N > 2) for k in range(N)]
        out = op and any(k in ("below", "above") for k in kinds)
        for o in c.call("gi%d" % N, op, *args(xs, ns), d, *[p for p, _ in w]):
            if out: c.kinds(o, throw=TRUE)
            elif c.returns(o): c.eq(o, "multilinear blend, clamped", o.val, blend(d, [q for _, q in w]), scale=sc(c, xs, d))
for N in (1, 2, 3):
    for kinds in itertools.product(KINDS, repeat=N): mk(kinds, 0)
    if N < 3: mk(("node",) * N, 0)
    else:
        for kinds in itertools.product(("inside", "last"), repeat=N):
            if "last" in kinds: mk(kinds, 0)
    if N < 3:
        for kinds in itertools.product(KINDS, repeat=N): mk(kinds, 1)
    else:
        for kinds in (("inside",) * 3, ("below", "inside", "inside"), ("inside", "above", "inside"), ("inside", "inside", "below"), ("inside", "inside", "above")): mk(kinds, 1)
for N in (1, 2, 3):
    @unit("%dD stored value by index" % N, [M + "EvalAtIndice", M + "AddVar"], bounds=bnds(("node",) * N), conc=40)
    def _(c, N=N):
        ns, xs = grid(c, N); d = tensor(c, "d", ns)
        ix = [c.int("c" + AX[k], 0, conc=lambda r, k=k: r.randrange(int(ns[k].const()))) for k in range(N)]
        for i, n in zip(ix, ns): c.require(LT(i, n))
        for o in c.call("ga%d" % N, *args(xs, ns), d, *ix):
            if c.returns(o): c.eq(o, "stored value", o.val, d(*ix), tol=0)
for N in (1, 2):
    for how in (0, 1, 2):
        for kinds in ((("inside",), ("below",), ("above",)) if N == 1 else (("inside", "inside"), ("below", "inside"), ("inside", "above"))):
            @unit("%dD copy %s, %s" % (N, ("constructed", "assigned to an empty one", "assigned to a filled one")[how], ", ".join(kinds)), COV + [M + "operator=", M + "RegularGridInterpolator"], bounds=bnds(kinds), conc=40)
            def _(c, N=N, how=how, kinds=kinds):
                ns, xs = grid(c, N, [2 if k == "inside" else 1 for k in kinds]); d = tensor(c, "d", ns); e = tensor(c, "e", ns)
                w = [where(c, k, kinds[k], ns[k], xs[k]) for k in range(N)]
                for o in c.call("gc%d" % N, how, 0, *args(xs, ns), d, e, *[p for p, _ in w]):
                    if c.returns(o): c.eq(o, "the copy interpolates the copied data", o.val, blend(d, [q for _, q in w]), scale=sc(c, xs, d))
                for o in c.call("gc%d" % N, how, 1, *args(xs, ns), d, e, *[p for p, _ in w]):
                    if any(k != "inside" for k in kinds): c.kinds(o, throw=TRUE)
                    elif c.returns(o): c.eq(o, "the copy interpolates the copied data", o.val, blend(d, [q for _, q in w]), scale=sc(c, xs, d))
for N in (1, 2):
    @unit("%dD copy of an incomplete interpolator can be completed" % N, COV + [M + "operator=", M + "RegularGridInterpolator"], bounds=bnds(("inside",) * N), conc=40)
    def _(c, N=N):
        ns, xs = grid(c, N, 2); d = tensor(c, "d", ns); w = [where(c, k, "inside", ns[k], xs[k]) for k in range(N)]
        for o in c.call("gp%d" % N, *args(xs, ns), d, *[p for p, _ in w]):
            if c.returns(o): c.eq(o, "multilinear blend", o.val, blend(d, [q for _, q in w]), scale=sc(c, xs, d))
for cp in (0, 1):
    @unit("getters" + (" of a copy" if cp else ""), [M + x for x in ("GetCoord", "GetCoordMinVal", "GetCoordMaxVal", "GetDimension", "IsValid")], bounds=[{"nx": 2, "ny": 3}, {"nx": 1, "ny": 2}], conc=40)
    def _(c, cp=cp):
        ns, xs = grid(c, 2); d = tensor(c, "d", ns)
        for k in (0, 1):
            for op, v in ((0, xs[k](0)), (1, xs[k](ns[k] - 1))):
                for o in c.call("gg2", op, k, cp, *args(xs, ns), d):
                    if c.returns(o): c.eq(o, "extreme coordinate", o.val, v, tol=0)
            out = c.out("o%d" % k, ns[k])
            for o in c.call("gv2", k, cp, *args(xs, ns), d, out, ns[k]):
                if c.returns(o): c.ensure(o, "size", EQ(o.val, ns[k])); c.all_eq(o, "coordinates", 0, ns[k], lambda i: (o.arr(out, i), xs[k](i)), tol=0)
        for op, v in ((2, 2), (3, 1)):
            for o in c.call("gg2", op, 0, cp, *args(xs, ns), d):
                if c.returns(o): c.eq(o, "dimension, validity", o.val, P(v), tol=0)
        if cp == 0:
            for o in c.call("gg2", 3, 0, 2, *args(xs, ns), d):
                if c.returns(o): c.eq(o, "an empty one is not valid", o.val, P(0), tol=0)
        for k in (2, 7):
            for o in c.call("gg2", 0, k, cp, *args(xs, ns), d): c.kinds(o, exit=TRUE)
            for o in c.call("gg2", 1, k, cp, *args(xs, ns), d): c.kinds(o, exit=TRUE)
            out = c.out("o%d" % k, 1)
            for o in c.call("gv2", k, cp, *args(xs, ns), d, out, 1): c.kinds(o, exit=TRUE)
    @unit("getters before the values are given" + (", of a copy" if cp else ""), [M + x for x in ("GetCoordMinVal", "GetCoordMaxVal", "IsValid", "AddCoord")], bounds=[{"nx": 2, "ny": 3}, {"nx": 1, "ny": 2}], conc=40)
    def _(c, cp=cp):
        ns, xs = grid(c, 2)
        for k in (0, 1):
            for op, v in ((0, xs[k](0)), (1, xs[k](ns[k] - 1)), (2, P(0))):
                for o in c.call("gib2", op, k, cp, *args(xs, ns)):
                    if c.returns(o): c.eq(o, ("smallest coordinate", "largest coordinate", "not valid yet")[op], o.val, v, tol=0)
def seq(r, m):
    v = [r.choice([float(r.randint(-2, 2)), r.uniform(-3, 3)]) for _ in range(m)]
    if r.random() < 0.6: v = sorted(set(v + [5.0 + k for k in range(m)]))[:m]
    if m > 1 and r.random() < 0.3: k = r.randrange(m - 1); v[k + 1] = v[k]
    return v
@unit("increasing coordinates are accepted, others refused", [M + "AddCoord"], bounds=[{"nx": k} for k in (1, 2, 3, 4)], conc=150)
def _(c):
    n = c.int("nx", 1, conc=range(1, 6)); x = c.vec("x", n, conc=seq)
    r = fresh("r", "I"); inc = Forall(r, 0, n - 1, LT(x(r), x(r + 1)))
    for o in c.call("gr", x, n): c.kinds(o, ret=inc, throw=Not(inc))
@unit("second coordinate: increasing accepted, others refused", [M + "AddCoord"], bounds=[{"nx": 2, "ny": k} for k in (1, 2, 3)], conc=100)
def _(c):
    n = c.int("nx", 1, conc=range(1, 4)); x = c.vec("x", n, incr=True); m = c.int("ny", 1, conc=range(1, 6)); y = c.vec("y", m, conc=seq)
    r = fresh("r", "I"); inc = Forall(r, 0, m - 1, LT(y(r), y(r + 1)))
    for o in c.call("gr2", x, n, y, m): c.kinds(o, ret=inc, throw=Not(inc))
