from contract import *
import multiarr, itertools
LEVEL_NOTE = "boost::multi_array, std::upper_bound and std::min/max_element are trusted contracts; the number of grid points is below 2^31; every combination of inside/last/below/above per dimension in dimensions 1 to 3"
M = "mathutils::RegularGridNearest::"
NEAR = [M + x for x in ("AddCoord", "AddVar", "Nearest", "GetData")]; SURR = [M + x for x in ("AddCoord", "AddVar", "GetSurroundingGridNodes", "GetNode")]
AX = "xyz"; PT = "pqs"
def grid(c, N, lo):
    ns = [c.int("n" + AX[k], lo[k], conc=range(lo[k], 5)) for k in range(N)]
    if N > 1:
        t = P(1)
        for n in ns: t = t * n
        c.require(LT(t, 2 ** 31), GE(t, 1))
    return ns, [c.vec(AX[k], ns[k], incr=True) for k in range(N)]
def tensor(c, nm, ns): return c.vec(nm, ns[0]) if len(ns) == 1 else c.ten(nm, *ns)
def where(c, k, kind, n, x):
    """point coordinate; lower node, upper node"""
    nm, pt = "c" + AX[k], PT[k]
    if kind == "inside":
        i = c.int(nm, 1, conc=lambda r: r.randint(1, int(n.const()) - 1)); c.require(LT(i, n))
        def pick(r):
            a, b = x.raw[int(i.const()) - 1], x.raw[int(i.const())]
            return min(r.choice([a, 0.5 * (a + b), r.uniform(a, b), r.uniform(a, b), a + 0.25 * (b - a), a + 0.75 * (b - a)]), a + 0.999 * (b - a))
        p = c.real(pt, conc=pick)
        c.require(LE(x(i - 1), p), LT(p, x(i)))
        return p, i - 1, i
    if kind == "last": return x(n - 1), n - 1, n - 1
    d = c.real("d" + AX[k], conc=lambda g: g.choice([1e-6, 0.25, 3.0, 1e4])); c.require(GT(d, 0))
    return (x(0) - d, P(0), P(0)) if kind == "below" else (x(n - 1) + d, n - 1, n - 1)
def args(xs, ns): return [t for x, n in zip(xs, ns) for t in (x, n)]
KINDS = ("inside", "below", "above", "last")
def bnds(kinds):
    out = []
    for s in ((2, 2, 2), (3, 2, 3), (2, 3, 2)):
        b = {"n" + AX[k]: s[k] for k in range(len(kinds))}
        for j, q in enumerate(kinds):
            if q == "inside": b["c" + AX[j]] = s[j] - 1
        out.append(b)
    return out
def near(c, N, kinds, o, out, xs, d, w):
    if not c.returns(o): return
    ix = [o.arr(out, k) for k in range(N)]
    for k in range(N):
        p, lo, hi = w[k]; x = xs[k]; eps = P(Fraction(1, 10 ** 9)) if c.mode == "conc" else P(0)
        if kinds[k] != "inside": c.ensure(o, "nearest index", EQ(ix[k], lo))
        else: c.ensure(o, "index at minimal distance", Or(And(EQ(ix[k], lo), LE(p - x(lo), x(hi) - p + eps)), And(EQ(ix[k], hi), LE(x(hi) - p, p - x(lo) + eps))))
        c.eq(o, "its coordinate", o.arr(out, N + k), x(ix[k]), tol=0)
    c.eq(o, "its value", o.arr(out, 2 * N), d(*ix), tol=0)
    c.eq(o, "nearest data", o.arr(out, 2 * N + 1), d(*ix), tol=0)
def surr(c, N, o, out, xs, d, w):
    if not c.returns(o): return
    c.ensure(o, "2^d nodes", EQ(o.val, 1 << N))
    for v in range(1 << N):
        b = v * (2 * N + 1); want = [w[k][1 + ((v >> (N - 1 - k)) & 1)] for k in range(N)]
        for k in range(N):
            c.eq(o, "node %d index %d" % (v, k), o.arr(out, b + k), want[k], tol=0)
            c.eq(o, "node %d coordinate %d" % (v, k), o.arr(out, b + N + k), xs[k](want[k]), tol=0)
        c.eq(o, "node %d value" % v, o.arr(out, b + 2 * N), d(*want), tol=0)
def setup(c, kinds, e=False):
    N = len(kinds); ns, xs = grid(c, N, [2 if k == "inside" else 1 for k in kinds]); d = tensor(c, "d", ns)
    e = tensor(c, "e", ns) if e else None
    w = [where(c, k, kinds[k], ns[k], xs[k]) for k in range(N)]
    return N, ns, xs, d, e, w
def go(c, fn, pre, what, kinds, N, ns, xs, d, e, w):
    out = c.out("out", 2 * N + 2 if what == 0 else (1 << N) * (2 * N + 1))
    for o in c.call(fn + str(N), *pre, what, *args(xs, ns), d, *([e] if e is not None else []), *[p for p, _, _ in w], out):
        if what == 0: near(c, N, kinds, o, out, xs, d, w)
        else: surr(c, N, o, out, xs, d, w)
for N in (1, 2, 3):
    for kinds in itertools.product(KINDS, repeat=N):
        for what in (0, 1):
            @unit("%dD %s: %s" % (N, ("nearest", "surrounding")[what], ", ".join(kinds)), (NEAR, SURR)[what], bounds=bnds(kinds), conc=60 if N < 3 else 20)
            def _(c, kinds=kinds, what=what): go(c, "gn", (), what, kinds, *setup(c, kinds))
for N in (1, 2):
    for how in (0, 1, 2):
        for kinds in ((("inside",), ("below",), ("above",)) if N == 1 else (("inside", "inside"), ("below", "inside"), ("inside", "above"))):
            for what in (0, 1):
                @unit("%dD copy %s, %s: %s" % (N, ("constructed", "assigned to an empty one", "assigned to a filled one")[how], ("nearest", "surrounding")[what], ", ".join(kinds)), [M + "operator=", M + "RegularGridNearest"] + (NEAR, SURR)[what], bounds=bnds(kinds), conc=40)
                def _(c, kinds=kinds, what=what, how=how): go(c, "gc", (how,), what, kinds, *setup(c, kinds, True))
for cp in (0, 1):
    @unit("getters" + (" of a copy" if cp else ""), [M + x for x in ("GetCoord", "GetCoordMinVal", "GetCoordMaxVal", "GetDimension")], bounds=[{"nx": 2, "ny": 3}, {"nx": 1, "ny": 2}], conc=40)
    def _(c, cp=cp):
        ns, xs = grid(c, 2, (1, 1)); d = tensor(c, "d", ns)
        for k in (0, 1):
            for op, v in ((0, xs[k](0)), (1, xs[k](ns[k] - 1))):
                for o in c.call("gg2", op, k, cp, *args(xs, ns), d):
                    if c.returns(o): c.eq(o, "extreme coordinate", o.val, v, tol=0)
            out = c.out("o%d" % k, ns[k])
            for o in c.call("gv2", k, cp, *args(xs, ns), d, out, ns[k]):
                if c.returns(o): c.ensure(o, "size", EQ(o.val, ns[k])); c.all_eq(o, "coordinates", 0, ns[k], lambda i: (o.arr(out, i), xs[k](i)), tol=0)
        for o in c.call("gg2", 2, 0, cp, *args(xs, ns), d):
            if c.returns(o): c.eq(o, "dimension", o.val, P(2), tol=0)
        for k in (2, 7):
            for o in c.call("gg2", 0, k, cp, *args(xs, ns), d): c.kinds(o, exit=TRUE)
            for o in c.call("gg2", 1, k, cp, *args(xs, ns), d): c.kinds(o, exit=TRUE)
            out = c.out("o%d" % k, 1)
            for o in c.call("gv2", k, cp, *args(xs, ns), d, out, 1): c.kinds(o, exit=TRUE)
@unit("too many coordinates, data too early: refused", [M + "AddCoord", M + "AddVar"], bounds=[{"nx": 1}, {"nx": 2}], conc=20)
def _(c):
    ns, xs = grid(c, 1, (1,)); d = c.ten("d", ns[0], ns[0])
    c.require(LT(ns[0] * ns[0], 2 ** 31))
    for op in (0, 1):
        for o in c.call("gr2", op, *args(xs, ns), d): c.kinds(o, exit=TRUE)
