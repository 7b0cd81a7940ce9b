from contract import *
from math import factorial
import itertools
from values import Unsupported
M = "mathutils::"
FN = [M + "Integration2dTriangle::Integration2dTriangle", M + "Integration2dTriangle::Compute", M + "Integration2dTriangle::ComputeOverStandardTriangle", M + "QuadratureTables::Set_table"]
LEVEL_NOTE = "square root, products and vectors of Eigen trusted; quadrature weights and points are read off the verified symbolic result"
TOL = Fraction(1, 10 ** 12)
NM = ["%s%s" % (v, k) for v in "abc" for k in "xyz"]
def area(v):
    e = [v[0 + k] - v[6 + k] for k in range(3)]; g = [v[3 + k] - v[6 + k] for k in range(3)]
    cr = [e[1] * g[2] - e[2] * g[1], e[2] * g[0] - e[0] * g[2], e[0] * g[1] - e[1] * g[0]]
    return fsqrt(sum((x * x for x in cr), P(0))) / 2
def rule(val, f, v, ar):
    """the quadrature rule in the symbolic result: [(weight, bary a, b, c)] or None"""
    pts = []
    m0 = next(iter(ar.m))
    apps = {}
    for mono, cf in val.m.items():
        fs = [a for a, e in mono if a.kind == "app" and a.args[0] == f.name]
        if len(fs) != 1: return None
        rest = tuple((a, e) for a, e in mono if a is not fs[0])
        if rest == m0: apps[fs[0]] = Fraction(cf) / Fraction(ar.m[m0])
        elif fs[0] not in apps: apps.setdefault(fs[0], None)
    for a, w in apps.items():
        if w is None: return None
        lam = None
        for k in range(3):
            arg = a.args[1 + k]
            l = []
            for q in range(3):
                at = v[3 * q + k].single_atom(); l.append(Fraction(arg.m.get(((at, 1),), 0)))
            if arg != sum((v[3 * q + k].scale(l[q]) for q in range(3)), P(0)): return None
            if lam is not None and lam != l: return None
            lam = l
        pts.append((w, lam))
    return pts
def exact(f, v):
    """exact integral of the polynomial f over the triangle (concrete runs)"""
    import mpmath
    tot = mpmath.mpf(0); big = mpmath.mpf(0)
    V = [[mpmath.mpf(float(ev(v[3 * q + k]))) for k in range(3)] for q in range(3)]
    e = [V[0][k] - V[2][k] for k in range(3)]; g = [V[1][k] - V[2][k] for k in range(3)]
    cr = [e[1] * g[2] - e[2] * g[1], e[2] * g[0] - e[0] * g[2], e[0] * g[1] - e[1] * g[0]]
    A = mpmath.sqrt(sum(x * x for x in cr)) / 2
    for t in f.desc[1]:
        # expand the monomial in barycentric coordinates
        poly = {(0, 0, 0): mpmath.mpf(t[0])}
        for k in range(3):
            for _ in range(t[1 + k]):
                nx = {}
                for key, cf in poly.items():
                    for q in range(3):
                        kk = tuple(key[i] + (i == q) for i in range(3)); nx[kk] = nx.get(kk, 0) + cf * V[q][k]
                poly = nx
        for (a, b, cc), cf in poly.items():
            w = mpmath.mpf(2 * factorial(a) * factorial(b) * factorial(cc)) / factorial(a + b + cc + 2)
            tot += cf * w; big += abs(cf) * w
    return tot * A, big * A
def poly(deg):
    def d(r):
        def mono():
            n = r.choice([deg, deg, r.randint(0, deg)]); i = r.randint(0, n); j = r.randint(0, n - i); e = [i, j, n - i - j]; r.shuffle(e); return [r.uniform(-2, 2)] + e
        return ("poly", [mono() for _ in range(r.randint(1, 3))])
    return d
def mk(order, fn):
    @unit("order %d%s" % (order, {"tri": "", "tri2": ", second triangle", "triv0": ", vector-valued, first component", "triv1": ", vector-valued, second component"}[fn]), FN, bounds=[{}], conc=60)
    def _(c):
        f = c.ufun("f", 3, desc=poly(order)); shape = c.rng.random() if c.mode == "conc" else 0
        v = [c.real(n, conc=(lambda r: r.uniform(-2, 2)) if shape < 0.8 else (lambda r: float(r.randint(-1, 1)))) for n in NM]
        ar = area(v)
        for o in (c.call(fn, f, order, *v) if fn[:4] != "triv" else c.call("triv", f, order, int(fn[4]), *v)):
            if not c.returns(o): continue
            if c.mode == "conc":
                w, big = exact(f, v)
                if fn == "triv1": A = ev(ar); w, big = 2 * w + A, 2 * big + abs(A)
                c.eq(o, "exact integral of a polynomial of degree up to %d" % order, o.val, P(Fraction(float(w))), tol=4e-12, scale=float(big))
                continue
            val = o.val
            if fn == "triv1": val = type(o.val)({m: q for m, q in o.val.m.items() if any(a.kind == "app" and a.args[0] == f.name for a, e in m)})
            r = rule(val, f, v, ar)
            k = 2 if fn == "triv1" else 1
            if r is None: raise Unsupported("result is not a weighted sum of integrand values")
            s = sum((app(f.name, *[sum((v[3 * q + x].scale(l[q]) for q in range(3)), P(0)) for x in range(3)], sort="R").scale(w) for w, l in r), P(0))
            want = ar * s if fn != "triv1" else ar * s + ar * sum((w / 2 for w, l in r), Fraction(0))
            c.eq(o, "area times the quadrature sum", o.val, want)
            c.ensure(o, "points in the plane of the triangle", TRUE if all(sum(l) == 1 for w, l in r) else FALSE)
            for n in range(order + 1):
                for a in range(n + 1):
                    for b in range(n - a + 1):
                        g = n - a - b
                        got = sum((w / k) * l[0] ** a * l[1] ** b * l[2] ** g for w, l in r)
                        ex = Fraction(2 * factorial(a) * factorial(b) * factorial(g), factorial(n + 2))
                        c.ensure(o, "moment (%d,%d,%d)" % (a, b, g), TRUE if abs(got - ex) <= TOL else FALSE)
for n in range(1, 9):
    mk(n, "tri"); mk(n, "tri2")
for n in (1, 4, 8): mk(n, "triv0"); mk(n, "triv1")
@unit("orders outside 1..8 are refused", FN[:1], bounds=[{"order": k} for k in (-1, 0, 9, 20)], conc=30)
def _(c):
    f = c.ufun("f", 3); order = c.int("order", conc=lambda r: r.choice([-2147483648, -5, -1, 0, 9, 10, 2147483647, r.randint(9, 100)])); v = [c.real(n) for n in NM]
    c.require(Or(LT(order, 1), GT(order, 8)))
    for o in c.call("tri", f, order, *v): c.kinds(o, exit=TRUE)
