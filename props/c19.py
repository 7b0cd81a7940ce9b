from contract import *
import splinem
S = "mathutils::Spline::"
LEVEL_NOTE = "wrapper (scaling to [0,1], degree choice, orientation of the data, both constructors, evaluation) proved for all lengths against an assumed contract of Eigen's SplineFitting::Interpolate (interpolation at the parameters, affine data reproduced); Eigen's fit itself is exercised on concrete data only"
def data(c):
    n = c.int("n", 2, conc=lambda r: r.choice([2, 3, 4, 5, 7, 12]))
    def xs(r, m):
        s = r.choice([1e-2, 1.0, 1.0, 50.0]); x = r.uniform(-4, 4) * s; v = []
        for _ in range(m): v.append(x); x += r.uniform(0.3, 2.0) * s
        return v
    return n, c.vec("x", n, incr=True, conc=xs)
for rep, nm in (("e", "Eigen vectors"), ("s", "standard vectors")):
    for deg in (3, 2, 1):
        for aff in (0, 1):
            @unit("%s, degree %d, %s" % (nm, deg, "affine data between the nodes" if aff else "given values at the nodes"), [S + "Spline", S + "operator()", S + "scaled_value", S + "scaled_values"], bounds=[{"n": 2}, {"n": 5}], conc=80)
            def _(c, rep=rep, deg=deg, aff=aff):
                n, x = data(c)
                if aff:
                    al, be, t = c.real("al", conc=[0.0, 1.0, -3.5, 20.0]), c.real("be", conc=[0.0, 1.0, -2.25, 7.0]), c.real("t", conc=lambda r: float(ev(x(0))) + r.random() * float(ev(x(n - 1) - x(0))))
                    c.require(LE(x(0), t), LE(t, x(n - 1)))
                    for o in c.call(rep + "a" + str(deg), x, al, be, n, t):
                        if c.returns(o): c.eq(o, "the affine function", o.val, al + be * t, tol=1e-9, scale=1e3)
                else:
                    y = c.vec("y", n, conc=lambda r, m: [r.choice([r.uniform(-5, 5), float(r.randint(-3, 3))]) for _ in range(m)])
                    k = c.int("k", 0, conc=lambda r: r.randint(0, int(ev(n)) - 1)); c.require(LT(k, n))
                    for o in c.call(rep + str(deg), x, y, n, x(k)):
                        if c.returns(o): c.eq(o, "the given value", o.val, y(k), tol=1e-8, scale=1e2)
@unit("copies", [S + "operator()"], bounds=[{"n": 2}], conc=60)
def _(c):
    n, x = data(c); y = c.vec("y", n, conc=lambda r, m: [r.uniform(-5, 5) for _ in range(m)]); k = c.int("k", 0, conc=lambda r: r.randint(0, int(ev(n)) - 1)); c.require(LT(k, n))
    for o in c.call("copied", x, y, n, x(k)):
        if c.returns(o): c.eq(o, "the given value", o.val, y(k), tol=1e-8, scale=1e2)
