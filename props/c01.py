from contract import *
from smt import PI
import math, struct, mpmath
D2PI = 2 * math.pi
LEVEL_NOTE = "interval membership: IEEE binary64 proof for every finite double (z3 FloatingPoint; fmod by its exact specification); whole turns: proved over the reals and run on doubles (rounding bound)"
def angles(m):
    def pick(r):
        k = r.choice(range(10))
        def nb(x, n): 
            for _ in range(abs(n)): x = math.nextafter(x, math.inf if n > 0 else -math.inf)
            return x
        if k == 0: return r.choice([-1, 1]) * 10.0 ** r.uniform(-320, -10)
        if k == 1: return r.choice([-1, 1]) * 10.0 ** r.uniform(3, 300)
        if k == 2: return m / 2 * r.randrange(-9, 10)
        if k == 3: return nb(m / 2 * r.randrange(-5, 6), r.randrange(-3, 4))
        if k == 4: return m / 2 * r.randrange(-10 ** 6, 10 ** 6)
        if k == 5: return nb(r.choice([-1.0, 1.0]) * 2.0 ** r.randrange(-60, 80) * m, r.randrange(-2, 3))
        if k == 6: return r.choice([0.0, -0.0, m, -m, m / 2, -m / 2, -5e-324, 1.7976931348623157e308, -1.7976931348623157e308])
        return r.uniform(-4 * m, 4 * m)
    return pick
def hexc(x): return app("fp#%s" % struct.pack(">d", x).hex())
def F(c, pred, x, y):
    """IEEE comparison, in the proof over FloatingPoint and on the values a run returned"""
    if c.mode == "conc":
        u, v = float(ev(P(x))), (y if isinstance(y, float) else float(ev(P(y))))
        return B({"lt": u < v, "le": u <= v, "gt": u > v, "ge": u >= v, "eq": u == v}[pred])
    return bapp("fcmp_o" + pred, x, hexc(y) if isinstance(y, float) else y)
FNS = [("n0360", "mathutils::Normalize_0_360", 360.0, 0.0, False), ("n180", "mathutils::Normalize__180_180", 360.0, -180.0, True),
       ("n02pi", "mathutils::Normalize_0_2PI", D2PI, 0.0, False), ("npi", "mathutils::Normalize__PI_PI", D2PI, -math.pi, True)]
def mk(fn, cov, m, lo, leftopen):
    hi = lo + m
    @unit(fn + " interval (binary64)", [cov], fp=True, conc=3000)
    def _(c):
        a = c.real("a", conc=angles(m))
        if c.mode != "conc": c.require(bapp("fcmp_ole", app("fabs64", a), hexc(1.7976931348623157e308)))
        for o in c.call(fn, a):
            if c.returns(o):
                c.ensure(o, "lower end %s" % ("excluded" if leftopen else "included"), F(c, "gt" if leftopen else "ge", o.val, lo))
                c.ensure(o, "upper end %s" % ("included" if leftopen else "excluded"), F(c, "le" if leftopen else "lt", o.val, hi))
    @unit(fn + " whole turns", [cov], conc=3000)
    def _(c):
        if c.mode == "conc":
            a = c.real("a", conc=angles(m))
            for o in c.call(fn, a):
                if c.returns(o):
                    x, r, M = Fraction(a.const()), Fraction(o.val.const()), Fraction(m)
                    if leftopen and abs(x) >= 2 ** 60: continue          # the half-turn offset rounds: one ulp of the input is whole turns
                    k = round((r - x) / M)
                    tol = Fraction(math.ulp(float(x))) * (1 if leftopen else 0) + Fraction(math.ulp(m)) * 2
                    c.ensure(o, "differs from the input by a whole number of turns", B(abs(r - x - k * M) <= tol))
                    inside = (lo < x <= hi) if leftopen else (lo <= x < hi)
                    if inside: c.ensure(o, "an angle of the interval is left where it is", B(abs(r - x) <= tol))
        else:
            t = c.real("t"); K = c.int("K", -2 ** 60, 2 ** 60); M = P(360) if m == 360.0 else PI * 2
            # K whole turns separate t from the interval
            if leftopen: c.require(LT(K - Fraction(1, 2), t), LE(t, K + Fraction(1, 2)))
            else: c.require(LE(K, t), LT(t, K + 1))
            for o in c.call(fn, t * M):
                if c.returns(o): c.eq(o, "the angle of the interval in the same direction", o.val, (t - K) * M)
for f in FNS: mk(*f)
for fn, cov, m in (("m360", "mathutils::modulo360", 360.0), ("m2pi", "mathutils::modulo2pi", D2PI)):
    @unit(fn, [cov], fp=True, conc=500)
    def _(c, fn=fn, m=m):
        a = c.real("a", conc=angles(m))
        if c.mode != "conc": c.require(bapp("fcmp_ole", app("fabs64", a), hexc(1.7976931348623157e308)))
        for o in c.call(fn, a):
            if c.returns(o):
                c.ensure(o, "below one turn", And(F(c, "lt", o.val, m), F(c, "gt", o.val, -m)))
                if c.mode == "conc":
                    x, r = Fraction(a.const()), Fraction(o.val.const())
                    c.ensure(o, "differs by a whole number of turns", B(((x - r) / Fraction(m)).denominator == 1))
                else: c.ensure(o, "an angle below one turn is unchanged", Or(Not(bapp("fcmp_olt", app("fabs64", a), hexc(m))), F(c, "eq", o.val, a)))
@unit("_GetTrigo", ["mathutils::_GetTrigo"])
def _(c):
    a = c.real("a", conc=lambda r: r.choice([0.0, 30.0, 45.0, 60.0, 90.0, 180.0, 270.0, r.uniform(-720, 720)]))
    for deg in (0, 1):
        x = a * PI / 180 if deg else a
        for o in c.call("gtcos", a, deg):
            if c.returns(o): c.eq(o, "cosine", o.val, T.rebuild_app("cos", (x,), "R"))
        for o in c.call("gtsin", a, deg):
            if c.returns(o): c.eq(o, "sine", o.val, T.rebuild_app("sin", (x,), "R"))
    for o in c.call("gtcosr", a):
        if c.returns(o): c.eq(o, "radians by default", o.val, T.rebuild_app("cos", (a,), "R"))
@unit("STRING2ANGLE", ["mathutils::STRING2ANGLE"], conc=2)
def _(c):
    for w in range(5):
        for o in c.call("s2a", w):
            if c.kinds(o, ret=B(w < 2), exit=B(w >= 2)) and o.kind == "ret": c.eq(o, "unit", o.val, P(1 if w == 0 else 0))
