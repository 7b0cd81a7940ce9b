from contract import *
from smt import PI
sin, cos = (lambda x: T.rebuild_app("sin", (x,), "R")), (lambda x: T.rebuild_app("cos", (x,), "R"))
def trig(a, u):
    t = a * PI / 180 if u == 0 else a
    return cos(t), sin(t)
AU = ["DEG", "RAD"]
ang = lambda u: (lambda r: r.choice([0.0, 90.0 if u == 0 else math.pi / 2, r.uniform(-360, 720) if u == 0 else r.uniform(-7, 13), r.uniform(-1, 1)]))
FORM = ["in place", "into another", "free function", "SetNEDFromLocal"]
def mk(fn, nm, sgn, nf):
    @unit(nm, ["mathutils::Vector2d::" + nm, "mathutils::" + nm, "mathutils::_GetTrigo"] + (["mathutils::Vector2d::SetNEDFromLocal"] if nf == 4 else []), conc=60)
    def _(c):
        x = c.real("x"); y = c.real("y")
        for u in (0, 1):
            a = c.real("a%d" % u, conc=ang(u)); C, S = trig(a, u)
            for f in range(nf):
                out = c.out("out", 2); src = c.out("src", 2)
                for o in c.call(fn, f, x, y, a, u, out, src):
                    if not c.returns(o): continue
                    c.eq(o, "x, %s %s" % (FORM[f], AU[u]), o.arr(out, 0), C * x - sgn * S * y)
                    c.eq(o, "y, %s %s" % (FORM[f], AU[u]), o.arr(out, 1), sgn * S * x + C * y)
                    if f in (1, 2):
                        c.eq(o, "source x unchanged", o.arr(src, 0), x); c.eq(o, "source y unchanged", o.arr(src, 1), y)
mk("l2n", "ProjectLocalOnNED", 1, 4); mk("n2l", "ProjectNEDOnLocal", -1, 3)
@unit("default unit is radians", ["mathutils::Vector2d::ProjectLocalOnNED", "mathutils::Vector2d::ProjectNEDOnLocal"], conc=60)
def _(c):
    x = c.real("x"); y = c.real("y"); a = c.real("a"); C, S = cos(a), sin(a); out = c.out("out", 10)
    for o in c.call("l2n_def", x, y, a, out):
        if c.returns(o):
            n, e, lx, ly = C * x - S * y, S * x + C * y, C * x + S * y, C * y - S * x
            for k, w in enumerate([n, e, lx, ly, n, e, lx, ly, n, e]): c.eq(o, "component %d" % k, o.arr(out, k), w)
@unit("round trips and length", ["mathutils::Vector2d::ProjectLocalOnNED", "mathutils::Vector2d::ProjectNEDOnLocal"], conc=60)
def _(c):
    x = c.real("x"); y = c.real("y")
    for u in (0, 1):
        a = c.real("a%d" % u, conc=ang(u))
        for f in (0, 1):
            out = c.out("out", 3)
            for o in c.call("roundtrip", f, x, y, a, u, out):
                if c.returns(o):
                    c.eq(o, "x back", o.arr(out, 0), x); c.eq(o, "y back", o.arr(out, 1), y); c.eq(o, "length kept", o.arr(out, 2), x * x + y * y, scale=x * x + y * y)
AX = ["ProjectOnNorthAxis", "ProjectOnEastAxis", "ProjectOnLocalXAxis", "ProjectOnLocalYAxis"]
@unit("axis components", ["mathutils::Vector2d::" + a for a in AX] + ["mathutils::" + a for a in AX], conc=60)
def _(c):
    x = c.real("x"); y = c.real("y")
    for u in (0, 1):
        a = c.real("a%d" % u, conc=ang(u)); C, S = trig(a, u)
        for f in (0, 1):
            for k, w in enumerate([C * x - S * y, S * x + C * y, C * x + S * y, C * y - S * x]):
                for o in c.call("axis", f, k, x, y, a, u):
                    if c.returns(o): c.eq(o, "%s %s" % (AX[k], AU[u]), o.val, w)
RS = [PI * 2, P(1), PI / 180, PI / 10800, None, PI / 30]
@unit("TransportAtPoint", ["mathutils::Vector2d::TransportAtPoint", "mathutils::TransportAtPoint", "mathutils::convert_frequency"], conc=60)
def _(c):
    x, y, px, py = c.real("x"), c.real("y"), c.real("px"), c.real("py"); w = c.real("w", conc=lambda r: r.choice([1.0, -2.0, r.uniform(0.1, 9)])); c.require(NE(w, 0))
    for f in range(4):
        for u in range(6 if f < 3 else 1):
            r = w if f == 3 else (PI * 2 / w if u == 4 else w * RS[u]); out = c.out("out", 2)
            for o in c.call("transport", f, x, y, px, py, w, u, out):
                if c.returns(o): c.eq(o, "x", o.arr(out, 0), x - py * r); c.eq(o, "y", o.arr(out, 1), y + px * r)
SPV = [P(1), P(Fraction(1852, 3600)), P(Fraction(1000, 3600))]
@unit("GetNEDVelocityVector", ["mathutils::GetNEDVelocityVector", "mathutils::convert_velocity_unit"], conc=40)
def _(c):
    x = c.real("x"); y = c.real("y")
    for u in (0, 1):
        a = c.real("a%d" % u, conc=ang(u)); C, S = trig(a, u)
        for i in range(3):
            for j in range(3):
                out = c.out("out", 2); r = SPV[i] / SPV[j]
                for o in c.call("nedvel", x, y, a, u, i, j, out):
                    if c.returns(o): c.eq(o, "north", o.arr(out, 0), (C * x - S * y) * r); c.eq(o, "east", o.arr(out, 1), (S * x + C * y) * r)
    out = c.out("out", 2); r = SPV[1]; a = c.real("a1"); C, S = trig(a, 1)
    for o in c.call("nedvel_def", x, y, a, out):
        if c.returns(o): c.eq(o, "north (defaults)", o.arr(out, 0), (C * x - S * y) * r); c.eq(o, "east (defaults)", o.arr(out, 1), (S * x + C * y) * r)
@unit("infNorm", ["mathutils::Vector2d::infNorm"], conc=60)
def _(c):
    x = c.real("x"); y = c.real("y"); ab = lambda v: ite(LT(v, 0), -v, v)
    for o in c.call("infnorm2", x, y):
        if c.returns(o): c.eq(o, "largest absolute component", o.val, ite(LT(ab(x), ab(y)), ab(y), ab(x)))
@unit("construction and access", ["mathutils::Vector2d::Vector2d", "mathutils::Vector2d::Set", "mathutils::Vector2d::SetNull", "mathutils::Vector2d::at", "mathutils::Vector2d::operator="], conc=40)
def _(c):
    x = c.real("x"); y = c.real("y"); out = c.out("out", 14)
    for o in c.call("basics", x, y, out):
        if c.returns(o):
            for k, w in enumerate([x, y, P(0), P(0), P(0), P(0), y, x, P(5), x, x + y + x, x, (x + y) * 2, (x - y) * 2]): c.eq(o, "value %d" % k, o.arr(out, k), w)
@unit("_GetTrigo", ["mathutils::_GetTrigo"], conc=60)
def _(c):
    for u in (0, 1):
        a = c.real("a%d" % u, conc=ang(u)); C, S = trig(a, u); out = c.out("out", 2)
        for o in c.call("trigo", a, u, out):
            if c.returns(o): c.eq(o, "cosine", o.arr(out, 0), C); c.eq(o, "sine", o.arr(out, 1), S)
