from contract import *
from smt import PI
KN, KH = Fraction(1852, 3600), Fraction(1000, 3600)
SP = ["MS", "KNOT", "KMH"]; SPV = [P(1), P(KN), P(KH)]
@unit("convert_velocity_unit", ["mathutils::convert_velocity_unit"])
def _(c):
    v = c.real("v")
    for a in range(3):
        for b in range(3):
            for o in c.call("cvel", v, a, b):
                if c.returns(o): c.eq(o, "%s->%s" % (SP[a], SP[b]), o.val, v * SPV[a] / SPV[b], scale=0)
        for o in c.call("cvel_ms", v, a):
            if c.returns(o): c.eq(o, "%s->default" % SP[a], o.val, v * SPV[a], scale=0)
@unit("velocity chain", ["mathutils::convert_velocity_unit"], conc=40)
def _(c):
    v = c.real("v")
    for a in range(3):
        for b in range(3):
            for d in range(3):
                for o in c.call("cvel_chain", v, a, b, d):
                    if c.returns(o): c.eq(o, "chain %s %s %s" % (SP[a], SP[b], SP[d]), o.val, v * SPV[a] / SPV[d], scale=0)
FQ = ["HERTZ", "RADS", "DEGS", "DEGM", "S", "RPM"]
HZ = [P(1), 1 / (PI * 2), P(Fraction(1, 360)), P(Fraction(1, 21600)), None, P(Fraction(1, 60))]
def tohz(v, a): return 1 / v if FQ[a] == "S" else v * HZ[a]
def fromhz(h, a): return 1 / h if FQ[a] == "S" else h / HZ[a]
nz = lambda r: r.choice([-1, 1]) * r.choice([1.0, 60.0, 360.0, r.uniform(1e-3, 10), 10 ** r.uniform(-6, 6)])
@unit("convert_frequency", ["mathutils::convert_frequency"], waive=())
def _(c):
    v = c.real("v", conc=nz); c.require(NE(v, 0))
    for a in range(6):
        for b in range(6):
            for o in c.call("cfreq", v, a, b):
                if c.returns(o): c.eq(o, "%s->%s" % (FQ[a], FQ[b]), o.val, fromhz(tohz(v, a), b), scale=0)
@unit("convert_frequency of zero", ["mathutils::convert_frequency"], conc=1)
def _(c):
    for a in range(6):
        for b in range(6):
            if (a == 4) != (b == 4) : continue
            if a == 4: continue
            for o in c.call("cfreq", P(0), a, b):
                if c.returns(o): c.eq(o, "%s->%s of 0" % (FQ[a], FQ[b]), o.val, P(0))
@unit("frequency chain", ["mathutils::convert_frequency"], conc=15)
def _(c):
    v = c.real("v", conc=nz); c.require(NE(v, 0))
    for a in range(6):
        for b in range(6):
            for d in range(6):
                for o in c.call("cfreq_chain", v, a, b, d):
                    if c.returns(o): c.eq(o, "chain %s %s %s" % (FQ[a], FQ[b], FQ[d]), o.val, fromhz(tohz(v, a), d), scale=0)
U = {"KNOT2MS": lambda v: v * KN, "MS2KNOT": lambda v: v / KN, "KMH2MS": lambda v: v * KH, "MS2KMH": lambda v: v / KH, "KMH2KNOT": lambda v: v * KH / KN, "KNOT2KMH": lambda v: v * KN / KH,
     "DEGS2RADS": lambda v: v * PI / 180, "RADS2DEGS": lambda v: v * 180 / PI, "HZ2RADS": lambda v: v * PI * 2, "RADS2HZ": lambda v: v / (PI * 2), "HZ2S": lambda v: 1 / v, "S2HZ": lambda v: 1 / v,
     "RADS2S": lambda v: PI * 2 / v, "S2RADS": lambda v: PI * 2 / v, "RPM2RADS": lambda v: v * PI / 30, "RADS2RPM": lambda v: v * 30 / PI, "DEGM2RADS": lambda v: v * PI / 10800, "RADS2DEGM": lambda v: v * 10800 / PI}
@unit("named conversions", ["mathutils::" + k for k in U])
def _(c):
    v = c.real("v", conc=nz); c.require(NE(v, 0))
    for k, f in U.items():
        for o in c.call("f_" + k, v):
            if c.returns(o): c.eq(o, k, o.val, f(v), scale=0)
def mkv(op, copy):
    nm = ["deg2rad", "rad2deg", "kt2ms"][op]; r = [PI / 180, 180 / PI, P(KN)][op]
    @unit("%s(vector%s)" % (nm, ", out" if copy else ""), ["mathutils::" + nm], bounds=[{"n": k, "m": j} for k, j in ((0, 0), (1, 3), (3, 1), (4, 4))], conc=80)
    def _(c):
        n = c.int("n"); m = c.int("m"); a = c.vec("a", n); out = c.out("out", n); src = c.out("src", n)
        for o in c.call("vconv", op, copy, a, n, m, out, src):
            if c.returns(o):
                c.eq(o, "length", o.val, n)
                c.all_eq(o, "element", 0, n, lambda k: (o.arr(out, k), a(k) * r))
                if copy: c.all_eq(o, "source unchanged", 0, n, lambda k: (o.arr(src, k), a(k)))
for op in range(3):
    for cp in (0, 1): mkv(op, cp)
