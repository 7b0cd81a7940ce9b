"""Obligations over IEEE binary64: z3's FloatingPoint theory (round to nearest even), no abstraction of the arithmetic.
fmod is not bit-blasted: it is replaced by consequences of its exact specification (trusted, ISO C F.10.7.1: the result is exact)."""
import z3, struct, math, time
from fractions import Fraction
from terms import *
import smt
from prove import Res
D = z3.Float64(); RNE = z3.RNE()
def fpc(x): return z3.FPVal(x, D)
class Untranslatable(Exception): pass
def ulp(m): return math.ldexp(1.0, math.frexp(m)[1] - 53)
class Tr:
    def __init__(self): self.ax, self.memo = [], {}
    def num(self, p):
        p = P(p)
        c = p.const()
        if c is not None:
            f = float(c)
            if Fraction(f) != Fraction(c): raise Untranslatable("constant %s" % c)
            return fpc(f)
        a = p.single_atom()
        if a is None: raise Untranslatable(p.key()[:80])
        if a in self.memo: return self.memo[a]
        r = self.memo[a] = self._atom(a); return r
    def _atom(self, a):
        if a.kind == "sym": return z3.FP(a.key(), D)
        if a.kind != "app": raise Untranslatable(a.key()[:80])
        n = a.args[0]
        if n.startswith("fp#"): return fpc(struct.unpack(">d", bytes.fromhex(n[3:]))[0])
        if n == "i2fp":
            c = P(a.args[1]).const()
            if c is None: raise Untranslatable("integer conversion")
            return fpc(float(c))
        x = [self.num(y) for y in a.args[1:]]
        if n == "fadd64": return z3.fpAdd(RNE, *x)
        if n == "fsub64": return z3.fpSub(RNE, *x)
        if n == "fmul64": return z3.fpMul(RNE, *x)
        if n == "fdiv64": return z3.fpDiv(RNE, *x)
        if n == "fneg64": return z3.fpNeg(x[0])
        if n == "fabs64": return z3.fpAbs(x[0])
        if n == "floor64": return z3.fpRoundToIntegral(z3.RTN(), x[0])
        if n == "ceil64": return z3.fpRoundToIntegral(z3.RTP(), x[0])
        if n in ("fmod64", "frem64"):
            m = z3.simplify(x[1])
            if not z3.is_fp_value(m): raise Untranslatable("fmod by a variable")
            mv = struct.unpack(">d", z3.simplify(z3.fpToIEEEBV(m)).as_long().to_bytes(8, "big"))[0]
            if m.isNegative() or not (1e-300 < mv < 1e300): raise Untranslatable("fmod modulus")
            r = z3.FP("fmod!%d" % a.id, D); v = x[0]
            fin = z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)))
            small = z3.fpLT(z3.fpAbs(v), m)
            self.ax += [z3.Implies(fin, z3.And(z3.Not(z3.fpIsNaN(r)), z3.fpLT(z3.fpAbs(r), m), z3.fpIsNegative(r) == z3.fpIsNegative(v))),
                        z3.Implies(z3.And(fin, small), r == v),
                        # |a| >= m: a and m are multiples of ulp(m), so is the (exact) remainder
                        z3.Implies(z3.And(fin, z3.Not(small)), z3.Or(z3.fpIsZero(r), z3.fpGEQ(z3.fpAbs(r), fpc(ulp(mv))))),
                        z3.Implies(z3.Not(fin), z3.fpIsNaN(r))]
            return r
        raise Untranslatable(n)
    def b(self, g):
        k = g.kind
        if k == "true": return z3.BoolVal(True)
        if k == "false": return z3.BoolVal(False)
        if k == "not": return z3.Not(self.b(g.args[0]))
        if k == "and": return z3.And(*[self.b(x) for x in g.args])
        if k == "or": return z3.Or(*[self.b(x) for x in g.args])
        if k == "bapp":
            n = g.args[0]; x = [self.num(y) for y in g.args[1:]]
            if n == "fisnan": return z3.fpIsNaN(x[0])
            if n == "fisinf": return z3.fpIsInf(x[0])
            if n == "fsame": return x[0] == x[1]
            if n.startswith("fcmp_"):
                p = n[5:]
                un = z3.Or(z3.fpIsNaN(x[0]), z3.fpIsNaN(x[1]))
                if p == "uno": return un
                if p == "ord": return z3.Not(un)
                if p[1:] == "ne": o = z3.And(z3.Not(un), z3.Not(z3.fpEQ(*x)))
                else: o = {"eq": z3.fpEQ, "lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ}[p[1:]](*x)
                return o if p[0] == "o" else z3.Or(un, o)
        raise Untranslatable(g.key()[:80])
def has_fp(b):
    if b.kind == "bapp" and (b.args[0].startswith("fcmp_") or b.args[0] in ("fisnan", "fisinf", "fsame")): return True
    return b.kind in ("and", "or", "not") and any(has_fp(x) for x in b.args)
def prove_fp(facts, goal, budget=60.0):
    t = Tr(); t0 = time.time()
    try:
        fs = [t.b(f) for f in facts]; g = t.b(goal)
    except Untranslatable as e: return Res("unknown", "z3-fp", "no FloatingPoint translation: %s" % e)
    s = z3.SolverFor("QF_FP"); s.set("timeout", int(budget * 1000))
    s.add(*fs); s.add(z3.Not(g)); s.add(*t.ax)
    r = s.check()
    smt.STATS["z3"] += r == z3.unsat; smt.STATS["z3_calls"] += 1; smt.STATS["z3_time"] += time.time() - t0
    if r == z3.unsat: return Res("proved", "z3-fp")
    if r == z3.sat:
        m = s.model(); R = Res("refuted", "z3-fp", ", ".join("%s=%s" % (d.name(), m[d]) for d in m.decls())[:400]); R.model = {}
        for d in m.decls():
            v = m[d]
            if z3.is_fp_value(v) and "!" not in d.name() and not v.isNaN() and not v.isInf():
                bv = z3.simplify(z3.fpToIEEEBV(v)).as_long(); f = Fraction(struct.unpack(">d", bv.to_bytes(8, "big"))[0]); R.model[d.name()] = "%d/%d" % (f.numerator, f.denominator)
        return R
    return Res("unknown", "z3-fp", s.reason_unknown())
