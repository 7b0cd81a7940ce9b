"""SMT back end: translation of canonical terms to z3 (and, on unknown, SMT-LIB to cvc5)."""
import math, time, subprocess, os
from fractions import Fraction
import z3
from terms import *
from terms import _intern, _bv, open_all, open_sum
import terms as T

STATS = {"z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0, "norm": 0, "z3": 0, "cvc5": 0}
SIG = {}          # app name -> string of I/R per polynomial argument
REALFUN = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sqrt", "exp", "log", "log10", "pow", "floor", "ceil", "fmod", "abs", "sinh", "cosh", "tanh", "inv", "round", "cbrt", "nearbyint"}

PI = sym("pi", "R")

class Tr:
    def __init__(self):
        self.pc, self.bc, self.ac, self.fc = {}, {}, {}, {}
        self.ax = {}          # atom -> list of z3 axioms (z3 exprs)
        self.strs = {}
    def strconst(self, s):
        if s not in self.strs: self.strs[s] = len(self.strs)
        return z3.IntVal(self.strs[s])
    def poly(self, p):
        """-> (z3 expr, isint)"""
        r = self.pc.get(p)
        if r is not None: return r
        terms = []
        allint = True
        for mono, c in p.m.items():
            fs = []
            isint = not isinstance(c, Fraction)
            for a, e in mono:
                z, zi = self.power(a, e)
                fs.append((z, zi)); isint = isint and zi
            terms.append((c, fs, isint)); allint = allint and isint
        out = []
        for c, fs, isint in terms:
            if allint:
                t = None
                for z, zi in fs: t = z if t is None else t * z
                if t is None: t = z3.IntVal(c)
                elif c != 1: t = z3.IntVal(c) * t
            else:
                t = None
                for z, zi in fs:
                    if zi: z = z3.ToReal(z)
                    t = z if t is None else t * z
                cv = z3.RealVal(str(c) if not isinstance(c, Fraction) else "%d/%d" % (c.numerator, c.denominator))
                t = cv if t is None else (t if c == 1 else cv * t)
            out.append(t)
        if not out: r = (z3.IntVal(0), True)
        elif len(out) == 1: r = (out[0], allint)
        else: r = (z3.Sum(out), allint)
        self.pc[p] = r
        return r
    def real(self, p):
        z, i = self.poly(p)
        return z3.ToReal(z) if i else z
    def power(self, a, e):
        z, zi = self.atom(a)
        if isinstance(e, int):
            if e == 1: return z, zi
            if e > 0:
                r = z
                for _ in range(e - 1): r = r * z
                return r, zi
            iv = self.invz(a, z, zi)
            r = iv
            for _ in range(-e - 1): r = r * iv
            return r, False
        key = ("pow", a, e)
        if key not in self.ac:
            ez, ei = self.poly(e)
            isint = a.sort == "I" or (a.kind == "num" and Fraction(a.args[0]).denominator == 1)
            f = z3.Function("sympow_%s" % ("b" if not ei else "i"), z3.RealSort(), z3.IntSort() if ei else z3.RealSort(), z3.RealSort())
            zz = z3.ToReal(z) if zi else z
            v = f(zz, ez)
            self.ac[key] = (v, False)
            if a.kind == "num" and Fraction(a.args[0]) > 0: self.ax.setdefault(a, []).append(v > 0)
        return self.ac[key]
    def invz(self, a, z, zi):
        key = ("inv", a)
        if key not in self.ac:
            zz = z3.ToReal(z) if zi else z
            f = z3.Function("recip", z3.RealSort(), z3.RealSort())
            v = f(zz)
            self.ac[key] = v
            self.ax.setdefault(a, []).append(z3.Implies(zz != 0, zz * v == 1))
        return self.ac[key]
    def atom(self, a):
        r = self.ac.get(a)
        if r is None:
            r = self._atom(a); self.ac[a] = r
        return r
    def _atom(self, a):
        if a.kind == "sym":
            nm = a.args[0]
            if a.sort == "I": return z3.Int(nm), True
            v = z3.Real(nm)
            if nm == "pi":
                self.ax.setdefault(a, []).append(z3.And(v > z3.RealVal("3.14159265358979"), v < z3.RealVal("3.14159265358980")))
            return v, False
        if a.kind == "num":
            c = Fraction(a.args[0])
            return z3.RealVal("%d/%d" % (c.numerator, c.denominator)), False
        if a.kind == "ind":
            b = self.bool(a.args[0])
            return z3.If(b, z3.IntVal(1), z3.IntVal(0)), True
        if a.kind == "poly":
            z, i = self.poly(a.args[0])
            return z, i
        if a.kind == "sum":
            v = (z3.Int if a.sort == "I" else z3.Real)("sum!%d" % a.id)
            fs = sorted(x for x in a.syms)
            return v, a.sort == "I"
        if a.kind == "app":
            nm = a.args[0]; args = []
            sig = SIG.get(nm); j = 0
            for x in a.args[1:]:
                if isinstance(x, Poly):
                    z, i = self.poly(x)
                    want = (sig[j] if sig and j < len(sig) else ("R" if nm in REALFUN else ("I" if i else "R")))
                    if want == "R" and i: z = z3.ToReal(z)
                    j += 1
                elif isinstance(x, Bool): z = self.bool(x)
                elif isinstance(x, tuple):
                    z = self.strconst(repr([y.key() if hasattr(y, "key") else y for y in x]))
                else: z = self.strconst(str(x))
                args.append(z)
            rs = z3.IntSort() if a.sort == "I" else z3.RealSort()
            if not args: v = z3.Const(nm, rs)
            else:
                k = (nm, tuple(str(z.sort()) for z in args), a.sort)
                if k not in self.fc: self.fc[k] = z3.Function("%s|%s" % (nm, "".join(s[0] for s in k[1])), *([z.sort() for z in args] + [rs]))
                v = self.fc[k](*args)
            ax = self.ax.setdefault(a, [])
            if nm in ("sin", "cos"):
                ax.append(z3.And(v <= 1, v >= -1))
                o = z3.Function("%s|R" % ("cos" if nm == "sin" else "sin"), z3.RealSort(), z3.RealSort())
                self.fc.setdefault(("cos" if nm == "sin" else "sin", ("Real",), "R"), o)
                o = self.fc[("cos" if nm == "sin" else "sin", ("Real",), "R")]
                ax.append(v * v + o(args[0]) * o(args[0]) == 1)
            elif nm == "sqrt": ax.append(z3.Implies(args[0] >= 0, z3.And(v >= 0, v * v == args[0])))
            elif nm == "exp": ax.append(v > 0)
            elif nm == "floor": ax.append(z3.And(z3.ToReal(v) <= args[0], args[0] < z3.ToReal(v) + 1))
            elif nm == "ceil": ax.append(z3.And(z3.ToReal(v) >= args[0], args[0] > z3.ToReal(v) - 1))
            elif nm == "tdiv":    # truncating integer division
                n, d = args
                ax.append(z3.Implies(z3.And(n >= 0, d > 0), z3.And(v * d <= n, n < v * d + d, v >= 0, v <= n)))
            elif nm == "fmodi":   # n mod d, n>=0,d>0
                n, d = args
                ax.append(z3.Implies(z3.And(n >= 0, d > 0), z3.And(v >= 0, v < d, v == n % d)))
            elif nm in AXIOMS:
                for p in AXIOMS[nm](*a.args[1:]): ax.append(self.bool(p))
            return v, a.sort == "I"
        raise TermError(a.kind)
    def bool(self, b):
        r = self.bc.get(b)
        if r is None:
            r = self._bool(b); self.bc[b] = r
        return r
    def _bool(self, b):
        k = b.kind
        if k == "true": return z3.BoolVal(True)
        if k == "false": return z3.BoolVal(False)
        if k in ("le", "lt", "eq"):
            z, i = self.poly(b.args[0])
            return z <= 0 if k == "le" else (z < 0 if k == "lt" else z == 0)
        if k == "not": return z3.Not(self.bool(b.args[0]))
        if k == "and": return z3.And(*[self.bool(x) for x in b.args])
        if k == "or": return z3.Or(*[self.bool(x) for x in b.args])
        if k == "bapp":
            args = []
            for x in b.args[1:]:
                if isinstance(x, Poly): args.append(self.poly(x)[0])
                elif isinstance(x, Bool): args.append(self.bool(x))
                else: args.append(self.strconst(str(x)))
            if not args: return z3.Bool(b.args[0])
            return z3.Function("%s|%s" % (b.args[0], "".join(str(z.sort())[0] for z in args)), *([z.sort() for z in args] + [z3.BoolSort()]))(*args)
        if k == "all":
            # opaque positive literal; instances are added explicitly
            return z3.Bool("all!%d" % b.id)
        raise TermError(k)

AXIOMS = {}       # app name -> function(args) -> list of Bool
TR = Tr()

def walk_atoms(x, seen):
    """all atoms (recursively, not through bound bodies) of polys/bools"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, Poly):
            for mono in y.m:
                for a, e in mono:
                    if not isinstance(e, int): st.append(e)
                    if a not in seen:
                        seen.add(a)
                        if a.kind == "app": st.extend(z for z in a.args[1:] if isinstance(z, (Poly, Bool, tuple)))
                        elif a.kind == "ind": st.append(a.args[0])
                        elif a.kind == "poly": st.append(a.args[0])
        elif isinstance(y, Bool):
            if y.kind == "all": continue
            st.extend(z for z in y.args if isinstance(z, (Poly, Bool, tuple)))
        elif isinstance(y, tuple): st.extend(z for z in y if isinstance(z, (Poly, Bool, tuple)))
    return seen

def facts_of(fs):
    out = []
    for f in fs:
        f = B(f)
        if f.kind == "and": out.extend(facts_of(f.args))
        elif f is not TRUE: out.append(f)
    return out

_inst = {}; _offs = {}
def instantiate(facts, goal, rounds=2, limit=400):
    """ground instances of the bounded universal facts at index terms of goal and facts"""
    alls = [f for f in facts if f.kind == "all"]
    # also universally quantified facts inside disjunctions are left opaque
    if not alls: return []
    out = []; done = set()
    ground = [f for f in facts if f.kind != "all"] + [goal]
    for r in range(rounds):
        atoms = set()
        for g in ground: walk_atoms(g, atoms)
        cands = {}
        for a in atoms:
            if a.kind == "app":
                for x in a.args[1:]:
                    if isinstance(x, Poly) and is_int(x): cands[x] = 1
            if a.kind == "sym" and a.sort == "I": cands[P(a)] = 1
        new = []
        for f in alls:
            lo, hi, body = f.args
            c = dict(cands); c[lo] = 1; c[hi - 1] = 1
            # anchors: index offsets used in the body
            bvs = _bv(f.hgt())
            offs = _offs.get(f)
            if offs is None:
                offs = _offs[f] = set()
                for a in walk_atoms(body, set()):
                    if a.kind == "app":
                        for x in a.args[1:]:
                            if isinstance(x, Poly) and bvs in x.syms():
                                l = T.lin(x, bvs)
                                if l and l[0] in (1, -1): offs.add((l[0], l[1]))
            terms = set(c)
            for (s, o) in offs:
                for t in list(c): terms.add((t - o) if s == 1 else (o - t))
            for t in terms:
                if len(t.m) > 4: continue
                key = (f, t)
                if key in done: continue
                done.add(key)
                if len(done) > limit: break
                I = _inst.get(key)
                if I is None: I = _inst[key] = Implies(And(LE(lo, t), LT(t, hi)), subst_b(body, {bvs: t}))
                new.append(I)
        if not new: break
        out += new; ground += new
    return out

TIMEOUT = 4000
RATE = 1500
DEFAX = {}
def _solver(fs, goal_neg, timeout):
    s = z3.Solver()
    s.set("timeout", timeout * 4); s.set("rlimit", timeout * RATE)      # the resource limit decides: it does not depend on the load
    zs = [TR.bool(f) for f in fs]
    zg = TR.bool(goal_neg) if goal_neg is not None else None
    atoms = set()
    for f in fs: walk_atoms(f, atoms)
    if goal_neg is not None: walk_atoms(goal_neg, atoms)
    axs = []; n = 0
    more = True
    for a in atoms:
        axs.extend(TR.ax.get(a, ()))
    for z in zs + axs: s.add(z)
    if zg is not None: s.add(zg)
    return s

_satcache = {}
def check(fs, goal_neg=None, timeout=None):
    """'sat' / 'unsat' / 'unknown' of conj(fs) and goal_neg"""
    fs = facts_of(fs)
    if FALSE in fs or goal_neg is FALSE: return "unsat", None
    key = (frozenset(fs), goal_neg)
    if key in _satcache: return _satcache[key]
    t0 = time.time()
    s = _solver(fs, goal_neg, timeout or TIMEOUT)
    r = str(s.check())
    STATS["z3_calls"] += 1; STATS["z3_time"] += time.time() - t0
    m = s.model() if r == "sat" else None
    _satcache[key] = (r, m)
    return r, m

# ---------------------------------------------------------------- nonlinear integer conditions, linearised
class _Lin:
    """products of integer atoms as variables; facts multiplied by non-negative factors (reformulation-linearisation)"""
    def __init__(self): self.mc = {}; self.bc = {}; self.pc = {}; self.pr = {}
    def mono(self, m):
        r = self.mc.get(m)
        if r is None: r = self.mc[m] = z3.Int("m!%d" % len(self.mc))
        return r
    def poly(self, p):
        r = self.pc.get(p)
        if r is not None: return r
        z = []
        for m, c in p.m.items():
            c = Fraction(c)
            if not m: z.append((None, c)); continue
            if any(not isinstance(e, int) or e < 0 or a.sort != "I" and a.kind != "ind" for a, e in m): raise TermError("not an integer monomial")
            z.append((m, c))
        d = 1
        for _, c in z: d = d * c.denominator // math.gcd(d, c.denominator)
        l = [z3.IntVal(int(c * d)) if m is None else (self.mono(m) if c * d == 1 else int(c * d) * self.mono(m)) for m, c in z]
        r = self.pc[p] = z3.Sum(l) if len(l) > 1 else (l[0] if l else z3.IntVal(0))
        return r
    def prod(self, p, q, neg):
        k = (p, q, neg); r = self.pr.get(k)
        if r is None: r = self.pr[k] = (self.poly(p * q) <= 0) if neg else (self.poly(p * q) >= 0)
        return r
    def bool(self, b):
        k = b.kind
        if k == "true": return z3.BoolVal(True)
        if k == "false": return z3.BoolVal(False)
        if k in ("le", "lt", "eq"):
            r = self.bc.get(b)
            if r is None:
                z = self.poly(b.args[0]); r = self.bc[b] = z <= 0 if k == "le" else (z < 0 if k == "lt" else z == 0)
            return r
        if k == "not": return z3.Not(self.bool(b.args[0]))
        if k == "and": return z3.And(*[self.bool(x) for x in b.args])
        if k == "or": return z3.Or(*[self.bool(x) for x in b.args])
        raise TermError(k)
LIN = _Lin()
def _nlm(b, out):
    if b.kind in ("le", "lt", "eq"):
        for m in b.args[0].m:
            if sum(e for a, e in m) > 1: out.add(m)
    elif b.kind in ("not", "and", "or"):
        for x in b.args: _nlm(x, out)
def _intonly(b):
    r = _io.get(b)
    if r is None:
        if b.kind in ("le", "lt", "eq"): r = is_int(b.args[0]) and all(a.kind in ("sym", "app") and a.sort == "I" and isinstance(e, int) and e > 0 for m in b.args[0].m for a, e in m)
        elif b.kind in ("not", "and", "or"): r = all(_intonly(x) for x in b.args)
        else: r = False
        _io[b] = r
    return r
_io = {}; _nlc = {}
def nonlinear(fs):
    return any(_isnl(f) for f in fs)
def _isnl(b):
    if b.kind in ("le", "lt", "eq"): return any(sum(e for a, e in m) > 1 for m in b.args[0].m)
    return b.kind in ("not", "and", "or") and any(_isnl(x) for x in b.args)
def lin_unsat(fs, extra):
    """True if the integer facts and `extra` are unsatisfiable already after linearisation"""
    its = [f for f in fs if _intonly(f)] + ([extra] if extra is not None else [])
    key = (frozenset(its), extra)
    if key in _nlc: return _nlc[key]
    t0 = time.time(); L = LIN; s = z3.Solver(); s.set("timeout", 2000); s.set("rlimit", 400 * RATE); nl = set()
    try:
        s.add(*[L.bool(f) for f in its])
        for f in its: _nlm(f, nl)
    except TermError: _nlc[key] = False; return False
    if str(s.check()) == "unsat": _nlc[key] = True; return True
    les = []
    for f in its:
        if f.kind == "le": les.append(f.args[0])
        elif f.kind == "eq": les += [f.args[0], -f.args[0]]
        elif f.kind == "not" and f.args[0].kind == "le": les.append(ONE - f.args[0].args[0])
    nonneg = set()
    for p in les:           # -v + c <= 0 with c >= 0
        if len(p.m) <= 2:
            ks = [m for m in p.m if m]
            if len(ks) == 1 and len(ks[0]) == 1 and ks[0][0][1] == 1 and p.m[ks[0]] < 0 and p.m.get((), 0) >= 0: nonneg.add(ks[0][0][0])
    parts = {}
    for m in nl:
        at = [a for a, e in m for _ in range(e)]
        for a in at:
            parts.setdefault(a, set()).update(at)
    n = 0
    for p in les:
        if any(sum(e for a, e in m) > 1 for m in p.m): continue
        sy = {a for m in p.m for a, e in m}
        fac = set()
        for a in sy: fac |= parts.get(a, set())
        for v in fac & nonneg:
            n += 1
            if n > 300: break
            s.add(L.prod(p, P(v), True))
    n = 0
    lin = [p for p in les if all(sum(e for a, e in m) <= 1 for m in p.m) and any(a in parts for m in p.m for a, e in m)][:24]
    for i, p in enumerate(lin):
        for q in lin[i:]:
            n += 1
            if n > 200: break
            s.add(L.prod(p, q, False))
    r = str(s.check()) == "unsat"
    STATS["z3_calls"] += 1; STATS["z3_time"] += time.time() - t0
    _nlc[key] = r
    return r

_dfc = {}
def deep_fn(f):
    """function names of a fact, under its quantifier too"""
    r = _dfc.get(f)
    if r is None:
        from loops import deep_names
        r = _dfc[f] = frozenset(deep_names(f))
    return r
def _apps(b): return any(a.kind in ("app", "sum") or a.sort != "I" for a in walk_atoms(b, set()))
def feasible(fs, extra=None, timeout=800):
    fs = facts_of(list(fs))
    if extra is not None:
        if extra is FALSE: return False
        if Not(extra) in fs if extra.kind not in ("and", "or") else False: return False
    if extra is not None and _intonly(extra):
        rel = relevant(fs, extra)
        if nonlinear([f for f in rel if _intonly(f)] + [extra]): 
            if lin_unsat(rel, extra): return False
            if not _apps(extra): return True
    if extra is not None and extra.kind not in ("all",) and len(fs) > 40:
        # first the facts about the same functions only
        own = _fnames(extra)
        if own:
            for n in list(own):
                if n.startswith("lb!") or n.startswith("ub!"):
                    for f in fs:
                        if f.kind == "all" and n in deep_fn(f): own = own | deep_fn(f)
            near = [f for f in fs if deep_fn(f) <= own]
            if len(near) < len(fs):
                near = relevant(near, extra)
                inst = instantiate(near, extra, rounds=1, limit=200)
                nf = near + inst
                if _intonly(extra) and nonlinear([f for f in nf if _intonly(f)] + [extra]) and lin_unsat(nf, extra): return False
                if check(nf, extra, 300)[0] == "unsat": return False
    inst = instantiate(fs, extra or TRUE, rounds=1, limit=60) if extra is None or _apps(extra) else []
    rel = relevant(fs + inst, extra) if extra is not None else fs + inst
    r, m = check(rel, extra, timeout)
    return r != "unsat"

def relevant(fs, goal):
    """facts connected with the goal through shared symbols"""
    if goal is None: return fs
    cur = set(goal.syms()); left = list(fs); out = []
    fn = _fnames(goal)
    ch = True
    while ch:
        ch = False; rest = []
        for f in left:
            if (f.syms() & cur) or (_fnames(f) & fn):
                out.append(f); cur |= f.syms(); fn |= _fnames(f); ch = True
            else: rest.append(f)
        left = rest
    return out

_fn_cache = {}
def _fnames(b):
    r = _fn_cache.get(b)
    if r is None:
        r = frozenset(a.args[0] for a in walk_atoms(b, set()) if a.kind == "app")
        _fn_cache[b] = r
    return r

def cvc5_check(fs, goal_neg, timeout=5000):
    fs = facts_of(fs)
    t0 = time.time()
    s = _solver(fs, goal_neg, timeout)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        r = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % timeout, "--nl-ext-tplanes", "-"], input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 5)
        o = r.stdout.strip().split("\n")[0]
    except Exception as e: o = "unknown"
    STATS["cvc5_calls"] += 1; STATS["cvc5_time"] += time.time() - t0
    return o if o in ("sat", "unsat") else "unknown"
