"""Contracts: one Python description per function under contract, used three ways
   sym   - obligations for all inputs and sizes (deductive proof)
   bnd   - the same obligations with the sizes fixed to small constants (bounded stand-in, counterexample search)
   conc  - evaluated on concrete inputs against the compiled real code (replay of counterexamples, conformance)"""
import itertools, os, sys, json, time, random, subprocess, select, signal, math, struct
from fractions import Fraction
import mpmath
from eigenm import *
import boostm
from irparse import Module
import terms as T, smt, prove as PR, execu
from terms import *
from terms import open_sum, Subst, mk_sum
from values import *

mpmath.mp.prec = 200
UNITS = []
class Unit: pass
def unit(name, covers=(), bounds=None, conc=200, waive=(), fp=False, budget=150, uses=(), tier="quick", trust=(), sym=True):
    """bounds: list of dicts size-name -> value for bounded runs"""
    def d(f):
        u = Unit(); u.name, u.fn, u.covers, u.bounds, u.conc, u.waive, u.fp, u.budget, u.uses, u.tier, u.trust, u.sym = name, f, list(covers), bounds, conc, set(waive), fp, budget, uses, tier, list(trust), sym
        UNITS.append(u); return f
    return d

class Reject(Exception): pass
class Fail(Exception): pass

# ------------------------------------------------------------------ numeric evaluation of closed terms
NUMFUN = {"sin": mpmath.sin, "cos": mpmath.cos, "tan": mpmath.tan, "asin": mpmath.asin, "acos": mpmath.acos, "atan": mpmath.atan,
          "atan2": mpmath.atan2, "sqrt": mpmath.sqrt, "exp": mpmath.exp, "log": mpmath.log, "log10": mpmath.log10, "pow": mpmath.power,
          "floor": mpmath.floor, "ceil": mpmath.ceil, "sinh": mpmath.sinh, "cosh": mpmath.cosh, "tanh": mpmath.tanh}
NUMFUN.update(boostm.NUM)
class NumErr(Exception): pass
def mpc(c):
    if isinstance(c, Fraction): return mpmath.mpf(c.numerator) / c.denominator
    return mpmath.mpf(c)
def ev(p, env=None):
    """value of a closed term (mpmath)"""
    if isinstance(p, Bool): return ev_b(p, env)
    s = mpmath.mpf(0)
    for mono, c in p.m.items():
        v = mpc(c)
        for a, e in mono:
            x = ev_atom(a, env)
            if isinstance(e, int): v = v * (x if e == 1 else (x ** e if (x != 0 or e > 0) else mpmath.nan))
            else:
                ee = ev(e, env); v = v * mpmath.power(x, ee)
            if v == 0 and not mpmath.isnan(x): break
        s += v
    return s
def ev_atom(a, env):
    if a.kind == "sym":
        if a.args[0] == "pi": return +mpmath.pi
        if env and a in env: return env[a]
        raise NumErr("free symbol " + a.args[0])
    if a.kind == "num": return mpc(a.args[0])
    if a.kind == "ind": return mpmath.mpf(1 if ev_b(a.args[0], env) else 0)
    if a.kind == "poly": return ev(a.args[0], env)
    if a.kind == "app":
        nm = a.args[0]
        if nm == "nan": return mpmath.nan
        if nm == "inf": return mpmath.inf
        args = [ev(x, env) if isinstance(x, (Poly, Bool)) else x for x in a.args[1:]]
        f = CONC_FUN.get(nm) or NUMFUN.get(nm)
        if f is None: raise NumErr("no evaluation of " + nm)
        r = f(*args)
        if isinstance(r, mpmath.mpc): r = mpmath.nan
        return mpmath.mpf(r)
    if a.kind == "sum":
        v, hi, body = open_sum(a); h = ev(hi, env); s = mpmath.mpf(0)
        for j in range(int(h)): s += ev(subst(body, {v.single_atom(): P(j)}), env)
        return s
    raise NumErr(a.kind)
def ev_b(b, env=None, tol=None):
    k = b.kind
    if k == "true": return True
    if k == "false": return False
    if k in ("le", "lt", "eq"):
        v = ev(b.args[0], env)
        if mpmath.isnan(v): return False
        if tol is not None:
            return v <= tol if k != "eq" else abs(v) <= tol
        return v <= 0 if k == "le" else (v < 0 if k == "lt" else v == 0)
    if k == "not":
        if tol is not None: return ev_b(Not(b.args[0]), env, tol) if b.args[0].kind in ("le", "lt") else not ev_b(b.args[0], env)
        return not ev_b(b.args[0], env)
    if k == "and": return all(ev_b(x, env, tol) for x in b.args)
    if k == "or": return any(ev_b(x, env, tol) for x in b.args)
    if k == "all":
        v, lo, hi, body = T.open_all(b)
        return all(ev_b(subst_b(body, {v.single_atom(): P(j)}), env, tol) for j in range(int(ev(lo, env)), int(ev(hi, env))))
    raise NumErr(k)
CONC_FUN = {}

def fl(x):
    """Poly of a machine double"""
    if math.isnan(x): return app("nan")
    if math.isinf(x): return app("inf") if x > 0 else -app("inf")
    return P(Fraction(x))
def tofloat(v): return float(v)

# ------------------------------------------------------------------ the compiled library
class Lib:
    def __init__(self, so): self.so = so; self.p = None; self.calls = 0
    def start(self):
        a, b = os.pipe(); c, d = os.pipe()
        dn = open(os.devnull, "r+b")
        self.p = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "server.py"), self.so, str(a), str(d)],
                                  pass_fds=(a, d), stdin=dn, stdout=dn, stderr=dn, cwd="/tmp")
        os.close(a); os.close(d); dn.close()
        self.w = os.fdopen(b, "w"); self.r = os.fdopen(c, "r")
    def stop(self):
        if self.p:
            self.p.kill(); self.p.wait(); self.p = None
            for x in (self.w, self.r):
                try: x.close()
                except Exception: pass
    def call(self, fn, rt, args):
        if self.p is None: self.start()
        self.calls += 1
        try:
            self.w.write(json.dumps({"fn": fn, "ret": rt, "args": args}) + "\n"); self.w.flush()
            rl, _, _ = select.select([self.r], [], [], 60)
            if not rl:
                self.stop(); return "hang", None, None
            line = self.r.readline()
        except BrokenPipeError: line = ""
        if not line:
            self.p.wait(); rc = self.p.returncode; self.p = None
            for x in (self.w, self.r):
                try: x.close()
                except Exception: pass
            if rc == 77: return "throw", None, None
            if rc is not None and rc >= 0: return "exit", rc, None
            if rc == -signal.SIGABRT: return "abort", None, None
            return "crash", rc, None
        q = json.loads(line)
        dec = lambda x: float.fromhex(x) if isinstance(x, str) else x
        return "ret", dec(q["ret"]), [[dec(x) for x in a] for a in q["outs"]]

# ------------------------------------------------------------------ inputs
class Vec:
    """input array of doubles: v(k)"""
    def __init__(self, c, name, n, vals=None, kind="d"): self.c, self.name, self.n, self.vals, self.kind = c, name, P(n), vals, kind
    def __call__(self, k):
        k = P(k); j = k.const()
        if self.vals is not None:
            if j is not None: return self.vals[int(j)] if 0 <= j < len(self.vals) else app("undef_elem")
        return app(self.name, k, sort="R" if self.kind == "d" else "I")
class OutArr:
    def __init__(self, name, cap, kind="d", dims=None): self.name, self.cap, self.kind, self.dims = name, P(cap), kind, dims
class Ten:
    """input tensor of doubles (2 or 3 indices), row major in memory"""
    def __init__(self, c, name, dims, vals=None): self.c, self.name, self.dims, self.vals = c, name, [P(d) for d in dims], vals
    def __call__(self, *k):
        k = [P(x) for x in k]; j = [x.const() for x in k]
        if self.vals is not None and all(x is not None for x in j):
            return self.vals.get(tuple(int(x) for x in j), app("undef_elem"))
        return app(self.name, *k)
@hook("vp_at2", "vp_at3")
def h_at(ex, st, f, a, I):
    nm = st.objs[a[0].obj].name
    n = 2 if f.key == "vp_at2" else 3
    return T.rebuild_app(nm, tuple(ex.inum(x) for x in a[1:1 + n]), "R")
@hook("vp_put2")
def h_put(ex, st, f, a, I):
    o = st.w(a[0].obj); i, j = ex.inum(a[1]), ex.inum(a[2])
    if not ex.ask(st, And(LT(i, ex.inum(a[3])), LT(j, ex.inum(a[4])))): return ret(st)
    sz, v = o.cells[0]
    o.cells[0] = (sz, v.set((i, j), ex.num(a[5])))
    return ret(st)
class UFun:
    def __init__(self, name, nargs, desc=None): self.name, self.nargs, self.desc = name, nargs, desc
    def __call__(self, *x): return app(self.name, *[P(y) for y in x])

class Out:
    def __init__(self, ctx, kind, val, st=None, outs=None, exc=None): self.ctx, self.kind, self.val, self.st, self.outs, self.exc = ctx, kind, val, st, outs, exc
    def arr(self, o, k):
        k = P(k)
        if self.ctx.mode == "conc":
            a = self.outs[o.name]; j = k.const()
            if j is None: raise NumErr("symbolic index of concrete output")
            return a[int(j)] if 0 <= j < len(a) else app("nan")
        v = self.st.objs[o.obj].cells[0][1]
        return v.get(k)
    def arr2(self, o, i, j):
        i, j = P(i), P(j)
        if self.ctx.mode == "conc":
            a = self.outs[o.name]; ny = int(ev(o.dims[1]))
            return a[int(i.const()) * ny + int(j.const())]
        return self.st.objs[o.obj].cells[0][1].get(i, j)

class Ctx:
    def __init__(self, mode, unit, mod=None, lib=None, rng=None, sizes=None, forced=None, contracts=None, case=0, budget=150):
        self.mode, self.unit, self.mod, self.lib, self.rng, self.sizes, self.forced = mode, unit, mod, lib, rng, sizes or {}, forced or {}
        self.assume = []; self.inputs = {}; self.case = case
        self.obls = []; self.ex = None; self.contracts = contracts; self.nout = 0; self.fails = []; self.checked = 0; self.budget = budget
        self.tol = Fraction(1, 10**9); self.execs = []; self.trivial = 0
    # ---- declarations
    def require(self, *bs):
        for b in bs:
            if self.mode == "conc":
                if not ev_b(b): raise Reject()
            else: self.assume.append(B(b))
    def int(self, name, lo=0, hi=None, conc=None):
        """integer input; conc: callable(rng) or list"""
        if name in self.sizes and self.mode == "bnd": v = P(self.sizes[name]); self.inputs[name] = v; return v
        if self.mode == "conc":
            if name in self.forced: v = int(self.forced[name])
            elif conc is not None: v = conc(self.rng) if callable(conc) else self.rng.choice(list(conc))
            else:
                h = hi if isinstance(hi, int) else lo + 7
                r = self.rng.random()
                v = self.rng.randint(lo, min(h, lo + 6)) if r < 0.9 else self.rng.randint(lo, min(h, lo + 25) if isinstance(hi, int) else lo + 25)
            if v < lo or (hi is not None and isinstance(hi, int) and v > hi): raise Reject()
            self.inputs[name] = P(v); return P(v)
        s = sym(name, "I"); self.inputs[name] = s
        self.assume.append(LE(lo, s))
        self.assume.append(LE(s, LIM if hi is None else hi))
        return s
    def choice(self, name, values):
        """a parameter run over all its values (finite case split done by the caller)"""
        raise NotImplementedError
    def _rnd(self, lo, hi):
        r = self.rng
        t = r.random()
        if lo is not None and hi is not None:
            if t < 0.08: return float(lo)
            if t < 0.16: return float(hi)
            if t < 0.3: return (lo + hi) / 2.0
            return r.uniform(float(lo), float(hi))
        if t < 0.12: v = 0.0
        elif t < 0.3: v = float(r.randint(-4, 4))
        elif t < 0.4: v = r.randint(-9, 9) / 2.0
        elif t < 0.9: v = r.uniform(-3, 3)
        else: v = r.uniform(-1, 1) * 10 ** r.randint(-3, 3)
        if lo is not None: v = float(lo) + abs(v)
        if hi is not None: v = float(hi) - abs(v)
        return v
    def real(self, name, lo=None, hi=None, conc=None):
        if self.mode == "conc":
            if name in self.forced: v = float(self.forced[name])
            elif conc is not None:
                v = conc(self.rng) if callable(conc) else self.rng.choice(list(conc))
                if isinstance(v, Poly): v = float(ev(v))
            else: v = self._rnd(lo, hi)
            v = float(v)
            self.inputs[name] = P(Fraction(v)) if math.isfinite(v) else fl(v)
            if lo is not None and v < lo or hi is not None and v > hi: raise Reject()
            return self.inputs[name]
        s = sym(name, "R"); self.inputs[name] = s
        if lo is not None: self.assume.append(LE(lo, s))
        if hi is not None: self.assume.append(LE(s, hi))
        return s
    def vec(self, name, n, incr=False, lo=None, hi=None, conc=None):
        n = P(n); c = n.const()
        smt.SIG[name] = "I"
        if self.mode == "conc":
            m = int(c)
            if name in self.forced: vals = [float(x) for x in self.forced[name]][:m]; vals += [0.0] * (m - len(vals))
            elif conc is not None: vals = [float(x) for x in conc(self.rng, m)]
            elif incr:
                x = self._rnd(None, None); vals = []
                uni = self.rng.random() < 0.3; step = self.rng.choice([0.5, 1.0, 0.25, 0.1, 2.0])
                for _ in range(m):
                    vals.append(x); x += step if uni else self.rng.choice([0.5, 1.0, self.rng.uniform(0.01, 2), self.rng.uniform(0.1, 1)])
            else: vals = [self._rnd(lo, hi) for _ in range(m)]
            v = Vec(self, name, n, [fl(x) for x in vals]); v.raw = vals
            self.inputs[name] = v
            T.APP_EVAL[name] = lambda k, _v=v: (_v(k) if k.const() is not None else None)
            return v
        if c is not None:
            vals = [sym("%s[%d]" % (name, j)) for j in range(int(c))]
            v = Vec(self, name, n, vals)
            T.APP_EVAL[name] = lambda k, _v=v: (_v(k) if k.const() is not None else None)
        else:
            T.APP_EVAL.pop(name, None)
            v = Vec(self, name, n)
        self.inputs[name] = v
        k = fresh("q", "I")
        if incr: self.assume.append(Forall(k, 0, n - 1, LT(v(k), v(k + 1))) if c is None else And(*[LT(vals[j], vals[j + 1]) for j in range(int(c) - 1)]))
        if incr and c is None:      # lemma: transitivity of < along the chain
            self.assume.append(Forall(k, 1, n, LT(v(0), v(k)))); self.assume.append(Forall(k, 0, n - 1, LT(v(k), v(n - 1))))
        if lo is not None or hi is not None:
            if c is None: self.assume.append(Forall(k, 0, n, And(LE(lo, v(k)) if lo is not None else TRUE, LE(v(k), hi) if hi is not None else TRUE)))
            else:
                for x in vals: self.assume.append(And(LE(lo, x) if lo is not None else TRUE, LE(x, hi) if hi is not None else TRUE))
        return v
    def ivec(self, name, vals):
        """constant integer array argument"""
        v = Vec(self, name, P(len(vals)), [P(x) for x in vals], kind="i"); v.raw = list(vals); return v
    def ufun(self, name, nargs=1, desc=None):
        if self.mode == "conc":
            if desc is None:
                if self.rng.random() < 0.7:
                    deg = self.rng.randint(0, 3)
                    d = ("poly", [[self.rng.uniform(-2, 2)] + [self.rng.randint(0, deg) for _ in range(nargs)] for _ in range(self.rng.randint(1, 4))])
                else: d = (self.rng.choice(["sin", "cos"]), [self.rng.uniform(-2, 2) for _ in range(nargs + 1)])
            else: d = desc(self.rng)
            import server
            if d[0] == "poly":
                def f(*x, c=d[1]):
                    s = mpmath.mpf(0)
                    for t in c:
                        v = mpmath.mpf(t[0])
                        for xi, e in zip(x, t[1:]): v *= xi ** e
                        s += v
                    return s
            else:
                g = mpmath.sin if d[0] == "sin" else mpmath.cos
                def f(*x, c=d[1], g=g): return g(sum(mpmath.mpf(a) * b for a, b in zip(c[1:], x)) + c[0])
            CONC_FUN[name] = f
            u = UFun(name, nargs, d); self.inputs[name] = u; return u
        smt.SIG[name] = "R" * nargs
        u = UFun(name, nargs); self.inputs[name] = u
        return u
    def out(self, name, cap, kind="d"): return OutArr(name, cap, kind)
    def out2(self, name, nx, ny): return OutArr(name, P(nx) * P(ny), "d", (P(nx), P(ny)))
    def ten(self, name, *dims, conc=None):
        dims = [P(d) for d in dims]; cs = [d.const() for d in dims]
        smt.SIG[name] = "I" * len(dims)
        T.APP_EVAL.pop(name, None)
        vals = None
        if all(x is not None for x in cs):
            keys = list(itertools.product(*[range(int(x)) for x in cs]))
            if self.mode == "conc":
                raw = self.forced.get(name)
                if raw is None: raw = conc(self.rng, [int(x) for x in cs]) if conc else [self._rnd(None, None) for _ in keys]
                raw = (list(raw) + [0.0] * len(keys))[:len(keys)]
                vals = {k: fl(float(x)) for k, x in zip(keys, raw)}
            else: vals = {k: sym("%s[%d]" % (name, j)) for j, k in enumerate(keys)}
        t = Ten(self, name, dims, vals)
        if vals is not None:
            if self.mode == "conc": t.raw = [float(x) for x in raw]
            T.APP_EVAL[name] = lambda *k, _t=t: (_t(*k) if all(x.const() is not None for x in k) else None)
        self.inputs[name] = t
        return t
    # ---- the call
    def call(self, fn, *args, ret="d"):
        if self.mode == "conc": return self._conc_call(fn, args, ret)
        ex = Exec(self.mod, H, {k: v for k, v in (self.contracts or {}).items() if k in self.unit.uses}, fp=self.unit.fp, budget=self.budget)
        ex.debug = bool(os.environ.get("VP_DEBUG"))
        self.ex = ex; self.execs.append(ex)
        st = State()
        for b in self.assume: st.assume(b)
        av = []
        outs = []
        for a in args:
            if isinstance(a, (int, Fraction)): a = P(a)
            if isinstance(a, Poly): av.append(a)
            elif isinstance(a, Vec):
                es = 8 if a.kind == "d" else 4
                i = st.new("arg", 0, a.name)
                if a.vals is not None: arr = Arr((a.n,), tuple(a.vals))
                else: arr = fun_arr((a.n,), lambda k, a=a: app(a.name, k))
                st.w(i).cells[0] = (es, arr); av.append(Ptr(i, (0, (ZERO, es, 0))))
            elif isinstance(a, Ten):
                i = st.new("arg", 0, a.name); av.append(Ptr(i, (0,)))
            elif isinstance(a, OutArr) and a.dims is not None:
                i = st.new("arg", 0, a.name); nm = "old_%s!%d" % (a.name, i)
                st.w(i).cells[0] = (8, concretise(fun_arr(a.dims, lambda p, q: app(nm, p, q)))); av.append(Ptr(i, (0,))); a.obj = i
            elif isinstance(a, OutArr):
                es = 8 if a.kind == "d" else 4
                i = st.new("arg", 0, a.name); c = a.cap.const()
                nm = "old_%s!%d" % (a.name, i)
                if c is not None: arr = Arr((a.cap,), tuple(sym("%s[%d]" % (nm, j), "R" if a.kind == "d" else "I") for j in range(int(c))))
                else: arr = fun_arr((a.cap,), lambda k: app(nm, k, sort="R" if a.kind == "d" else "I"))
                st.w(i).cells[0] = (es, arr); av.append(Ptr(i, (0, (ZERO, es, 0)))); a.obj = i
            elif isinstance(a, UFun): av.append(Opaque("ufun", a.name))
            else: raise Unsupported("argument %r" % (a,))
        f = self.mod.fns[fn]
        self.mod.head(f)
        # C int arguments reach the function as values of the declared width
        res = ex.call(st, fn, av)
        os_ = []
        for s, kind, v in res:
            if isinstance(v, Bool): v = ind(v)
            if not self.unit.fp and not smt.feasible(s.pc, None): continue
            os_.append(Out(self, kind, v, s, exc=v if kind == "throw" else None))
        self.nout += len(os_)
        if not os_: self.obls.append(("reachable", (), FALSE, False, ""))
        return os_
    def _conc_call(self, fn, args, ret):
        enc = []; onames = []
        for a in args:
            if isinstance(a, (int, Fraction)): a = P(a)
            if isinstance(a, Poly):
                enc.append(a)
            elif isinstance(a, Vec):
                enc.append(("ad", [float(x).hex() for x in a.raw]) if a.kind == "d" else ("ai", a.raw))
            elif isinstance(a, Ten): enc.append(("ad", [float(x).hex() for x in a.raw]))
            elif isinstance(a, OutArr): enc.append(("od" if a.kind == "d" else "oi", max(0, int(ev(a.cap))))); onames.append(a)
            elif isinstance(a, UFun): enc.append(("f", [a.nargs, a.desc]))
        f = self.mod.fns[fn]; self.mod.head(f)
        fin = []
        for (t, nm, at), a in zip(f.params, enc):
            if isinstance(a, Poly):
                if t.k == "int":
                    v = int(ev(a)); fin.append(("l" if t.a == 64 else "i", v))
                else: 
                    v = ev(a); fin.append(("d", float(v).hex()))
            else: fin.append(a)
        rt = "v" if f.ret.k == "void" else ("d" if f.ret.k != "int" else ("l" if f.ret.a == 64 else "i"))
        self.last_call = (fn, fin)
        k, v, outs = self.lib.call(fn, rt, fin)
        od = {}
        if outs is not None:
            for o, a in zip(onames, outs): od[o.name] = [fl(x) if isinstance(x, float) else P(x) for x in a]
        val = None
        if k == "ret" and v is not None: val = fl(v) if isinstance(v, float) else P(v)
        self.nout += 1
        return [Out(self, k, val, None, od)]
    # ---- postconditions
    def kinds(self, o, **m):
        """ret=cond, throw=cond, exit=cond, abort=cond: the condition each kind of termination implies"""
        g = B(m.get(o.kind, FALSE))
        if self.mode == "conc":
            self.checked += 1
            if not ev_b(g): self.fails.append("terminates by '%s' where the contract excludes it" % o.kind)
        else: self.obls.append(("termination kind %s" % o.kind, o.st.pc, g, False, ""))
        return o.kind == "ret"
    def stops(self, o, ret=TRUE, fail=FALSE):
        """returns under ret, any abnormal stop (exception, exit, assertion) under fail"""
        k = B(ret) if o.kind == "ret" else (B(fail) if o.kind in ("throw", "exit", "abort") else FALSE)
        return self.kinds(o, **{o.kind: k}) 
    def returns(self, o): return self.kinds(o, ret=TRUE)
    def ensure(self, o, name, g, extra=(), tol=None):
        g = B(g)
        if self.mode == "conc":
            self.checked += 1
            try: ok = ev_b(g, None, mpc(tol) if tol is not None else mpmath.mpf(10) ** -9)
            except NumErr as e: self.fails.append("%s: %s" % (name, e)); return
            if not ok: self.fails.append("%s does not hold: %s" % (name, g.key()[:300]))
        else: self.obls.append((name, tuple(o.st.pc) + tuple(extra), g, False, ""))
    def eq(self, o, name, got, want, extra=(), tol=None, scale=1, given=None):
        got, want = P(got) if not isinstance(got, Poly) else got, P(want)
        if self.mode == "conc":
            if given is not None and not ev_b(given): return
            self.checked += 1
            try: g, w = ev(got), ev(want)
            except NumErr as e: self.fails.append("%s: %s" % (name, e)); return
            except ZeroDivisionError: return
            if mpmath.isnan(w): return
            s = ev(P(scale)) if not isinstance(scale, (int, float)) else scale
            if mpmath.isinf(g) and abs(w) > mpmath.mpf(10) ** 290: return          # beyond the range of the machine numbers
            if mpmath.isinf(w) or mpmath.isinf(g): ok = (g == w)
            else: ok = abs(g - w) <= mpc(tol if tol is not None else self.tol) * (abs(s) + abs(w))
            if not ok: self.fails.append("%s: got %s, contract says %s" % (name, mpmath.nstr(g, 17), mpmath.nstr(w, 17)))
        else:
            ex = tuple(extra) + ((given,) if given is not None else ())
            self.obls.append((name, tuple(o.st.pc) + ex, EQ(got, want), False, ""))
    def all_eq(self, o, name, lo, hi, f, tol=None, scale=1, given=()):
        """for k in [lo, hi): got(k) == want(k); f(k) -> (got, want)"""
        lo, hi = P(lo), P(hi)
        if lo.const() is not None and hi.const() is not None:
            for k in range(int(lo.const()), int(hi.const())):
                g, w = f(P(k)); self.eq(o, "%s[%d]" % (name, k), g, w, tol=tol, scale=scale)
            return
        k = fresh("q", "I"); g, w = f(k)
        self.eq(o, name, g, w, extra=(LE(lo, k), LT(k, hi)) + tuple(given), tol=tol, scale=scale)
    def all_eq2(self, o, name, n, m, f, tol=None, scale=1):
        """for (i, j) in [0, n) x [0, m): got == want"""
        n, m = P(n), P(m)
        if n.const() is not None and m.const() is not None:
            for i in range(int(n.const())):
                for j in range(int(m.const())):
                    g, w = f(P(i), P(j)); self.eq(o, "%s[%d,%d]" % (name, i, j), g, w, tol=tol, scale=scale)
            return
        i = fresh("q", "I") if n.const() != 1 else P(0); j = fresh("q", "I") if m.const() != 1 else P(0)
        g, w = f(i, j)
        self.eq(o, name, g, w, extra=(LE(0, i), LT(i, n), LE(0, j), LT(j, m)), tol=tol, scale=scale)
    def all_holds(self, o, name, lo, hi, f):
        lo, hi = P(lo), P(hi)
        if lo.const() is not None and hi.const() is not None:
            for k in range(int(lo.const()), int(hi.const())): self.ensure(o, "%s[%d]" % (name, k), f(P(k)))
            return
        k = fresh("q", "I"); self.ensure(o, name, f(k), extra=(LE(lo, k), LT(k, hi)))

def Sum(f, lo, hi):
    a, b = P(lo).const(), P(hi).const()
    if a is not None and b is not None and b - a <= T.EXPAND[0]: return sum((P(f(P(j))) for j in range(int(a), int(b))), P(0))
    k = fresh("k", "I")
    return mk_sum(k, P(lo), P(hi), f(k))

# ------------------------------------------------------------------ runs
import fpsmt as FP
def describe(ctx):
    out = {}
    for n, v in ctx.inputs.items():
        if isinstance(v, Poly):
            c = v.const(); out[n] = float(c) if c is not None else v.key()
            if c is not None and Fraction(c).denominator == 1 and abs(c) < 2**53: out[n] = int(c)
        elif isinstance(v, (Vec, Ten)): out[n] = getattr(v, "raw", None)
        elif isinstance(v, UFun): out[n] = v.desc
    return out

def run_sym(u, mod, sizes=None, contracts=None, budget=150):
    """-> dict with per-obligation results"""
    t0 = time.time()
    T.EXPAND[0] = 40
    for k in ("norm", "z3", "cvc5", "z3_calls", "cvc5_calls"): smt.STATS[k] = 0
    smt.STATS["z3_time"] = smt.STATS["cvc5_time"] = 0.0
    c = Ctx("bnd" if sizes is not None else "sym", u, mod, sizes=sizes, contracts=contracts, budget=budget)
    r = {"unit": u.name, "mode": c.mode, "sizes": sizes, "obligations": [], "error": None}
    try:
        u.fn(c)
        vac = smt.check(c.assume)[0] if not u.fp else "sat"
        r["precondition_sat"] = vac
    except (Unsupported, TermError) as e: r["error"] = "%s: %s" % (type(e).__name__, e)
    except RecursionError as e: r["error"] = "recursion limit"
    except (KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, OverflowError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r["error"] = "internal %s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
        if os.environ.get("VP_TRACE"): traceback.print_exc()
    c.model = None
    obls = list(c.obls)
    for ex in c.execs: obls += [(o.name, o.facts, o.goal, o.soft, o.where) for o in ex.obls]
    r["trivial"] = sum(ex.trivial for ex in c.execs)
    t1 = time.time()
    end = t0 + budget + 60
    groups = {}
    if r["error"] is None or u.fp:
        seen = {}
        for (nm, facts, goal, soft, where) in obls:
            if soft is True and nm in u.waive: continue
            key = (frozenset(facts), goal)
            if key in seen:
                if seen[key] == "proved": r["trivial"] += 1
                continue
            ta = time.time()
            if ta > end: res = PR.Res("unknown", "", "time budget of the unit")
            else:
                try: res = (FP.prove_fp if u.fp else PROVER[0])(facts, goal, min(60.0, end - ta))
                except (TermError, RecursionError) as e: res = PR.Res("unknown", "norm", str(e))
            seen[key] = res.status
            r["obligations"].append({"name": nm, "where": where, "soft": soft, "status": res.status, "backend": res.backend, "time": round(time.time() - ta, 3),
                                     "detail": res.detail[:600] if res.status != "proved" else "", "goal": goal.key()[:400] if res.status != "proved" else ""})
            if res.status == "refuted" and soft is False and c.model is None: c.model = getattr(res, "model", None)
    r["model"] = c.model
    r["outcomes"] = c.nout
    r["stats"] = dict(smt.STATS)
    r["gen_time"] = round(t1 - t0, 3); r["prove_time"] = round(time.time() - t1, 3)
    f, h, k, g, inv = set(), set(), set(), set(), 0
    for ex in c.execs:
        f |= set(ex.used_fns); h |= set(ex.used_hooks); k |= set(ex.used_contracts); g |= ex.mutable_globals; inv += ex.invariants
    r["functions"], r["trusted"], r["contracts"], r["invariants"] = sorted(f), sorted(h), sorted(k), inv
    hard = [o for o in r["obligations"] if o["soft"] is not True]
    if r["error"]: r["status"] = "unsupported"
    elif r.get("precondition_sat") == "unsat" or not hard: r["status"] = "vacuous"
    elif all(o["status"] == "proved" for o in hard): r["status"] = "proved"
    elif any(o["status"] == "refuted" for o in hard): r["status"] = "refuted"
    else: r["status"] = "unknown"
    return r
PROVER = [lambda facts, goal, budget: PR.prove(facts, goal, budget)]

def run_conc(u, mod, lib, n, seed, forced=None, tmax=60):
    """concrete cases; -> dict(cases, checked, failures)"""
    T.EXPAND[0] = 10**6
    rng = random.Random("%s/%s" % (seed, u.name))
    r = {"cases": 0, "checked": 0, "failures": [], "rejected": 0}
    t0 = time.time()
    todo = [None] * n if forced is None else list(forced)
    for case, fc in enumerate(todo):
        if time.time() - t0 > tmax: break
        c = Ctx("conc", u, mod, lib, rng, forced=fc, case=case)
        try: u.fn(c)
        except Reject: r["rejected"] += 1; continue
        except (NumErr, TermError, ZeroDivisionError, IndexError) as e: r["rejected"] += 1; r["last_reject"] = repr(e); continue
        r["cases"] += 1; r["checked"] += c.checked
        if c.fails:
            r["failures"].append({"input": describe(c), "call": c.last_call, "what": c.fails[:4]})
            if len(r["failures"]) >= 3: break
    T.EXPAND[0] = 40
    return r
