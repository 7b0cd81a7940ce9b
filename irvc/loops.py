"""Loops: unrolling when the exit test is concrete, otherwise inferred inductive invariants (closed forms)."""
from fractions import Fraction
from terms import *
from terms import Subst, Atom, lin, mk_sum, _ids
import terms as T
import smt
from values import *

UNROLL = 260
EMPTY = type(UNDEF)()          # element of an empty container: never read (index obligations), so any value will do
def isund(v): return v is UNDEF or v is EMPTY

# ------------------------------------------------------------------ helpers on terms
_deep = {}
def deep_names(x):
    """names of applications occurring anywhere (also under sums)"""
    if isinstance(x, Poly):
        r = _deep.get(x)
        if r is None:
            r = frozenset()
            for mono in x.m:
                for a, e in mono:
                    r |= _atom_names(a)
                    if not isinstance(e, int): r |= deep_names(e)
            _deep[x] = r
        return r
    if isinstance(x, Bool):
        r = _deep.get(x)
        if r is None:
            r = frozenset()
            for y in x.args:
                if isinstance(y, (Poly, Bool)): r |= deep_names(y)
            _deep[x] = r
        return r
    return frozenset()
def _atom_names(a):
    r = _deep.get(a)
    if r is None:
        r = frozenset()
        if a.kind == "app": r |= {a.args[0]}
        for y in a.args:
            if isinstance(y, (Poly, Bool)): r |= deep_names(y)
            elif isinstance(y, tuple):
                for z in y: r |= deep_names(z)
        _deep[a] = r
    return r

class FSubst(Subst):
    """substitution that also replaces function symbols: names -> (ix atoms, Poly)"""
    def __init__(self, m, funs):
        super().__init__(m); self.funs = funs
    def touches(self, syms): return True
    def poly(self, p):
        if not (self.keys and not self.keys.isdisjoint(p.syms())) and not (deep_names(p) & self.funs.keys()): return p
        return Subst.poly(self, p)
    def bool(self, b):
        if not (self.keys and not self.keys.isdisjoint(b.syms())) and not (deep_names(b) & self.funs.keys()): return b
        return Subst.bool(self, b)
    def _ta(self, a): return (self.keys and not self.keys.isdisjoint(a.syms)) or bool(_atom_names(a) & self.funs.keys())
    def _t(self, a, e): return self._ta(a) or (not isinstance(e, int))
    def _atom(self, a):
        if a.kind == "app" and a.args[0] in self.funs:
            ix, body = self.funs[a.args[0]]
            args = [self.any(x) for x in a.args[1:]]
            return Subst({i: x for i, x in zip(ix, args)}).poly(body)
        return Subst._atom(self, a)

def map_leaves(v, f, ix=()):
    """rebuild a value, applying f(leaf Poly/Bool, ix) to scalar leaves"""
    if isinstance(v, Bool): return f(ind(v), ix)
    if isinstance(v, Poly): return f(v, ix)
    if isinstance(v, Struct): return Struct({o: (v.c[o][0], map_leaves(v.c[o][1], f, ix)) for o in sorted(v.c)})
    if isinstance(v, Agg): return Agg([map_leaves(x, f, ix) for x in v.v])
    if isinstance(v, Arr):
        d = [map_leaves(x, f, ix) for x in v.dims]
        w = v.as_fun()
        nix = tuple(fresh("K", "I").single_atom() for _ in d)
        b = w.get(*[P(a) for a in nix])
        return Arr(d, None, nix, map_leaves(b, f, ix + nix), v.tag)
    if isinstance(v, Ptr) and len(v.path) > 1:
        i, es, off = v.path[-1]
        ni = (f(i[0], ix), f(i[1], ix)) if isinstance(i, tuple) else f(i, ix)
        return Ptr(v.obj, v.path[:-1] + ((ni, es, off),))
    return v

class _Dead(type(UNDEF)):
    """template of a cell whose value at the loop head is unknown (a temporary of the body)"""
DEAD = _Dead()
def leaves2(h, v, out, ix=()):
    """pair leaves of the template h (scalars are havoc'd symbols/apps over ix) with those of value v"""
    if h is DEAD: return
    if isinstance(h, (Poly, Bool)):
        if isinstance(v, Bool): v = ind(v)
        out.append((h, v if isinstance(v, Poly) or isund(v) else _bad("leaf %r" % (v,)), ix)); return
    if isund(v):
        if isinstance(h, Struct):
            for o in sorted(h.c): leaves2(h.c[o][1], v, out, ix)
            return
        if isinstance(h, Arr):
            for d in h.dims: leaves2(d, v, out, ix)
            leaves2(h.body, v, out, ix + h.ix); return
        if isinstance(h, Ptr):
            if len(h.path) > 1:
                i = h.path[-1][0]
                for x in (i if isinstance(i, tuple) else (i,)): leaves2(x, v, out, ix)
            return
        if isinstance(h, Agg):
            for x in h.v: leaves2(x, v, out, ix)
            return
        return
    if isinstance(h, Struct):
        if not isinstance(v, Struct): _bad("shape")
        for o in sorted(h.c): leaves2(h.c[o][1], v.c[o][1] if o in v.c else UNDEF, out, ix)
        return
    if isinstance(h, Agg):
        for x, y in zip(h.v, v.v): leaves2(x, y, out, ix)
        return
    if isinstance(h, Arr):
        if not isinstance(v, Arr) or len(v.dims) != len(h.dims): _bad("shape")
        for d, e in zip(h.dims, v.dims): leaves2(d, e, out, ix)
        leaves2(h.body, EMPTY if v.dims[0].const() == 0 else v.get(*[P(a) for a in h.ix]), out, ix + h.ix); return
    if isinstance(h, Ptr):
        if v == NULL and h.obj is not None: v = UNDEF; return leaves2(h, v, out, ix)
        if not isinstance(v, Ptr) or v.obj != h.obj or len(v.path) != len(h.path): _bad("pointer shape %r %r" % (h, v))
        if len(h.path) > 1:
            if v.path[0] != h.path[0] or v.path[-1][1:] != h.path[-1][1:]: _bad("pointer shape")
            i, j = h.path[-1][0], v.path[-1][0]
            if isinstance(i, tuple):
                for x, y in zip(i, j): leaves2(x, y, out, ix)
            else: leaves2(i, j, out, ix)
        elif v.path != h.path: _bad("pointer shape")
        return
    if type(h) is not type(v) or h != v: _bad("shape %r / %r" % (h, v))
def _bad(m): raise Unsupported("loop-carried value: " + m)

def fill(h, vals):
    """rebuild template with leaf values from iterator"""
    it = iter(vals)
    def go(h, m):
        if h is DEAD: return UNDEF
        if isinstance(h, (Poly, Bool)):
            p = next(it)
            return Subst(m).poly(p) if m else p
        if isinstance(h, Struct): return Struct({o: (h.c[o][0], go(h.c[o][1], m)) for o in sorted(h.c)})
        if isinstance(h, Agg): return Agg([go(x, m) for x in h.v])
        if isinstance(h, Arr):
            d = [go(x, m) for x in h.dims]
            return Arr(d, None, h.ix, go(h.body, m), h.tag)
        if isinstance(h, Ptr) and len(h.path) > 1:
            i, es, off = h.path[-1]
            ni = tuple(go(x, m) for x in i) if isinstance(i, tuple) else go(i, m)
            return Ptr(h.obj, h.path[:-1] + ((ni, es, off),))
        return h
    return go(h, None)

def dim_leaves(h, out, n=None):
    """leaf numbers that are container dimensions (in the order of leaves2)"""
    n = n or [0]
    if isinstance(h, (Poly, Bool)): n[0] += 1
    elif isinstance(h, Struct):
        for o in sorted(h.c): dim_leaves(h.c[o][1], out, n)
    elif isinstance(h, Agg):
        for x in h.v: dim_leaves(x, out, n)
    elif isinstance(h, Arr):
        for d in h.dims: out.add(n[0]); n[0] += 1
        dim_leaves(h.body, out, n)
    elif isinstance(h, Ptr) and len(h.path) > 1:
        n[0] += len(h.path[-1][0]) if isinstance(h.path[-1][0], tuple) else 1
    return out

def merge_shape(a, b):
    """value whose structure covers both (undefined parts of a taken from b)"""
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.dims) == len(b.dims):
        if a.items is not None and not isinstance(a.items, dict) and not a.items and b.items is None: return Arr(a.dims, None, b.ix, b.body, a.tag)
        if a.items is not None and not a.items:
            if not b.items and b.items is not None: return a
            f = b.as_fun(); return Arr(a.dims, None, f.ix, f.body, a.tag)
        f = a.as_fun()
        return Arr(f.dims, None, f.ix, merge_shape(f.body, b.get(*[P(x) for x in f.ix])), a.tag)
    if isinstance(a, Struct) and isinstance(b, Struct):
        c = {o: (x[0], merge_shape(x[1], b.c[o][1]) if o in b.c else x[1]) for o, x in a.c.items()}
        for o, x in b.c.items():
            if o not in c: c[o] = x
        return Struct(c)
    return a

def havoc(v0, v1, sorts, key):
    """template with fresh leaves shaped like v0/v1"""
    shape = merge_shape(v0, v1)
    n = [0]
    def f(x, ix):
        k = (key, n[0]); n[0] += 1
        s = sorts.get(k, "I" if is_int(x) else "R")
        if x.const() is not None and k not in sorts: s = "I" if is_int(x) else "R"
        sorts.setdefault(k, s)
        s = sorts[k]
        nm = "h!%d" % next(_ids)
        if ix:
            return app(nm, *[P(a) for a in ix], sort=s)
        return sym(nm, s)
    return map_leaves(shape, f)

# ------------------------------------------------------------------ recurrences
class NoSolution(Exception): pass

def solve_scalar(v0, h, U, t):
    """closed form of x_0 = v0, x_{t+1} = U(t, x_t); h: symbol atom of x_t"""
    ts = t.single_atom()
    if isund(v0): v0 = fresh("undef", "I" if is_int(U) else "R")
    if h not in U.syms():
        if ts not in U.syms() and U == v0: return v0
        prev = subst(U, {ts: t - 1})
        return ite(EQ(t, 0), v0, prev)
    d = U.deg_sym(h)
    if d is None or d > 1:
        r = solve_runmax(v0, h, U, t)
        if r is not None: return r
        raise NoSolution("not affine")
    c = U.coeffs(h); A, Bc = c.get(1, ZERO), c.get(0, ZERO)
    k = fresh("k", "I"); ks = k.single_atom()
    if ts in A.syms():
        # product with factor depending on t: only indicator-free rational chains are left opaque
        raise NoSolution("coefficient varies")
    if A == ONE:
        return v0 + mk_sum(k, ZERO, t, subst(Bc, {ts: k}))
    if any(a.kind == "ind" for a in A.atoms()):
        a = next(x for x in sorted(A.atoms()) if x.kind == "ind")
        r1 = solve_scalar(v0, h, Subst({}, {a: ONE}).poly(U), t)
        r0 = solve_scalar(v0, h, Subst({}, {a: ZERO}).poly(U), t)
        return P(a) * r1 + (ONE - P(a)) * r0
    return power(A, t) * v0 + mk_sum(k, ZERO, t, power(A, t - 1 - k) * subst(Bc, {ts: k}))

def solve_runmax(v0, h, U, t):
    """h' = ite(h < e(t), e(t), h) (running maximum / minimum), written with an indicator over h"""
    ts = t.single_atom()
    inds = [a for a in set(U.atoms()) if a.kind == "ind" and h in a.syms]
    if len(inds) != 1: return None
    a = inds[0]
    u1, u0 = Subst({}, {a: ONE}).poly(U), Subst({}, {a: ZERO}).poly(U)
    hp = P(h)
    if u0 == hp: e, c = u1, a.args[0]
    elif u1 == hp: e, c = u0, Not(a.args[0])
    else: return None
    if h in e.syms(): return None
    for nm, op in (("runmax", LT(hp, e)), ("runmax", LE(hp, e)), ("runmin", LT(e, hp)), ("runmin", LE(e, hp))):
        if c is op:
            k = T._bv(1 + max(e.hgt(), v0.hgt(), 40))
            return app(nm, v0, t, subst(e, {ts: P(k)}))
    return None
def _runax(cmp):
    def f(v0, t, body):
        return []
    return f

def point_form(U, self_atom, eqs, ix, ts):
    """U = [eqs chosen] U1 + (1 - [eqs chosen]) self, one equation per written index: -> U1, solutions, conditions"""
    import itertools as it
    eqs = sorted(set(eqs))
    cand = [tuple(eqs)]
    for n in range(1, len(ix) + 1):
        if len(eqs) <= 6: cand += [c for c in it.combinations(eqs, n) if c != tuple(eqs)]
    for es in sorted(cand, key=lambda c: (c != tuple(eqs), not any(ts in a.syms for a in c), len(c))):
        U1 = Subst({}, {a: ONE for a in es}).poly(U)
        if any(Subst({}, {a: ZERO}).poly(U) != P(self_atom) for a in es): continue
        sol = {}; conds = []; ok = True
        for a in sorted(es, key=lambda a: sum(1 for i in ix if i in a.syms)):
            p = subst(a.args[0].args[0], sol); done = False
            for i in ix:
                if i in sol: continue
                l = lin(p, i)
                if l is not None and l[0] in (1, -1):
                    sol[i] = (-l[1]).scale(Fraction(1) / l[0]); done = True; break
            if not done: ok = False; break
            conds.append(a.args[0])
        if ok: return U1, sol, conds
    raise NoSolution("not a point update")
def unit_ix(v, out):
    """index variables of containers of extent one"""
    if isinstance(v, Struct):
        for o in sorted(v.c): unit_ix(v.c[o][1], out)
    elif isinstance(v, Arr) and v.items is None:
        for i, d in zip(v.ix, v.dims):
            if d.const() == 1: out.add(i)
        unit_ix(v.body, out)
    return out
def own_reads(U, name, ix, ixa, self_atom):
    """in a term guarded by [index = e], the own element at e is the element at the index"""
    r = ZERO; hit = False
    for mono, c in U.m.items():
        own = [a for a, e in mono if a.kind == "app" and a.args[0] == name and a is not self_atom]
        if not own: r = r + Poly({mono: c}); continue
        sol = {}
        for a, e in mono:
            if a.kind == "ind" and a.args[0].kind == "eq" and is_int(a.args[0].args[0]):
                for i in ix:
                    if i in sol: continue
                    l = lin(a.args[0].args[0], i)
                    if l is not None and l[0] in (1, -1) and not any(x in l[1].syms() for x in ix): sol[i] = (-l[1]).scale(Fraction(1) / l[0]); break
        m = {}
        for a in own:
            if sol and all(not (subst(x, sol) - subst(y, sol)).m for x, y in zip(a.args[1:], ixa)): m[a] = P(self_atom)
        if m: hit = True; r = r + Subst({}, m).poly(Poly({mono: c}))
        else: r = r + Poly({mono: c})
    return r if hit else U
def solve_fun(v0, name, ix, U, t, sort, unit=()):
    """closed form of f_0 = v0(ix), f_{t+1}(ix) = U(t, f_t, ix); indices in unit range over {0} only"""
    ts = t.single_atom()
    ixp = ixa = [P(a) if a not in unit else ZERO for a in ix]
    if unit:
        m = {a: ZERO for a in unit}
        U = subst(U, m); v0 = v0 if isund(v0) else subst(v0, m)
        ix = tuple(a for a in ix if a not in unit)
    self_atom = app(name, *ixp, sort=sort).single_atom()
    empty = v0 is EMPTY
    if isund(v0): v0 = app("undef!%d" % next(_ids), *ixp, sort=sort)
    if name not in deep_names(U):
        if U == v0: return v0
        if ts not in U.syms() and False: return U
        return ite(EQ(t, 0), v0, subst(U, {ts: t - 1}))
    if U == P(self_atom): return v0
    U = own_reads(U, name, ix, ixa, self_atom)
    if U == P(self_atom): return v0
    others = [a for a in smt.walk_atoms(U, set()) if a.kind == "app" and a.args[0] == name and a is not self_atom]
    # self atom as a symbol
    hs = fresh("hs", sort); h = hs.single_atom()
    if not others:
        V = Subst({}, {self_atom: hs}).poly(U)
        if name in deep_names(V): raise NoSolution("own value under a binder")
        d = V.deg_sym(h)
        if d == 1 and V.coeffs(h).get(1, ZERO) == ONE:
            Bc = V.coeffs(h).get(0, ZERO)
            k = fresh("k", "I")
            return v0 + mk_sum(k, ZERO, t, subst(Bc, {ts: k}))
        if d is not None and d <= 1:
            A = V.coeffs(h).get(1, ZERO)
            if not any(a in A.syms() for a in ix) and ts not in A.syms():
                r = solve_scalar(hs_free(v0), h, V, t)
                return r
    # blocks appended: elements from L(t) on are new
    if len(ix) == 1 and not others:
        K = ix[0]
        for a in sorted(x for x in smt.walk_atoms(U, set()) if x.kind == "ind" and x.args[0].kind == "le" and K in x.syms and ts in x.syms):
            p = a.args[0].args[0]; l = lin(p, K)
            if l is None or l[0] not in (1, -1): continue
            # l[0] = -1: L - K <= 0, taken when K >= L;  l[0] = 1: K - (L - 1) <= 0, taken when K < L
            new, L = (ONE, l[1]) if l[0] == -1 else (ZERO, ONE - l[1])
            if K in L.syms(): continue
            if L.deg_sym(ts) != 1: continue
            cf = L.coeffs(ts); m = cf.get(1, ZERO); l = (m, cf.get(0, ZERO))
            if deep_names(m) or any(ts in x.syms() for x in l): continue
            if Subst({}, {a: ONE - new}).poly(U) != P(self_atom): continue
            U1 = Subst({}, {a: new}).poly(U)
            if name in deep_names(U1): continue
            r = subst(U1, {ts: T.rebuild_app("fdiv", (P(K) - l[1], m), "I")})
            return r if empty else ite(LT(P(K), l[1]), v0, r)
    # point update: equality indicators on the index variables
    eqs = []
    for a in smt.walk_atoms(U, set()):
        if a.kind == "ind" and a.args[0].kind == "eq" and any(i in a.syms for i in ix) and is_int(a.args[0].args[0]): eqs.append(a)
    eqs = [a for a in eqs if any(lin(a.args[0].args[0], i) is not None and lin(a.args[0].args[0], i)[0] in (1, -1) for i in ix)]
    if not eqs: raise NoSolution("no point update")
    U1, sol, conds = point_form(U, self_atom, eqs, ix, ts)
    # own reads in U1: at the written position (-> old value there) or one behind (prefix recurrence)
    atpos, other = {}, {}
    behind = None
    for a in smt.walk_atoms(U1, set()):
        if a.kind == "app" and a.args[0] == name:
            diff = [subst(x, sol) - subst(i, sol) for x, i in zip(a.args[1:], ixa)]
            if all(not d.m for d in diff): atpos[a] = 1
            else:
                nz = [d for d in diff if d.m]
                if len(nz) == 1 and nz[0] == P(-1): behind = a
                elif len(ix) == 1 and not isund(v0) and v0 is not EMPTY and name not in deep_names(subst(a.args[1], sol)) and lin(subst(a.args[1], sol), ts) is not None and lin(subst(a.args[1], sol), ts)[0] != lin(subst(ixa[0], sol), ts)[0]:
                    other[a] = subst(v0, {ix[0]: subst(a.args[1], sol)})     # candidate: not written yet (the invariant is checked afterwards)
                else: raise NoSolution("reads another element")
    if other: U1 = Subst({}, other).poly(U1)
    varying = [(i, e) for i, e in sol.items() if ts in e.syms()]
    if not varying:
        V = Subst({}, {a: hs for a in atpos}).poly(U1)
        if name in deep_names(V): raise NoSolution("nested own read")
        V = subst(V, {i: e for i, e in sol.items()}) if False else V
        r = solve_scalar(v0, h, V, t)
        return ite(And(*conds), r, v0)
    # choose the equation giving t
    i, e = varying[0]
    l = lin(e, ts)
    if l is None or l[0] not in (1, -1): raise NoSolution("index not unit stride")
    tv = (P(i) - l[1]).scale(Fraction(1) / l[0])
    rest = [EQ(P(j), subst(x, {ts: tv})) for j, x in sol.items() if j is not i]
    inr = And(LE(0, tv), LT(tv, t), *rest)
    if behind is not None:
        if l[0] != 1 or atpos or len(ix) != 1: raise NoSolution("prefix recurrence")
        V = Subst({}, {behind: hs}).poly(U1)
        if name in deep_names(V): raise NoSolution("nested own read")
        V = subst(V, {i: e})
        first = subst(v0, {i: l[1] - 1})
        H = solve_scalar(first, h, V, t)
        if empty: return subst(H, {ts: tv + 1})
        return ite(inr, subst(H, {ts: tv + 1}), v0)
    V = Subst({}, {a: v0 for a in atpos}).poly(U1)
    if name in deep_names(V): raise NoSolution("nested own read")
    if empty and not rest: return subst(V, {ts: tv})
    return ite(inr, subst(V, {ts: tv}), v0)
def hs_free(v): return v

# ------------------------------------------------------------------ states
def diff_states(a, b):
    """cells of objects of a that differ in b: {(obj, off): (old, new, size)}"""
    r = {}
    for i, o in a.objs.items():
        p = b.objs.get(i)
        if p is None or p is o: continue
        for off, (sz, v) in p.cells.items():
            c = o.cells.get(off)
            if c is None: r[(i, off)] = (UNDEF, v, sz)
            elif c[1] is not v and not (type(c[1]) is type(v) and c[1] == v): r[(i, off)] = (c[1], v, sz)
        for off in o.cells:
            if off not in p.cells: pass
    return r

def delta(st, base):
    return [x for x in st.pc if x not in base.pcset and x not in st.der]

def merge_conds(states, base):
    ds = [delta(s, base) for s in states]
    common = set(ds[0])
    for d in ds[1:]: common &= set(d)
    # facts that were derived on one path only but follow from the base
    for x in {x for d in ds for x in d if x not in common and smt._intonly(x)}:
        if not smt.feasible(base.pc, Not(x)): common.add(x)
    return [And(*[x for x in d if x not in common]) for d in ds], common

def run_loop(self, f, loop, st, regs, prev):
    """-> (exits [(st, regs, target, prev)], terms)"""
    exits_all, terms_all = [], []
    n = 0
    phi = any(I.op == "phi" for I in f.blocks[loop.header])
    cur, cregs, cprev = st, regs, prev
    if loop.nested and self.lcache.get((f.dem, loop.header), {}).get("nopeel"):
        # the same loop was summarised without peeling before: try that first
        no, mk, inv = len(self.obls), len(self.exit_log), self.invariants
        try:
            r = summarise(self, f, loop, st.copy(), dict(regs), prev)
            del self.exit_log[mk:]
            return r
        except Unsupported as e:
            if "budget" in str(e): raise
            del self.obls[no:]; del self.exit_log[mk:]; self.lcache[(f.dem, loop.header)]["nopeel"] = False
    while True:
        if not smt_ok(self, cur): return exits_all, terms_all
        no, mark = len(self.obls), len(self.exit_log)
        s = cur.copy()
        back, exits, terms = self.explore(f, s, dict(cregs), loop.header, cprev, loop)
        log = [c for l, c in self.exit_log[mark:] if l is loop]
        del self.exit_log[mark:]
        if not back:
            return exits_all + exits, terms_all + terms
        if exits == [] and not log or any(log):
            # concrete trip: keep unrolling
            exits_all += exits; terms_all += terms
            if len(back) > 1 and not self.fp:
                fb = [b for b in back if smt.feasible(b[0].pc, None, 2000)]
                if not fb: return exits_all, terms_all
                back = fb
            if len(back) > 1:
                m = try_merge(self, [b[0] for b in back], cur)
                if m is not None: back = [(m, back[0][1], back[0][2])]
            if len(back) > 1:
                # continue every branch separately
                for b in back[1:]:
                    ex, tm = run_loop(self, f, loop, b[0], b[1], b[2]); exits_all += ex; terms_all += tm
                    if len(exits_all) > 300: raise Unsupported("too many loop paths")
            cur, cregs, cprev = back[0]
            n += 1
            if n > UNROLL: raise Unsupported("unrolling limit")
            continue
        del self.obls[no:]
        if phi: raise Unsupported("loop header with phi")
        if n == 0: self.lcache.setdefault((f.dem, loop.header), {})["nopeel"] = True
        else: self.lcache.setdefault((f.dem, loop.header), {})["nopeel"] = False
        ex, tm = summarise(self, f, loop, cur, cregs, cprev)
        return exits_all + ex, terms_all + tm

def smt_ok(self, st): return True

def try_merge(self, states, base):
    """one state for several back edges (values merged by path condition)"""
    conds, common = merge_conds(states, base)
    if any(c is TRUE for c in conds[:-1]): return None
    W = {}
    for s in states:
        for k, v in diff_states(base, s).items(): W.setdefault(k, v)
    m = base.copy()
    try:
        for (i, off), (old, new, sz) in W.items():
            vals = [s.objs[i].cells.get(off, (sz, UNDEF))[1] for s in states]
            r = vals[-1]
            for c, v in zip(conds[:-1][::-1], vals[:-1][::-1]): r = vite(c, v, r)
            m.w(i).cells[off] = (sz, r)
    except Unsupported: return None
    for s in states:
        for i, o in s.objs.items():
            if i not in m.objs: m.objs[i] = o
    for c in common: m.assume(c)
    for x in states[0].pc:
        if x in states[0].der and all(x in s.pcset for s in states[1:]): m.assume(x, der=True)
    m.assume(Or(*conds))
    return m

def loop_temps(f, loop, regs):
    """objects of local variables that only the instructions of the loop mention"""
    c = getattr(loop, "temps", None)
    if c is None:
        import re
        al = {I.res for b in f.blocks for I in f.blocks[b] if I.op == "alloca"}
        out = set()
        for b, ins in f.blocks.items():
            if b in loop.blocks: continue
            for I in ins:
                if I.op == "alloca" or "llvm.lifetime" in I.text or "llvm.dbg" in I.text: continue
                out |= set(re.findall(r'%("[^"]*"|[-a-zA-Z$._0-9]+)', I.text))
        c = loop.temps = {a for a in al if a.lstrip("%").strip('"') not in {x.strip('"') for x in out}}
    return {regs[a].obj for a in c if isinstance(regs.get(a), Ptr) and regs[a].path == (0,)}

def frame_names(regs):
    """objects of the frame's local variables"""
    return {v.obj: r for r, v in regs.items() if isinstance(v, Ptr) and v.path == (0,) and isinstance(v.obj, int)}
def any_items(v):
    if isinstance(v, Arr): return v.items is not None or any_items(v.body)
    if isinstance(v, Struct): return any(any_items(x) for _, x in v.c.values())
    if isinstance(v, Agg): return any(any_items(x) for x in v.v)
    return not isinstance(v, (Poly, Bool, Ptr))
def plain(p): return not isund(p)
def name_reads(st0, locs, W):
    """long loop-invariant real values get a name: state with the names, their meaning"""
    back_m, st1 = {}, None
    for (i, off) in sorted(locs):
        o = st0.objs.get(i)
        if o is None or off not in o.cells or (i, off) in W: continue
        v = o.cells[off][1]
        if isinstance(v, (Arr, Struct)):
            # likewise the elements of a container
            got = []
            def nam(p, ix):
                if not ix or is_int(p) or p.const() is not None or len(p.m) <= 2 and len(p.key()) <= 40 or not plain(p): return p
                nm = "nf!%d" % next(_ids); got.append((nm, ix, p))
                return app(nm, *[P(x) for x in ix], sort="R")
            if not any_items(v):
                nv = map_leaves(v, nam)
                if got:
                    for nm, ix, p in got: back_m[nm] = (ix, p)
                    if st1 is None: st1 = st0.copy()
                    st1.w(i).cells[off] = (o.cells[off][0], nv)
            continue
        if (i, off) in W: continue
        if not isinstance(v, Poly) or len(v.m) < 2 or is_int(v): continue
        if st1 is None: st1 = st0.copy()
        y = next((y for y, w in back_m.items() if w == v), None)
        if y is None:
            n = fresh("nv", "R"); y = n.single_atom(); back_m[y] = v
            st1.assume(EQ(n, v))
        st1.w(i).cells[off] = (o.cells[off][0], P(y))
    return back_m, st1
def with_names(self, f, loop, st1, regs, prev, back_m, cache):
    no = len(self.obls)
    ex, tm = summarise(self, f, loop, st1, regs, prev, True, cache)
    funs = {k: v for k, v in back_m.items() if isinstance(k, str)}; m = {k: v for k, v in back_m.items() if not isinstance(k, str)}
    S = FSubst(m, funs) if funs else Subst(m)
    if funs:
        for o in self.obls[no:]:
            # the obligations of the loop may need the meaning of the names
            o.facts = [S.bool(x) for x in o.facts]; o.goal = S.bool(o.goal)
    return ([(subst_state(a, S), {k: vsubst(v, S) for k, v in r.items()}, t, p) for a, r, t, p in ex],
            [(subst_state(a, S), k, vsubst(v, S)) for a, k, v in tm])

def summarise(self, f, loop, st0, regs, prev, named=False, cache=None):
    if cache is None: cache = self.lcache.setdefault((f.dem, loop.header), {}) if loop.nested else {}
    fr = frame_names(regs); inv_fr = {r: o for o, r in fr.items()}
    enc = lambda loc: (fr.get(loc[0], loc[0]), loc[1])
    dec = lambda l: (inv_fr[l[0]] if isinstance(l[0], str) else l[0], l[1]) if not isinstance(l[0], str) or l[0] in inv_fr else None
    if not named and "named" in cache:
        locs = [dec(l) for l in cache["named"]]; cw = {dec(l) for l in cache.get("W", {})}
        back_m, st1 = name_reads(st0, [l for l in locs if l], cw)
        if back_m: return with_names(self, f, loop, st1, regs, prev, back_m, cache)
    self.invariants += 1
    t = fresh("t", "I"); ts = t.single_atom()
    W, sorts = {}, {}
    where = "%s:%s" % (f.dem, loop.header)
    solved = {}           # (loc, leaf index) -> closed Poly (in t and ix)
    hdr = []
    templates = {}
    def start(no_t=False):
        s = st0.copy()
        for loc, (v0, v1, sz) in W.items():
            h = templates[loc]
            lv = []; leaves2(h, v0, lv)
            vals = [solved[(loc, j)] if (loc, j) in solved else leaf[0] for j, leaf in enumerate(lv)]
            # closed forms are stated over the template's index symbols
            s.w(loc[0]).cells[loc[1]] = (sz, fill(h, vals))
        s.assume(LE(0, t))
        for x in hdr: s.assume(x)
        return s
    reads = set()
    def run_body(s):
        mk = next(_ids)
        b = s.copy()
        old = self.reads; self.reads = set()
        try: r = self.explore(f, b, dict(regs), loop.header, prev, loop)
        finally:
            reads.clear(); reads.update(self.reads)
            if old is not None: old |= self.reads
            self.reads = old
        self.mark_sym = mk
        return r
    no = len(self.obls)
    moving = set()        # dimensions found to change
    def template(loc):
        v0, nw, sz = W[loc]
        if loc in dead or isinstance(nw, Opaque) and nw.tag in ("mref", "mexpr"): templates[loc] = DEAD; dead.add(loc); return
        h = templates[loc] = havoc(v0, nw, sorts, loc)
        if isinstance(h, Opaque): templates[loc] = DEAD; dead.add(loc); return
        for j in [j for (l, j) in solved if l == loc]: del solved[(loc, j)]
        if isinstance(v0, (Arr, Struct)):
            dl = dim_leaves(h, set()); lv = []; leaves2(h, v0, lv)
            for j in dl:
                if (loc, j) not in moving and not lv[j][2] and not isund(lv[j][1]): solved[(loc, j)] = lv[j][1]
        nl = []; leaves2(h, v0, nl)
        for (l, j), (r, n) in early.items():
            if l == loc and n == len(nl): solved[(loc, j)] = r
    dead = set()
    early, banned = {}, set()      # counters and lengths with a constant step, solved while the cells are being discovered
    def guess(loc):
        # counters and lengths: the first step, checked by the next rounds
        v0, nw, sz = W[loc]
        try: h = havoc(v0, nw, dict(), loc); lv, ul = [], []; leaves2(h, v0, lv); leaves2(h, nw, ul)
        except Unsupported: return
        for j, ((_, v, ix), (_, u, _)) in enumerate(zip(lv, ul)):
            if ix or isund(v) or isund(u) or not (is_int(v) and is_int(u)): continue
            e = u - v
            if not e.m or ts in e.syms() or any(x.id > self.mark_sym for x in e.syms()) or deep_names(e): continue
            if e.const() is None and not isinstance(v0, Arr): continue
            early[(loc, j)] = (v + t * e, len(lv)); moving.add((loc, j))
    def find_early(back):
        got = False
        free = set()
        for loc, (v0, nw, sz) in W.items():
            lv = []; leaves2(templates[loc], v0, lv)
            for j, (h, v, ix) in enumerate(lv):
                if (loc, j) not in solved and not ix: free.add(h.single_atom())
        for loc, (v0, nw, sz) in W.items():
            if templates[loc] is DEAD: continue
            lv = []; leaves2(templates[loc], v0, lv); uls = []
            try:
                for b in back:
                    c = b[0].objs[loc[0]].cells.get(loc[1]); ul = []; leaves2(templates[loc], c[1] if c else UNDEF, ul); uls.append(ul)
            except Unsupported: continue
            for j, (h, v, ix) in enumerate(lv):
                if (loc, j) in solved or (loc, j) in banned or ix or isund(v) or sorts.get((loc, j)) != "I": continue
                us = [ul[j][1] for ul in uls]
                if any(isund(u) for u in us) or any(u != us[0] for u in us): continue
                e = us[0] - h
                if not is_int(e) or e.syms() & free or ts in e.syms() or any(x.id > self.mark_sym for x in e.syms()) or deep_names(e): continue
                early[(loc, j)] = (v + t * e, len(lv)); got = True
        return got
    if "W" in cache:
        sh = {}
        for (l, j), x in cache["sorts"].items(): sh.setdefault(l, {})[j] = x
        for l, (nw, sz) in cache["W"].items():
            loc = dec(l)
            if loc is None or loc[0] not in st0.objs: continue
            c = st0.objs[loc[0]].cells.get(loc[1])
            W[loc] = (c[1] if c else UNDEF, nw, c[0] if c else sz)
            if l in cache["dead"]: dead.add(loc)
            for j, x in sh.get(l, {}).items(): sorts[(loc, j)] = x
            for (l2, j) in cache["moving"]:
                if l2 == l: moving.add((loc, j))
            try:
                template(loc); lv = []; leaves2(templates[loc], W[loc][0], lv)
                for (l2, j), (e, nl) in cache["early"].items():
                    if l2 == l and nl == len(lv) and not isund(lv[j][1]): early[(loc, j)] = (lv[j][1] + t * e, nl)
                template(loc)
            except Unsupported:
                for k in [k for k in sorts if k[0] == loc]: del sorts[k]
                for k in [k for k in early if k[0] == loc]: del early[k]
                for k in [k for k in solved if k[0] == loc]: del solved[k]
                W.pop(loc); templates.pop(loc, None); dead.discard(loc)
    # --- discovery of the loop-carried cells
    for it in range(20):
        del self.obls[no:]
        s = start()
        back, exits, terms = run_body(s)
        if not back:
            del self.obls[no:]
            raise Unsupported("loop %s: no back edge under invariant" % where)
        new = False
        if find_early(back): new = True
        for b in back:
            for loc, (old, nw, sz) in diff_states(s, b[0]).items():
                if loc not in W:
                    W[loc] = (st0.objs[loc[0]].cells[loc[1]][1] if loc[1] in st0.objs[loc[0]].cells else UNDEF, nw, sz)
                    if it == 0: guess(loc)
                    try: template(loc)
                    except Unsupported: dead.add(loc); template(loc)
                    new = True
                else:
                    # sort consistency and shape
                    lv = []
                    try: leaves2(templates[loc], nw, lv)
                    except Unsupported: dead.add(loc); new = True; continue
                    for j, (h, u, ix) in enumerate(lv):
                        if not isund(u) and sorts[(loc, j)] == "I" and not is_int(u):
                            sorts[(loc, j)] = "R"; new = True
                        if (loc, j) in solved and u != solved[(loc, j)]:
                            if (loc, j) in early and early[(loc, j)][0] == solved[(loc, j)]:
                                if isund(u) or u != subst(solved[(loc, j)], {ts: t + 1}): del early[(loc, j)]; banned.add((loc, j)); moving.add((loc, j)); new = True
                            else: moving.add((loc, j)); new = True
            # removed cells: treat as unknown
        if new:
            for loc in list(W): template(loc)
            continue
        break
    else: raise Unsupported("loop-carried cells do not stabilise in " + where)
    # --- temporaries of the body: not read before they are written, and their variable is not mentioned outside the loop
    tmp = loop_temps(f, loop, regs)
    cand = [loc for loc in W if loc[0] in tmp and templates[loc] is not DEAD]
    if cand:
        used, names = set(), set()
        def note(x):
            nonlocal used, names
            if isinstance(x, (Poly, Bool)): names |= deep_names(x); used |= x.syms()
            else:
                used |= vsyms(x)
                l = []; map_leaves(x, lambda p, ix: (l.append(p), p)[1]) if isinstance(x, (Arr, Struct, Agg)) else None
                for p in l: names |= deep_names(p)
        for st_ in [b[0] for b in back] + [e[0] for e in exits] + [e[0] for e in terms]:
            for p in st_.pc: note(p)
            is_b = any(st_ is b[0] for b in back)
            for i, o in st_.objs.items():
                o0 = s.objs.get(i)
                if o is o0: continue
                for off, (sz_, v) in o.cells.items():
                    c0 = o0.cells.get(off) if o0 is not None else None
                    if c0 is not None and c0[1] is v and not (is_b and i in tmp): continue
                    if (i, off) in W and not is_b and i in tmp: continue
                    try: note(v)
                    except Exception: pass
        for o_ in self.obls[no:]: note(o_.goal)
        hit = False
        for loc in cand:
            lv = []; leaves2(templates[loc], W[loc][0], lv)
            if lv and all((h.single_atom() not in used) if h.single_atom() is None or h.single_atom().kind == "sym" else (h.single_atom().args[0] not in names) for h, v, ix in lv if h.single_atom() is not None):
                if any((loc, j) in early for j in range(len(lv))): continue
                dead.add(loc); template(loc); hit = True
        if hit:
            del self.obls[no:]
            s = start(); back, exits, terms = run_body(s)
            if not back: raise Unsupported("loop %s: no back edge" % where)
    # --- what was found, for the next time this loop is reached
    if True:
        cache["W"] = {enc(loc): (nw, sz) for loc, (v0, nw, sz) in W.items()}
        cache["dead"] = {enc(l) for l in dead}; cache["moving"] = {(enc(l), j) for l, j in moving}; cache["sorts"] = {(enc(l), j): x for (l, j), x in sorts.items()}
        cache["early"] = {}
        for (l, j), (r, nl) in early.items():
            e = subst(r, {ts: ONE}) - subst(r, {ts: ZERO})
            if e.const() is not None: cache["early"][(enc(l), j)] = (e, nl)
    # --- long loop-invariant real values get a name inside the loop
    if not named:
        back_m, st1 = name_reads(st0, reads, W)
        if back_m:
            cache["named"] = {enc(l) for l in reads}
            del self.obls[no:]
            return with_names(self, f, loop, st1, regs, prev, back_m, cache)
    # --- solve
    for rnd in range(8):
        unsolved_syms, unsolved_funs = set(), {}
        lvs = {}
        for loc, (v0, v1, sz) in W.items():
            lv = []; leaves2(templates[loc], v0, lv); lvs[loc] = lv
            for j, (h, v, ix) in enumerate(lv):
                if (loc, j) in solved: continue
                a = h.single_atom()
                if ix: unsolved_funs[a.args[0]] = (loc, j)
                else: unsolved_syms.add(a)
        if not unsolved_syms and not unsolved_funs: break
        # merged update values
        prog = False
        conds, common = merge_conds([b[0] for b in back], s)
        for loc in W:
            if all((loc, j) in solved for j in range(len(lvs[loc]))): continue
            ulists = []
            for b in back:
                c = b[0].objs[loc[0]].cells.get(loc[1])
                ul = []; leaves2(templates[loc], c[1] if c else UNDEF, ul); ulists.append(ul)
            for j, (h, v0, ix) in enumerate(lvs[loc]):
                if (loc, j) in solved: continue
                us = [ul[j][1] for ul in ulists]
                if any(isund(u) for u in us): continue
                U = us[-1]
                if not all(u == U for u in us):
                    for c, u in zip(conds[:-1][::-1], us[:-1][::-1]): U = vite(c, u, U)
                a = h.single_atom()
                own = a if not ix else None
                bad = (U.syms() & unsolved_syms) - ({own} if own else set())
                if bad: continue
                nm = deep_names(U) & set(unsolved_funs)
                if ix: nm -= {a.args[0]}
                if nm: continue
                if any(x.id > self.mark_sym and x not in ix and not x.args[0].startswith("#") for x in U.syms()): continue
                pass
                try:
                    if ix:
                        ud = unit_ix(s.objs[loc[0]].cells[loc[1]][1], set())
                        r = solve_fun(v0, a.args[0], ix, U, t, sorts[(loc, j)], [x for x in ix if x in ud] if len(ix) > 1 else ())
                    else: r = solve_scalar(v0, a, U, t)
                except (NoSolution, TermError) as e:
                    if self.debug: print("  unsolved", loc, j, U.key()[:900], e)
                    continue
                solved[(loc, j)] = r; prog = True
        if not prog: break
        # facts at the header from the continuation condition
        del self.obls[no:]
        s = start(); back, exits, terms = run_body(s)
        if not back: raise Unsupported("loop %s: no back edge" % where)
        nh, split = header_facts(self, st0, s, back, t, hdr)
        if split is not None:
            del self.obls[no:]
            ex, tm = [], []
            for c in (split, Not(split)):
                if not smt.feasible(st0.pc, c): continue
                s2 = st0.copy(); s2.assume(c)
                e2, t2 = run_loop(self, f, loop, s2, dict(regs), prev); ex += e2; tm += t2
            return ex, tm
        if nh:
            hdr += nh
            del self.obls[no:]
            s = start(); back, exits, terms = run_body(s)
    if self.debug:
        print("LOOP", where)
        for (loc, j), v in solved.items(): print("   ", loc, j, v.key()[:300])
        for h in hdr: print("    hdr", h)
    # --- inductiveness obligations (elements inside the container's range)
    allsolved = True
    def ranges(v, out):
        if isinstance(v, Struct):
            for o in sorted(v.c): ranges(v.c[o][1], out)
        elif isinstance(v, Arr):
            for i, d in zip(v.ix, v.dims): out[i] = And(LE(0, P(i)), LT(P(i), d))
            ranges(v.body, out)
        return out
    for loc, (v0, v1, sz) in W.items():
        lv = []; leaves2(templates[loc], v0, lv)
        if not lv: continue
        rg = ranges(s.objs[loc[0]].cells[loc[1]][1], {})
        rng = lambda ix, tv: And(*[subst_b(rg[i], {ts: tv}) for i in ix if i in rg])
        def obl(st, name, goal, r):
            if r is not TRUE: st = st.copy(); st.assume(r)
            self.oblige(st, name, goal, soft="inv", where=where)
        for b in back:
            c = b[0].objs[loc[0]].cells.get(loc[1])
            ul = []; leaves2(templates[loc], c[1] if c else UNDEF, ul)
            for j, (h, u, ix) in enumerate(ul):
                if (loc, j) not in solved: allsolved = False; continue
                if isund(u): continue
                obl(b[0], "loop invariant preserved", EQ(u, subst(solved[(loc, j)], {ts: t + 1})), rng(ix, t + 1))
        for j, (h, v, ix) in enumerate(lv):
            if (loc, j) in solved and not isund(v):
                obl(st0, "loop invariant established", EQ(v, subst(solved[(loc, j)], {ts: ZERO})), rng(ix, ZERO))
    # --- facts about earlier iterations
    commons = None
    for b in back:
        d = set(delta(b[0], s)); commons = d if commons is None else commons & d
    uns = set()
    for loc in W:
        lv = []; leaves2(templates[loc], W[loc][0], lv)
        for j, (h, v, ix) in enumerate(lv):
            if (loc, j) not in solved: uns.add(h.single_atom())
    unsf = {a.args[0] for a in uns if a.kind == "app"}
    uns = {a for a in uns if a.kind == "sym"}
    past = []
    for c in sorted(commons or ()):
        if ts not in c.syms(): continue
        if c.syms() & uns or deep_names(c) & unsf: continue
        if any(x.id > self.mark_sym and not x.args[0].startswith("#") for x in c.syms()): continue
        k = fresh("q", "I")
        past.append(Forall(k, ZERO, t, subst_b(c, {ts: k})))
    out = []
    for (es, er, tgt, pv) in exits:
        N = exit_count(self, st0, es, s, back, t)
        if N is not None:
            es = subst_state(es, {ts: N}); er = {k: vsubst(v, Subst({ts: N})) for k, v in er.items()}
            for x in past: es.assume(subst_b(x, {ts: N})) if not trivial_past(x) else None
        else:
            for x in past: es.assume(x)
        for loc in W:
            c = es.objs[loc[0]].cells.get(loc[1])
            if c and isinstance(c[1], Arr): es.w(loc[0]).cells[loc[1]] = (c[0], simp_arr(es, concretise(c[1])))
        out.append((es, er, tgt, pv))
    tm = []
    for (ss, kind, v) in terms:
        for x in past: ss.assume(x)
        tm.append((ss, kind, v))
    return out, tm

def simp_arr(st, a):
    """drop the case distinctions of an element function that its index range and the path condition settle
    (elements outside the range are never read: every access is obliged to be in range)"""
    if a.items is not None or not isinstance(a.body, (Poly, Bool)): return a
    body, ix = a.body, list(a.ix)
    m = {i: ZERO for i, d in zip(a.ix, a.dims) if d.const() == 1}
    if m: body = vsubst(body, Subst(m))
    rng = []
    for i, d in zip(a.ix, a.dims):
        if i not in m: rng += [LE(0, P(i)), LT(P(i), d)]
    if not isinstance(body, Poly): return Arr(a.dims, None, a.ix, body, a.tag)
    for _ in range(4):
        if T.EXPAND[0] == 0: break
        inds = [x for x in sorted(smt.walk_atoms(body, set())) if x.kind == "ind"]
        hit = {}
        for x in inds[:24]:
            c = x.args[0]
            if any(y.args[0].startswith("#") for y in c.syms()): continue
            if c.kind in ("lt", "le") or c.kind in ("eq", "and", "or", "not"):
                if not smt.feasible(tuple(st.pc) + tuple(rng), Not(c)): hit[x] = ONE
                elif c.kind != "eq" and not smt.feasible(tuple(st.pc) + tuple(rng), c): hit[x] = ZERO
        if not hit: break
        body = Subst({}, hit).poly(body)
    return Arr(a.dims, None, a.ix, body, a.tag)

def trivial_past(x):
    """the trip literal itself: says nothing more than the range"""
    if x.kind != "all": return False
    body = x.args[2]
    return not any(a.kind in ("app", "sum") for a in smt.walk_atoms(body, set()))

def header_facts(self, st0, s, back, t, have):
    """facts on t valid at the header by induction from literals common to all back edges; optionally a case split on the entry"""
    ts = t.single_atom()
    commons = None
    for b in back:
        d = set(delta(b[0], s)); commons = d if commons is None else commons & d
    out = []; split = None
    for c in sorted(commons or ()):
        if ts not in c.syms() or any(x.id > self.mark_sym and not x.args[0].startswith("#") for x in c.syms()): continue
        if c.kind == "le":
            l = lin(c.args[0], ts)
            if l is None or l[0] <= 0: continue
            if l[0] == 1:
                N = ONE - l[1]                        # t <= N-1 in the body
                if not is_int(N): continue
                r = self.decide(st0, LE(0, N))
                if r is True: g = LE(t, N)
                elif r is False: continue
                else: split = LE(N, 0); break
                if g not in have: out.append(g)
        elif c.kind == "not" and c.args[0].kind == "eq":
            l = lin(c.args[0].args[0], ts)
            if l is None or l[0] not in (1, -1): continue
            N = (-l[1]).scale(Fraction(1) / l[0])
            if not is_int(N): continue
            if self.known(st0, LE(0, N)):
                g = LE(t, N)
                if g not in have: out.append(g)
    return out, split

def exit_count(self, st0, es, s, back, t):
    """the number of completed iterations at this exit, when a unit-stride literal determines it"""
    ts = t.single_atom()
    commons = None
    for b in back:
        d = set(delta(b[0], s)); commons = d if commons is None else commons & d
    # unit-stride upper bounds known at the header
    ups = [x for x in s.pc if x.kind == "le" and ts in x.syms()]
    for c in delta(es, s):
        if ts not in c.syms() or c.kind not in ("le", "eq"): continue
        l = lin(c.args[0], ts)
        if l is None or l[0] not in (1, -1): continue
        if c.kind == "le":
            if l[0] != -1: continue
            N = l[1]                                   # t >= N
            if LE(t, N) in ups or LE(t, N) in s.pcset: return N
        else:
            N = (-l[1]).scale(Fraction(1) / l[0])
            if not is_int(N): continue
            return N
    return None

def subst_state(st, m):
    S = m if isinstance(m, Subst) else Subst(m); keys = frozenset(S.keys)
    r = st.copy()
    fun = isinstance(S, FSubst)
    for i, o in list(r.objs.items()):
        hit = [off for off, (sz, v) in o.cells.items() if fun or vsyms(v) & keys]
        if hit:
            w = r.w(i)
            for off in hit: w.cells[off] = (w.cells[off][0], vsubst(w.cells[off][1], S))
    r.pc, r.pcset = (), frozenset()
    for x in st.pc: r.assume(S.bool(x))
    return r
