"""Discharging obligations: canonical normalisation, case split on indicators, congruence, then SMT."""
import time, re, math, z3
from fractions import Fraction
from math import gcd
from terms import *
from terms import _intern, _bv, open_all, open_sum, Subst
import terms as T, smt
from smt import facts_of, instantiate, check, relevant, walk_atoms, STATS, PI, cvc5_check

class Res:
    def __init__(self, status, backend="", detail=""): self.status, self.backend, self.detail, self.model = status, backend, detail, None
    def __bool__(self): return self.status == "proved"
    def __repr__(self): return "%s[%s]%s" % (self.status, self.backend, (" " + self.detail) if self.detail else "")

PROVED = Res("proved", "norm")
MAX_SPLIT = 12
DEADLINE = [None]

def _timeup(): return DEADLINE[0] is not None and time.time() > DEADLINE[0]

def prove(facts, goal, budget=20.0, depth=0):
    if depth == 0:
        old = DEADLINE[0]
        DEADLINE[0] = time.time() + budget if old is None else min(old, time.time() + budget)
        facts = facts_of(facts); facts = facts + facts_of(trig_facts(facts))
        if SUM_RULES[0]: facts = facts + sum_rules(facts, B(goal))
        try: return _prove(with_axioms(facts, B(goal)) if AXIOMS else facts, B(goal), 0)
        finally: DEADLINE[0] = old
    return _prove(facts_of(facts), B(goal), depth)

def _prove(facts, goal, depth):
    if goal is TRUE: STATS["norm"] += 1; return PROVED
    fs = set(facts)
    if goal in fs or FALSE in fs: STATS["norm"] += 1; return PROVED
    k = goal.kind
    if k == "and":
        be = set()
        for g in goal.args:
            r = _prove(facts, g, depth)
            if not r: return r
            be.add(r.backend)
        return Res("proved", "+".join(sorted(be)))
    if k == "all":
        v, lo, hi, body = open_all(goal)
        return _prove(facts + facts_of([LE(lo, v), LT(v, hi)]), body, depth)
    if k == "not" and goal.args[0].kind == "all":
        return smt_prove(facts + facts_of([goal.args[0]]), FALSE)
    if k == "or":
        # implication form: assume the negation of all but one
        lits = list(goal.args)
        eq = [x for x in lits if x.kind == "eq"]
        cond = [x for x in eq if is_int(x.args[0])]      # case conditions
        pick = [x for x in eq if x not in cond] + [x for x in lits if x.kind in ("and", "all")] + cond
        if pick:
            d = pick[0]
            rest = [Not(x) for x in lits if x is not d]
            f2 = facts + facts_of(rest)
            if depth == 0 and not smt.feasible(f2, None): STATS["z3"] += 1; return Res("proved", "z3")
            return _prove(f2, d, depth)
        return smt_prove(facts, goal)
    if k == "eq":
        r = prove_eq(relevant(facts, goal) if len(facts) > 40 else facts, goal.args[0], depth)
        if not r and len(facts) > 40 and not _timeup() and not smt.feasible(facts, None): return Res("proved", "z3")
        if not r and r.status == 'unknown' and depth == 0 and len(facts) > 40 and not _timeup():
            r2 = prove_eq(facts, goal.args[0], depth)
            if r2: return r2
        return r
    p = goal.args[0] if k in ("le", "lt") else None
    if p is not None:
        eqs = equalities(facts)
        if eqs:
            g2 = apply_eqs_b(goal, eqs)
            if g2 is TRUE: STATS["norm"] += 1; return PROVED
    return smt_prove(facts, goal)

_sk = {}
def skolem(b):
    """a negated universal fact gets a witness (memoised, so the same fact has the same witness)"""
    if b.kind == "not" and b.args[0].kind == "all":
        if b not in _sk:
            v, lo, hi, body = open_all(b.args[0]); _sk[b] = And(LE(lo, v), LT(v, hi), Not(body))
        return _sk[b]
    if b.kind == "or" and any(x.kind == "not" and x.args[0].kind == "all" for x in b.args): return Or(*[skolem(x) for x in b.args])
    return b
def smt_prove(facts, goal):
    if goal.kind == "or" and any(x.kind == "not" and x.args[0].kind == "all" for x in goal.args):
        facts = facts + facts_of([x.args[0] for x in goal.args if x.kind == "not" and x.args[0].kind == "all"])
        goal = Or(*[x for x in goal.args if not (x.kind == "not" and x.args[0].kind == "all")])
    if any(f.kind in ("not", "or") for f in facts): facts = facts_of([skolem(f) for f in facts])
    if goal is FALSE and len(facts) > 40:
        # an unreachable path: one of its last conditions contradicts the others
        n = 0
        for f in reversed(facts):
            if f.kind == "all" or f.kind == "not" and f.args[0].kind == "all": continue
            n += 1
            if n > 14 or _timeup(): break
            if not smt.feasible([x for x in facts if x is not f], f): STATS["z3"] += 1; return Res("proved", "z3")
    inst = instantiate(facts, goal)
    fs = relevant(facts + inst, goal) if goal is not FALSE else facts + inst
    tmo = smt.TIMEOUT
    if DEADLINE[0] is not None: tmo = int(max(300, min(tmo, (DEADLINE[0] - time.time()) * 1000)))
    ng = Not(goal)
    if smt._intonly(goal) and smt.nonlinear([f for f in fs if smt._intonly(f)] + [goal]) and smt.lin_unsat(fs, ng): STATS["z3"] += 1; return Res("proved", "z3")
    r, m = check(fs, ng, tmo)
    if r == "unsat": STATS["z3"] += 1; return Res("proved", "z3")
    if r == "sat":
        x = Res("refuted", "z3", model_text(m)); x.model = model_dict(m); return x
    if not _timeup():
        o = cvc5_check(fs, ng, 4000)
        if o == "unsat": STATS["cvc5"] += 1; return Res("proved", "cvc5")
    return Res("unknown", "z3", "timeout/unknown")

def model_dict(m):
    out = {}
    if m is None: return out
    for d in m.decls():
        if d.arity() != 0: continue
        v = m[d]
        try:
            if v.sort().kind() == z3.Z3_INT_SORT: out[d.name()] = str(v.as_long())
            elif v.sort().kind() == z3.Z3_REAL_SORT:
                if z3.is_algebraic_value(v): v = v.approx(30)
                out[d.name()] = "%d/%d" % (v.numerator_as_long(), v.denominator_as_long())
        except Exception: pass
    return out
def model_text(m):
    if m is None: return ""
    out = []
    for d in m.decls():
        try: s = "%s=%s" % (d.name(), m[d])
        except Exception: continue
        if len(s) < 200: out.append(re.sub(r"\s+", " ", s))
    return "; ".join(sorted(out)[:40])

# ---------------------------------------------------------------- equalities
def _solve_for(p):
    """an equation p = 0 -> (atom, value) with atom a symbol/app occurring linearly"""
    best = None
    for mono, c in p.m.items():
        if len(mono) != 1: continue
        a, e = mono[0]
        if e != 1 or a.kind not in ("sym", "app") or (a.kind == "sym" and a.args[0] == "pi"): continue
        rest = Poly({k: v for k, v in p.m.items() if k != mono})
        if a.kind == "sym":
            if a in rest.syms(): continue
        else:
            if a in walk_atoms(rest, set()): continue
        if is_int(p) and c not in (1, -1): continue
        score = (0 if a.kind == "sym" and "!" in a.args[0] else 1 if a.kind == "sym" else 2, -a.id)
        if best is None or score < best[0]: best = (score, a, rest.scale(Fraction(-1) / c))
    return None if best is None else (best[1], best[2])

_eqcache = {}
def equalities(facts):
    key = frozenset(f for f in facts if f.kind in ("eq", "le"))
    if key in _eqcache: return _eqcache[key]
    eqs = []
    polys = [f.args[0] for f in facts if f.kind == "eq"]
    les = {f.args[0] for f in facts if f.kind == "le"}
    for p in les:
        if (-p) in les: polys.append(p)
    for p in polys:
        for s in eqs: p = s.poly(p)
        if not p.m: continue
        r = _solve_for(p)
        if r is None: continue
        a, v = r
        eqs.append(Subst({a: v}) if a.kind == "sym" else Subst({}, {a: v}))
    _eqcache[key] = eqs
    return eqs
def apply_eqs(p, eqs):
    for s in eqs: p = s.poly(p)
    return p
def apply_eqs_b(b, eqs):
    for s in eqs: b = s.bool(b)
    return b

# ---------------------------------------------------------------- trigonometry
def _lin_terms(p):
    return [(mono, c) for mono, c in p.m.items()]

def _multi(n, s, c):
    """(sin(n t), cos(n t)) in s=sin t, c=cos t"""
    if n < 0:
        a, b = _multi(-n, s, c); return -a, b
    S, C = ZERO, ONE
    for _ in range(n): S, C = S * c + C * s, C * c - S * s
    return S, C

def _pi_sc(q):
    q = q % 2
    t = {Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1), Fraction(3, 2): (-1, 0)}
    if q in t: return P(t[q][0]), P(t[q][1])
    half = Fraction(1, 2); r2 = app("sqrt", P(2)).scale(half); r3 = app("sqrt", P(3)).scale(half)
    u = {Fraction(1, 4): (r2, r2), Fraction(1, 6): (P(half), r3), Fraction(1, 3): (r3, P(half))}
    n, f = divmod(q, Fraction(1, 2))
    if f in u:
        s, c = u[f]
        for _ in range(int(n)): s, c = c, -s
        return s, c
    return None

def trig_atoms(p):
    return [a for a in set(p.atoms()) if a.kind == "app" and a.args[0] in ("sin", "cos")]

def trig_facts(facts):
    """inequalities between trigonometric polynomials, over common base angles"""
    fs = [f for f in facts if f.kind in ("le", "lt") and len(f.args[0].m) <= 60 and trig_atoms(f.args[0])]
    if not fs or len(fs) > 16: return []
    at = sorted({a for f in fs for a in trig_atoms(f.args[0])})
    if len(at) < 3: return []
    out = []
    for f in fs:
        q = trig_norm(f.args[0], at)
        g = LE(q, 0) if f.kind == "le" else LT(q, 0)
        if q != f.args[0] and g is not TRUE: out.append(g)
    return out
def trig_norm(p, ats=()):
    at = trig_atoms(p)
    if not at: return p
    base = {}
    for a in set(at) | set(ats):
        arg = a.args[1]
        for mono, c in arg.m.items():
            c = abs(Fraction(c))
            if mono in base:
                g = base[mono]
                base[mono] = Fraction(gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator)
            else: base[mono] = c
    m = {}
    pim = PI.single_atom()
    for a in at:
        arg = a.args[1]
        S, C = ZERO, ONE
        for mono, c in arg.m.items():
            c = Fraction(c)
            if mono == ((pim, 1),) and _pi_sc(c) is not None:
                s1, c1 = _pi_sc(c)
            else:
                g = base[mono]; n = c / g
                if n.denominator != 1 or abs(n) > 24: s1, c1 = app("sin", Poly({mono: norm_c(c)})), app("cos", Poly({mono: norm_c(c)}))
                else:
                    b = Poly({mono: norm_c(g)})
                    s1, c1 = _multi(int(n), app("sin", b), app("cos", b))
            S, C = S * c1 + C * s1, C * c1 - S * s1
        m[a] = S if a.args[0] == "sin" else C
    # simultaneous replacement
    r = ZERO
    for mono, c in p.m.items():
        t = P(c)
        for a, e in mono:
            if a in m:
                t = t * (power(m[a], e) if not (isinstance(e, int) and e < 0) else power(m[a], e))
            else: t = t * Poly({((a, e),): 1})
        r = r + t
    return trig_sq(r)

def trig_sq(p):
    """cos^2 -> 1 - sin^2"""
    r = {}
    add = ZERO
    for mono, c in p.m.items():
        hit = None
        for a, e in mono:
            if a.kind == "app" and a.args[0] == "cos" and isinstance(e, int) and e >= 2: hit = (a, e); break
        if hit is None:
            r[mono] = norm_c(r.get(mono, 0) + c)
            if r[mono] == 0: del r[mono]
            continue
        a, e = hit
        rest = tuple((x, y) for x, y in mono if x is not a)
        s = app("sin", a.args[1])
        t = Poly({rest: c}) * power(ONE - s * s, e // 2) * (P(a) if e % 2 else ONE)
        add = add + t
    q = Poly(r)
    if add.m: q = q + trig_sq(add)
    return q

def sqrt_sq(facts, p):
    hits = {}
    for mono in p.m:
        for a, e in mono:
            if a.kind == "app" and a.args[0] == "sqrt" and isinstance(e, int) and (e >= 2 or e <= -2): hits[a] = 1
    if not hits: return p
    ok = {}
    for a in hits:
        q = a.args[1]
        ok[a] = _sos(q) or bool(smt_prove(facts, GE(q, 0)))
    r = ZERO
    for mono, c in p.m.items():
        t = P(c)
        for a, e in mono:
            if ok.get(a) and isinstance(e, int) and abs(e) >= 2:
                n = abs(e) // 2; n = n if e > 0 else -n
                t = t * power(a.args[1], n) * power(P(a), e - 2 * n)
            else: t = t * Poly({((a, e),): 1})
        r = r + t
    return r
def _sos(q):
    return all((c > 0 and all(isinstance(e, int) and e % 2 == 0 for a, e in mono)) for mono, c in q.m.items())

# ---------------------------------------------------------------- equality of polynomials
def clear_den(p):
    """multiply out negative powers; returns numerator"""
    for _ in range(30):
        mins = {}
        for mono in p.m:
            for a, e in mono:
                if isinstance(e, int) and e < 0: mins[a] = min(mins.get(a, 0), e)
        if mins:
            f = tuple(sorted(((a, -e) for a, e in mins.items()), key=lambda t: t[0].id))
            p = p * Poly({f: 1})
        # expand polynomial atoms at non-negative powers
        ex = any(a.kind == "poly" and isinstance(e, int) and e > 0 for mono in p.m for a, e in mono)
        if not ex:
            if not mins: return p
            continue
        r = ZERO
        for mono, c in p.m.items():
            t = Poly({tuple(x for x in mono if not (x[0].kind == "poly" and isinstance(x[1], int) and x[1] > 0)): c})
            for a, e in mono:
                if a.kind == "poly" and isinstance(e, int) and e > 0: t = t * power(a.args[0], e)
            r = r + t
            if len(r.m) > 30000: raise TermError("too large")
        p = r
    return p

def _free_ind(p):
    """indicator atoms occurring in p (also inside application arguments and denominators), innermost last"""
    at = walk_atoms(p, set())
    return sorted([a for a in at if a.kind == "ind"], key=lambda a: (a.hgt, a.id))

def prove_eq(facts, p, depth):
    if not p.m: STATS["norm"] += 1; return PROVED
    if _timeup(): return Res("unknown", "norm", "time budget")
    eqs = equalities(facts)
    q = apply_eqs(p, eqs)
    if not q.m: STATS["norm"] += 1; return PROVED
    q = simp_fdiv(facts, q)
    if not q.m: STATS["norm"] += 1; return PROVED
    sp = small_range(facts, q)
    if sp is not None and depth < MAX_SPLIT + 4:
        s, lo, hi = sp; bk = set()
        for v in range(lo, hi + 1):
            S = Subst({s: P(v)})
            f2 = facts_of([S.bool(f) for f in facts])
            if FALSE in f2 or not smt.feasible(f2, None): continue
            r = prove_eq(f2, S.poly(q), depth + 1)
            if not r: return r
            bk.add(r.backend)
        return Res("proved", "+".join(sorted(bk)) or "norm")
    inds = _free_ind(q)
    if inds and depth < MAX_SPLIT:
        a = inds[0]; c = a.args[0]
        # decide it if the facts do
        bk = set()
        for val, cond in ((ONE, c), (ZERO, Not(c))):
            if not smt.feasible(facts, cond): continue
            q2 = Subst({}, {a: val}).poly(q)
            if not q2.m: bk.add("norm"); continue
            r = prove_eq(facts + facts_of([cond]), q2, depth + 1)
            if not r: return r if r.detail or r.model else Res(r.status, r.backend, "case %s" % cond.key())
            bk.add(r.backend)
        STATS["norm"] += 1
        return Res("proved", "+".join(sorted(bk)) or "norm")
    try:
        q = clear_den(q)
        if not q.m: STATS["norm"] += 1; return PROVED
        q = apply_eqs(q, eqs)
        q = trig_norm(q)
        q = sqrt_sq(facts, q)
        q = clear_den(q)
        q = trig_norm(q) if trig_atoms(q) else q
        if not q.m: STATS["norm"] += 1; return PROVED
    except TermError as e:
        return Res("unknown", "norm", str(e))
    if sum(1 for m in q.m if any(a.kind == "sum" for a, e in m)) > 1:
        q5 = flat_sums(q)
        if not q5.m: STATS["norm"] += 1; return PROVED
        if len(q5.m) < len(q.m): q = q5
    # congruence of applications
    if depth < 30 and (any(f.kind == "eq" for f in facts) or any(a.kind == "app" and a.args[0] in DEEPF for a in q.atoms())):
        try:
            q3 = deep_norm(facts, q)
            if q3 != q:
                q3 = clear_den(sqrt_sq(facts, clear_den(q3)))
                if not q3.m: STATS["norm"] += 1; return PROVED
                q4 = deep_norm(facts, q3)
                if not q4.m: STATS["norm"] += 1; return PROVED
                if _free_ind(q4): return prove_eq(facts, q4, depth + 1)
                q = q4
        except TermError: pass
    q2 = congruence(facts, q)
    if q2 is not None and q2 != q:
        if not q2.m: return Res("proved", "norm+z3")
        if depth < MAX_SPLIT + 6: return prove_eq(facts, q2, depth + 1)
    r = split_index(facts, q, depth)
    if r is not None: return r
    if len(q.m) > 400: return Res("unknown", "norm", "residue with %d terms" % len(q.m))
    r = smt_prove(facts, eq0(q))
    if not r and not smt.feasible(facts, None): STATS["z3"] += 1; return Res("proved", "z3")
    if not r: r.detail = "residue: %s ; %s" % (q.key()[:400], r.detail)
    return r

def _flat(mono, vs, out, c, budget):
    """product of factors -> list of (coefficient, sum variables, factors outside every sum's body), sums opened"""
    for n, (a, e) in enumerate(mono):
        if a.kind == "sum" and e == 1:
            v, hi, body = T.open_sum(a)
            if any(x in hi.syms() for x, _ in vs): raise TermError("dependent bound")
            rest = Poly({mono[:n] + mono[n + 1:]: 1})
            for m2, c2 in (rest * body).m.items(): _flat(m2, vs + [(v.single_atom(), hi)], out, c * c2, budget)
            return
    budget[0] -= 1
    if budget[0] < 0: raise TermError("too many terms")
    out.append((c, vs, mono))
_CV = {}
def flat_sums(q):
    """cancel products and nestings of sums over independent ranges that differ only in the order of summation"""
    import itertools as it
    acc = {}; budget = [400]
    for mono, c in q.m.items():
        if not any(a.kind == "sum" for a, e in mono): acc[(mono,)] = (acc.get((mono,), (0, None))[0] + c, Poly({mono: 1})); continue
        out = []
        try: _flat(mono, [], out, c, budget)
        except TermError:
            if budget[0] < 0: return q
            acc[(mono,)] = (acc.get((mono,), (0, None))[0] + c, Poly({mono: 1})); continue
        if len(out) != 1: acc[(mono,)] = (acc.get((mono,), (0, None))[0] + c, Poly({mono: 1})); continue
        c2, vs, body = out[0]
        groups = {}
        for v, hi in vs: groups.setdefault(hi.key(), []).append(v)
        n = 1
        for g in groups.values(): n *= math.factorial(len(g))
        if n > 100: return q
        best = None
        for ps in it.product(*[it.permutations(groups[k]) for k in sorted(groups)]):
            m = {}; j = 0
            for p_ in ps:
                for v in p_:
                    if j not in _CV: _CV[j] = fresh("cv", "I")
                    m[v] = _CV[j]; j += 1
            b = subst(Poly({body: 1}), m)
            k = b.key()
            if best is None or k < best[0]: best = (k, b)
        key = (tuple((k, len(groups[k])) for k in sorted(groups)), best[0])
        # the substitution may have brought out a sign or a factor
        o = acc.get(key)
        acc[key] = ((o[0] if o else 0) + c2, o[1] if o else Poly({mono: norm_c(Fraction(c) / Fraction(c2))}))
    r = ZERO
    for c, rep in acc.values():
        if c != 0: r = r + rep.scale(c)
    return r

def poly_div(a, m):
    """a = quotient*m + remainder by the leading monomial of m (polynomial long division)"""
    lead = max((k for k in m.m if k), key=lambda k: (sum(e for _, e in k), tuple(sorted(x.id for x, _ in k))), default=None)
    if lead is None: return None
    lc = m.m[lead]; ld = dict(lead); q = ZERO
    for _ in range(40):
        hit = None
        for k, c in a.m.items():
            d = dict(k)
            if all(isinstance(d.get(x), int) and d[x] >= e for x, e in ld.items()) and Fraction(c, 1) % Fraction(lc) == 0: hit = (k, c); break
        if hit is None: break
        k, c = hit; d = dict(k)
        for x, e in ld.items():
            d[x] -= e
            if d[x] == 0: del d[x]
        f = P(Fraction(c) / Fraction(lc))
        for x, e in d.items(): f = f * power(P(x), e)
        q = q + f; a = a - f * m
    return q, a
_fd = {}
def simp_fdiv(facts, q):
    """floor divisions settled by the facts: fdiv(a, m) = d as soon as 0 <= a - d*m < m"""
    for _ in range(6):
        at = sorted(x for x in walk_atoms(q, set()) if x.kind == "app" and x.args[0] == "fdiv")
        at = [x for x in at if not any(y.args[0].startswith("#") for y in x.syms)]
        ch = False
        for x in at:
            a, m = x.args[1:]
            key = (x, frozenset(f for f in facts if f.syms() & x.syms))
            if key not in _fd:
                cand = []
                r = poly_div(a, m)
                if r: cand.append(r[0])
                for f in facts:
                    if f.kind not in ("le", "eq") or not (f.syms() & a.syms()): continue
                    for s_ in a.syms():
                        l = T.lin(f.args[0], s_); la = T.lin(a, s_)
                        if l is None or la is None or l[0] not in (1, -1) or s_ in l[1].syms() or la[0] not in (1, -1): continue
                        r = poly_div(subst(a, {s_: -l[1] * P(l[0])}), m)
                        if r and r[1].const() is not None: cand += [r[0], r[0] - 1]
                seen = []
                _fd[key] = None
                for d in cand:
                    if d in seen or x in walk_atoms(d, set()): continue
                    seen.append(d)
                    if len(seen) > 6: break
                    if smt_quick(facts, LE(0, a - d * m), 2, 200) and smt_quick(facts, LT(a - d * m, m), 2, 200): _fd[key] = d; break
            d = _fd[key]
            if d is not None:
                q = Subst({}, {x: d}).poly(q); ch = True; break
        if not ch: return q
    return q

def saturate(facts, q):
    """adds the instances, at the index terms of q, of universal facts whose range condition the facts entail"""
    idx = {}
    for a in walk_atoms(q, set()):
        if a.kind == "app":
            for x in a.args[1:]:
                if isinstance(x, Poly) and is_int(x): idx[x] = 1
    out = []
    for f in facts:
        if f.kind != "all": continue
        lo, hi, body = f.args
        for t in list(idx)[:8]:
            for g in ((LE(lo, t), LT(t, hi)),):
                if all(smt_quick(facts, c) for c in g): out.append(subst_b(body, {_bv(f.hgt()): t}))
    return facts + facts_of(out)

_deepfn = smt.deep_fn
def split_index(facts, q, depth):
    """two index terms that the facts keep within one of each other: a case per difference"""
    if depth >= MAX_SPLIT: return None
    facts = relevant(facts, EQ(q, 0)) if not q.const() else facts
    groups = {}
    for a in walk_atoms(q, set()):
        if a.kind == "app" and len(a.args) == 2 and isinstance(a.args[1], Poly) and is_int(a.args[1]): groups.setdefault(a.args[0], set()).add(a.args[1])
    done = 0; seen = set()
    for nm in sorted(groups):
        l = sorted(groups[nm], key=lambda p: p.key())
        for i in range(len(l)):
            for j in range(i + 1, len(l)):
                d = l[i] - l[j]
                d = d - P(d.const_part())
                if not d.m or d in seen or -d in seen: continue
                seen.add(d); done += 1
                if done > 6: return None
                r = None
                own = smt._fnames(EQ(d, 0)) | {nm}
                near = [f for f in facts if _deepfn(f) <= own]
                for fs in ((near, facts) if len(near) < len(facts) else (facts,)):
                    for lo, hi in ((-1, 1), (0, 2), (-2, 0)):
                        if smt_quick(fs, LE(d, hi), 2, 250) and smt_quick(fs, GE(d, lo), 2, 250): r = (lo, hi); break
                    if r: break
                if r is None: continue
                sol = _solve_for(d); 
                if sol is None: continue
                bk = set()
                for v in range(r[0], r[1] + 1):
                    a, val = _solve_for(d - v)
                    S = Subst({a: val}) if a.kind == "sym" else Subst({}, {a: val})
                    f2 = facts_of([S.bool(f) for f in facts])
                    if FALSE in f2: continue
                    q2 = S.poly(q)
                    f2 = saturate(f2, q2)
                    if FALSE in f2 or not smt.feasible(f2, None): continue
                    x = prove_eq(f2, q2, depth + 2)
                    if not x: return x
                    bk.add(x.backend)
                return Res("proved", "+".join(sorted(bk)) or "norm")
    return None

# definitional axioms of functions introduced by trusted contracts: name -> function of the argument terms -> facts
AXIOMS = smt.DEFAX
SUM_RULES = [False]
def _has_sum(b, names):
    if isinstance(b, Poly):
        for mono in b.m:
            for a, e in mono:
                if a.kind == "sum": return True
                if a.kind == "ind" and _has_sum(a.args[0], names): return True
        return False
    if isinstance(b, Bool):
        if b.kind == "all": return _has_sum(b.args[2], names)
        return any(_has_sum(z, names) for z in b.args if isinstance(z, (Poly, Bool)))
    return False
def sum_rules(facts, goal):
    """universally quantified equations between sums (matrix identities), instantiated at the integer symbols of the goal"""
    rules = [f for f in facts if f.kind == "all" and _has_sum(f, None)] if _has_sum(goal, None) else []
    if not rules: return []
    ix = [P(a) for a in sorted(goal.syms(), key=lambda a: a.id) if a.kind == "sym" and a.sort == "I"]
    ix = [x for x in ix if "!" in x.key()][:4]
    out = []
    memo = {}
    def inrange(lo, v, hi):
        k = (lo, v, hi)
        if k not in memo: memo[k] = not smt.feasible(facts, Not(And(LE(lo, v), LT(v, hi)))) if v.const() is None or lo.const() is None or hi.const() is None else lo.const() <= v.const() < hi.const()
        return memo[k]
    def inst(f, depth):
        if f.kind != "all": out.extend(facts_of([f])); return
        if depth > 2: return
        v, lo, hi, body = open_all(f)
        for x in ix:
            if inrange(lo, x, hi): inst(subst_b(body, {v.single_atom(): x}), depth + 1)
    for f in rules: inst(f, 0)
    return out
def with_axioms(facts, goal):
    out = []; done = set(); todo = list(facts) + [goal]
    while todo:
        at = set()
        for b in todo: walk_atoms(b, at)
        todo = []
        for a in at:
            if a.kind == "app" and a.args[0] in AXIOMS and a not in done:
                done.add(a); todo += facts_of(AXIOMS[a.args[0]](*a.args[1:]))
        out += todo
    return facts + [f for f in out if f not in facts] if out else facts

def small_range(facts, q):
    """an integer symbol of q that the facts confine to at most four values"""
    lo, hi = {}, {}
    for f in facts:
        if f.kind == "le" and len(f.args[0].m) <= 2:
            p = f.args[0]
            for mono, c in p.m.items():
                if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == "sym" and mono[0][0].sort == "I" and c in (1, -1):
                    rest = p - Poly({mono: c})
                    k = rest.const()
                    if k is None or Fraction(k).denominator != 1: continue
                    s = mono[0][0]
                    if c == 1: hi[s] = min(hi.get(s, -k), -k)
                    else: lo[s] = max(lo.get(s, k), k)
    qs = q.syms()
    for s in sorted(lo):
        if s in hi and s in qs and hi[s] - lo[s] <= 3: return s, int(lo[s]), int(hi[s])
    return None

def congruence(facts, q):
    """merge application atoms whose arguments the facts make equal; symbolic powers likewise; opaque sums with equal bounds"""
    at = sorted(walk_atoms(q, set()), key=lambda a: a.id)
    groups = {}
    for a in at:
        if a.kind == "app" and len(a.args) > 1: groups.setdefault((a.args[0], len(a.args)), []).append(a)
    n = 0
    for (nm, k), l in groups.items():
        if len(l) < 2: continue
        for i in range(len(l)):
            for j in range(i + 1, len(l)):
                x, y = l[i], l[j]
                ok = True; n += 1
                if n > 120: return None
                for u, v in zip(x.args[1:], y.args[1:]):
                    if u == v: continue
                    if isinstance(u, Poly) and isinstance(v, Poly):
                        d = u - v
                        if d.const() is not None: ok = False; break
                        if not smt_quick(facts, eq0(d)): ok = False; break
                    else: ok = False; break
                if ok: return Subst({}, {y: P(x)}).poly(q)
                if k == 2 and nm in ("asin", "sin", "atan", "tan", "sinh", "tanh"):
                    d = x.args[1] + y.args[1]
                    if d.const() is None and smt_quick(facts, eq0(d)): return Subst({}, {y: -P(x)}).poly(q)
    sums = [a for a in at if a.kind == "sum"]
    for i in range(len(sums)):
        for j in range(i + 1, len(sums)):
            x, y = sums[i], sums[j]
            if x.args[1] == y.args[1] and x.args[0] != y.args[0]:
                d = x.args[0] - y.args[0]
                if d.const() is None and smt_quick(facts, eq0(d)): return Subst({}, {y: P(x)}).poly(q)
    # a sum whose upper bound the facts force to a constant <= small
    for x in sums:
        for c in (0,):
            if x.args[0].const() is None and smt_quick(facts, eq0(x.args[0] - c)): return Subst({}, {x: ZERO}).poly(q)
    exps = {}
    for mono in q.m:
        for a, e in mono:
            if not isinstance(e, int): exps.setdefault(a, set()).add(e)
    return None

def smt_quick(facts, goal, rounds=1, limit=80):
    if goal is TRUE: return True
    if goal is FALSE: return False
    if not (is_int(goal.args[0])) and goal.kind == "eq" and len(goal.args[0].m) > 12: return False
    inst = instantiate(facts, goal, rounds=rounds, limit=limit)
    fs = relevant(facts + inst, goal) if goal is not FALSE else facts + inst
    if smt._intonly(goal) and smt.nonlinear([f for f in fs if smt._intonly(f)] + [goal]) and smt.lin_unsat(fs, Not(goal)): return True
    r, m = check(fs, Not(goal), 600)
    return r == "unsat"

# ---------------------------------------------------------------- normal form under function symbols
DEEPF = ("atan2", "asin", "acos", "atan", "sqrt")
def square_rules(facts):
    """a^2 = e from an equation in which the symbol a occurs only as a^2"""
    out = []
    for f in facts:
        if f.kind != "eq": continue
        p = f.args[0]
        for s, v in out: p = _sqapply(p, s, v)
        best = None
        for mono, c in p.m.items():
            if len(mono) == 1 and mono[0][1] == 2 and mono[0][0].kind == "sym" and mono[0][0].sort == "R":
                a = mono[0][0]; rest = Poly({k: v for k, v in p.m.items() if k != mono})
                if a not in rest.syms() and (best is None or a.id < best[0].id): best = (a, rest.scale(Fraction(-1) / c))
        if best: out.append(best)
    return out
def _sqapply(p, s, v):
    for _ in range(40):
        r = ZERO; hit = False
        for mono, c in p.m.items():
            e = next((e for a, e in mono if a is s), 0)
            if isinstance(e, int) and e >= 2:
                hit = True
                r = r + Poly({tuple(x for x in mono if x[0] is not s): c}) * power(v, e // 2) * (P(s) if e % 2 else ONE)
            else: r = r + Poly({mono: c})
        if not hit: return p
        p = r
    return p
def poly_sqrt(X):
    """h with h*h = X as polynomials"""
    if not X.m: return ZERO
    import sympy
    at = sorted(X.atoms()); sy = {a: sympy.Symbol("v%d" % i) for i, a in enumerate(at)}
    e = sympy.Integer(0)
    for mono, c in X.m.items():
        t = sympy.Rational(Fraction(c).numerator, Fraction(c).denominator)
        for a, k in mono:
            if not isinstance(k, int): return None
            t *= sy[a] ** k
        e += t
    num, den = sympy.fraction(sympy.together(e))
    out = sympy.Integer(1)
    for part, sg in ((num, 1), (den, -1)):
        c, fs = sympy.factor_list(part)
        r = sympy.sqrt(c)
        if not r.is_Rational: return None
        out *= r ** sg
        for f, k in fs:
            if k % 2: return None
            out *= f ** (sg * (k // 2))
    back = {v: a for a, v in sy.items()}
    n2, d2 = sympy.fraction(out)
    def conv(x):
        r = ZERO
        for mono, c in sympy.Poly(x, *[sy[a] for a in at]).terms() if at else [((), x)]:
            t = P(Fraction(int(c.p), int(c.q)))
            for a, k in zip(at, mono):
                if k: t = t * power(P(a), k)
            r = r + t
        return r
    h = conv(n2) * inv(conv(d2))
    return h
def deep_norm(facts, q):
    ats = walk_atoms(q, set())
    if not any(a.kind == "app" and a.args[0] in DEEPF + ("sin", "cos") for a in ats): 
        sq = square_rules(facts)
        for s, v in sq: q = _sqapply(q, s, v)
        return q
    eqf = [f for f in facts if f.kind == "eq" and any(a.kind == "app" and a.args[0] in DEEPF for a in walk_atoms(f, set()))]
    sq = square_rules(facts)
    allat = set(ats)
    for f in eqf: allat |= walk_atoms(f, set())
    trig = [a for a in allat if a.kind == "app" and a.args[0] in ("sin", "cos")]
    tsum = sum((P(a) for a in sorted(trig)), ZERO)
    tm = {}
    for a in trig:       # one at a time, but with the common base: pair it with all the others
        tm[a] = None
    def tnorm(p):
        """trig_norm with the base common to all trigonometric arguments"""
        if not trig_atoms(p): return p
        m = sym("deep!mark")
        r = trig_norm(p + tsum * m)
        return trig_sq(Poly({k: c for k, c in r.m.items() if not any(x is m.single_atom() for x, _ in k)}))
    memo = {}
    def go(p):
        r = memo.get(p)
        if r is not None: return r
        out = ZERO
        for mono, c in p.m.items():
            t = P(c)
            for a, e in mono:
                if a.kind == "app" and a.args[0] in DEEPF: t = t * power(atom(a), e)
                else: t = t * Poly({((a, e),): 1})
            out = out + t
        out = tnorm(out)
        for s, v in sq: out = _sqapply(out, s, v)
        memo[p] = out
        return out
    def atom(a):
        nm = a.args[0]; args = [go(x) for x in a.args[1:]]
        if nm == "sqrt":
            h = poly_sqrt(args[0])
            if h is None and trig:
                for x in trig_atoms(args[0]):          # k^2 (1 - sin^2) = (k cos)^2
                    if x.args[0] != "sin": continue
                    k, rem = T.poly_divmod(args[0], ONE - P(x) * P(x))
                    if rem is not None and not rem.m:
                        k = poly_sqrt(k)
                        if k is not None: h = k * app("cos", x.args[1]); break
            if h is not None:
                fs = facts + [T._b(f.kind, go(f.args[0])) for f in facts if f.kind in ("le", "lt") and trig_atoms(f.args[0])]
                if smt_prove(fs, GE(h, 0)): return h
                if smt_prove(fs, LE(h, 0)): return -h
                return ite(LT(h, 0), -h, h)
        if nm in ("asin", "atan") and args[0].m:
            m = min(args[0].m.items(), key=lambda kv: tuple((x.key(), str(e)) for x, e in kv[0]))
            if m[1] < 0: return -app(nm, -args[0])
        return app(nm, *args)
    q2 = go(q)
    eqs = []
    for f in eqf:
        p = go(f.args[0])
        for s in eqs: p = s.poly(p)
        best = None
        for mono, c in p.m.items():
            if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == "app" and mono[0][0].args[0] in DEEPF:
                a = mono[0][0]; rest = Poly({k: v for k, v in p.m.items() if k != mono})
                if a in walk_atoms(rest, set()): continue
                if best is None or a.hgt > best[0].hgt: best = (a, rest.scale(Fraction(-1) / c))
        if best: eqs.append(Subst({}, {best[0]: best[1]}))
    q2 = apply_eqs(q2, eqs)
    return q2
