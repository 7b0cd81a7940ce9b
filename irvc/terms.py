"""Canonical terms: polynomials (ints / reals) over interned atoms, booleans, finite sums.

Every equality the normaliser decides is decided by rewriting both sides to this canonical form
(ring axioms, x*x^-1 = 1 with the non-zero obligation emitted at the division, index shift and
telescoping of finite sums, 0/1 indicators for case distinctions).
"""
from fractions import Fraction
import itertools

class TermError(Exception): pass
EXPAND = [40]      # constant-length sums up to this length are written out

def norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1: return c.numerator
    return c

_atoms = {}
_ids = itertools.count(1)
_fresh = itertools.count(1)

class Atom:
    __slots__ = ("kind", "args", "sort", "id", "syms", "hgt", "_key", "_h")
    def __repr__(self): return self.key()
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id
    def key(self):
        if self._key is None:
            k, a = self.kind, self.args
            if k == "sym": s = a[0]
            elif k == "num": s = "(%s)" % a[0]
            elif k == "app": s = "%s(%s)" % (a[0], ", ".join(_k(x) for x in a[1:]))
            elif k == "ind": s = "[%s]" % a[0].key()
            elif k == "poly": s = "{%s}" % a[0].key()
            elif k == "sum": s = "Sum(#%d<%s: %s)" % (self.hgt, a[0].key(), a[1].key())
            else: s = k + repr(a)
            self._key = s
        return self._key

def _k(x): return x.key() if hasattr(x, "key") else str(x)

def _syms_of(args):
    s = frozenset(); h = 0
    for x in args:
        if isinstance(x, (Poly, Bool)):
            s |= x.syms(); h = max(h, x.hgt())
        elif isinstance(x, tuple):
            s2, h2 = _syms_of(x); s |= s2; h = max(h, h2)
    return s, h

def _intern(kind, args, sort):
    key = (kind, args, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom(); a.kind, a.args, a.sort, a.id, a._key = kind, args, sort, next(_ids), None
        a._h = hash(a.id * 2654435761)
        if kind == "sym": a.syms, a.hgt = frozenset((a,)), 0
        else:
            a.syms, a.hgt = _syms_of(args)
            if kind == "sum":
                a.hgt += 1
                a.syms = a.syms - {_bv(a.hgt)}
        _atoms[key] = a
    return a

_bvs = {}
def _bv(h):
    if h not in _bvs: _bvs[h] = _intern("sym", ("#%d" % h,), "I")
    return _bvs[h]

class Poly:
    __slots__ = ("m", "_hash", "_syms", "_hgt", "_key")
    def __init__(self, m):
        self.m = m; self._hash = None; self._syms = None; self._hgt = None; self._key = None
    def __hash__(self):
        if self._hash is None: self._hash = hash(frozenset(self.m.items()))
        return self._hash
    def __eq__(self, o):
        if not isinstance(o, Poly): return NotImplemented
        return self is o or self.m == o.m
    def key(self):
        if self._key is None:
            if not self.m: self._key = "0"
            else:
                parts = []
                for mono, c in self.m.items():
                    fs = []
                    for a, e in mono:
                        fs.append(a.key() if (isinstance(e, int) and e == 1) else "%s^%s" % (a.key(), e if isinstance(e, int) else "(" + e.key() + ")"))
                    fs.sort()
                    b = "*".join(fs)
                    parts.append((b, "%s" % c if not b else (b if c == 1 else ("-" + b if c == -1 else "%s*%s" % (c, b)))))
                parts.sort()
                self._key = " + ".join(p[1] for p in parts)
        return self._key
    __repr__ = key
    def syms(self):
        if self._syms is None:
            s = frozenset()
            for mono in self.m:
                for a, e in mono:
                    s |= a.syms
                    if not isinstance(e, int): s |= e.syms()
            self._syms = s
        return self._syms
    def hgt(self):
        if self._hgt is None:
            h = 0
            for mono in self.m:
                for a, e in mono:
                    h = max(h, a.hgt)
                    if not isinstance(e, int): h = max(h, e.hgt())
            self._hgt = h
        return self._hgt
    # -- constants
    def is_const(self): return not self.m or (len(self.m) == 1 and () in self.m)
    def const(self):
        if not self.m: return 0
        if self.is_const(): return self.m[()]
        return None
    def const_part(self): return self.m.get((), 0)
    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if not o.m: return self
        if not self.m: return o
        a, b = (self, o) if len(self.m) >= len(o.m) else (o, self)
        r = dict(a.m)
        for k, v in b.m.items():
            x = r.get(k, 0) + v
            if x == 0: r.pop(k, None)
            else: r[k] = norm_c(x)
        return Poly(r)
    __radd__ = __add__
    def __neg__(self): return Poly({k: -v for k, v in self.m.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self
    def scale(self, c):
        if c == 0: return ZERO
        if c == 1: return self
        return Poly({k: norm_c(v * c) for k, v in self.m.items()})
    def __mul__(self, o):
        o = P(o)
        if not self.m or not o.m: return ZERO
        c = o.const()
        if c is not None: return self.scale(c)
        c = self.const()
        if c is not None: return o.scale(c)
        if len(self.m) * len(o.m) > 400000: raise TermError("polynomial too large")
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k, cc = mono_mul(k1, k2)
                if cc == 0: continue
                x = r.get(k, 0) + v1 * v2 * cc
                if x == 0: r.pop(k, None)
                else: r[k] = norm_c(x)
        return Poly(r)
    __rmul__ = __mul__
    def __truediv__(self, o): return self * inv(P(o))
    def __rtruediv__(self, o): return P(o) * inv(self)
    def __pow__(self, e): return power(self, e)
    def deg_sym(self, s):
        """None if not polynomial in s with s only at top level, else degree"""
        d = 0
        for mono in self.m:
            for a, e in mono:
                if a is s:
                    if not isinstance(e, int) or e < 0: return None
                    d = max(d, e)
                elif s in a.syms or (not isinstance(e, int) and s in e.syms()): return None
        return d
    def coeffs(self, s):
        """polynomial coefficients in symbol s: dict power -> Poly (assumes deg_sym not None)"""
        r = {}
        for mono, c in self.m.items():
            d = 0; rest = []
            for a, e in mono:
                if a is s: d = e
                else: rest.append((a, e))
            r.setdefault(d, {})[tuple(rest)] = c
        return {d: Poly(m) for d, m in r.items()}
    def atoms(self):
        for mono in self.m:
            for a, e in mono: yield a
    def single_atom(self):
        if len(self.m) == 1:
            (mono, c), = self.m.items()
            if c == 1 and len(mono) == 1 and mono[0][1] == 1: return mono[0][0]
        return None

ZERO = Poly({})
ONE = Poly({(): 1})

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, bool): return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return Poly({(): norm_c(x)}) if x != 0 else ZERO
    if isinstance(x, Atom): return Poly({((x, 1),): 1})
    if isinstance(x, float): return P(Fraction(x))
    raise TermError("P(%r)" % (x,))

def mono_mul(k1, k2):
    """product of two monomials: (mono, coefficient)"""
    if not k1: return k2, 1
    if not k2: return k1, 1
    d = dict(k1); coef = 1
    for a, e in k2:
        if a in d:
            if a.kind == "ind": continue
            n = d[a] + e if isinstance(d[a], int) and isinstance(e, int) else P(d[a]) + P(e)
            n = _exp(n)
            if isinstance(n, int) and n == 0: del d[a]
            else: d[a] = n
        else: d[a] = e
    # numeric bases: pull constants out of exponents
    for a in [a for a in d if a.kind == "num"]:
        e = d[a]
        if isinstance(e, int):
            coef *= Fraction(a.args[0]) ** e; del d[a]
        else:
            c = e.const_part()
            if c != 0 and Fraction(c).denominator == 1:
                coef *= Fraction(a.args[0]) ** int(c); d[a] = e - c
            if a.args[0] == -1:
                # (-1)^e : drop even coefficients
                ne = Poly({k: v % 2 for k, v in d[a].m.items() if Fraction(v).denominator == 1 and v % 2 != 0}) if all(Fraction(v).denominator == 1 for v in d[a].m.values()) and all(x.sort == "I" for x in d[a].atoms()) else d[a]
                if ne.is_const():
                    coef *= (-1) ** int(ne.const()); del d[a]
                else: d[a] = ne
    return tuple(sorted(d.items(), key=lambda t: t[0].id)), norm_c(coef)

def _exp(e):
    if isinstance(e, Poly):
        c = e.const()
        if c is not None:
            c = norm_c(c)
            if isinstance(c, int): return c
            raise TermError("fractional exponent")
        return e
    return e

def sym(name, sort="R"): return P(_intern("sym", (name,), sort))
def fresh(prefix, sort="R"): return sym("%s!%d" % (prefix, next(_fresh)), sort)
def _pivot(q):
    c = [m[0][0] for m in q.m if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sym"]
    c = [a for a in c if sum(1 for m in q.m for b, e in m if b is a or (b is not a and a in b.syms)) == 1]
    return min(c, key=lambda a: a.id) if c else None
def canon_frac(p):
    """partial fractions: v/(c*v + r) -> 1/c - r/c/(c*v + r), so that equal arguments of a function are the same term"""
    for _ in range(200):
        hit = None
        for mono, c in p.m.items():
            for a, e in mono:
                if a.kind == "poly" and isinstance(e, int) and e < 0:
                    v = _pivot(a.args[0])
                    if v is not None and any(b is v and isinstance(x, int) and x > 0 for b, x in mono): hit = (mono, c, a, v); break
            if hit: break
        if hit is None: return p
        mono, c, a, v = hit; q = a.args[0]; cv = q.m[((v, 1),)]
        r = q - P(v).scale(cv)
        d = dict(mono)
        d[v] -= 1
        if d[v] == 0: del d[v]
        base = Poly({tuple(sorted(d.items(), key=lambda t: t[0].id)): c}).scale(Fraction(1) / cv)      # mono without one v
        d2 = dict(d); d2[a] += 1
        if d2[a] == 0: del d2[a]
        up = Poly({tuple(sorted(d2.items(), key=lambda t: t[0].id)): c}).scale(Fraction(1) / cv)
        rest = dict(p.m); del rest[mono]
        p = Poly(rest) + up - base * r
    return p
def app(name, *args, sort="R"):
    if any(isinstance(x, Poly) and any(a.kind == "poly" for a in x.atoms()) for x in args): args = tuple(canon_frac(x) if isinstance(x, Poly) else x for x in args)
    return P(_intern("app", (name,) + tuple(args), sort))

def is_int(p):
    """syntactically integer valued"""
    for mono, c in p.m.items():
        if isinstance(c, Fraction): return False
        for a, e in mono:
            if a.sort != "I" and a.kind != "ind": return False
            if not isinstance(e, int) or e < 0:
                if a.kind == "num" and Fraction(a.args[0]).denominator == 1: continue
                return False
    return True

def inv(p):
    if not p.m: raise TermError("division by constant zero")
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if any(a.kind == "ind" for a, e in mono):
            return P(_intern("app", ("inv", p), "R"))
        return Poly({tuple((a, -e if isinstance(e, int) else _exp(-e)) for a, e in mono): norm_c(Fraction(1) / c)})
    if any(a.kind == "ind" for a in p.atoms()):
        # 1/(ite..): push through the first indicator
        a = next(x for x in sorted(p.atoms()) if x.kind == "ind")
        pt, pf = set_atom(p, a, ONE), set_atom(p, a, ZERO)
        it = P(a)
        rt = inv(pt) if pt.m else app("undef_inv")
        rf = inv(pf) if pf.m else app("undef_inv")
        return it * rt + (ONE - it) * rf
    # common monomial
    g = None
    for mono in p.m:
        d = {a: e for a, e in mono if isinstance(e, int)}
        if g is None: g = d
        else:
            ng = {}
            for a in set(g) | set(d):
                e = min(g.get(a, 0), d.get(a, 0))
                if e != 0: ng[a] = e
            g = ng
    gm = Poly({tuple(sorted(g.items(), key=lambda t: t[0].id)): 1}) if g else ONE
    if g:
        p = p * inv(gm)
    lead = min(p.m.items(), key=lambda kv: tuple((a.id, e if isinstance(e, int) else 0) for a, e in kv[0]))
    c = lead[1]
    q = p.scale(Fraction(1) / c)
    a = _intern("poly", (q,), "R")
    return Poly({((a, -1),): norm_c(Fraction(1) / c)}) * (inv(gm) if g else ONE)

def set_atom(p, atom, val):
    """replace a top-level atom by a polynomial"""
    r = ZERO
    for mono, c in p.m.items():
        t = P(c); hit = False
        rest = []
        for a, e in mono:
            if a is atom:
                t = t * power(val, e); hit = True
            else: rest.append((a, e))
        r = r + t * Poly({tuple(rest): 1})
    return r

def power(p, e):
    p = P(p)
    if isinstance(e, Poly):
        c = e.const()
        if c is not None: e = norm_c(c)
    if isinstance(e, Fraction): raise TermError("fractional power")
    if isinstance(e, int):
        if e == 0: return ONE
        if e < 0: return power(inv(p), -e)
        if len(p.m) == 1:
            (mono, c), = p.m.items()
            r = Poly({tuple((a, _exp(x * e if isinstance(x, int) else x.scale(e))) if a.kind != "ind" else (a, 1) for a, x in mono): norm_c(Fraction(c) ** e if isinstance(c, Fraction) else c ** e)})
            return r
        r = ONE; b = p
        while e:
            if e & 1: r = r * b
            e >>= 1
            if e: b = b * b
        return r
    # symbolic exponent
    if not p.m: return app("pow0", e)
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        r = ONE
        if c != 1:
            a = _intern("num", (norm_c(c),), "I" if isinstance(c, int) else "R")
            k, cc = mono_mul(((a, e),), ((a, 0),)) if False else _num_pow(a, e)
            r = Poly({k: cc})
        for a, x in mono:
            if a.kind == "ind": raise TermError("ind^sym")
            k = ((a, _exp(P(x) * e)),)
            r = r * Poly({k: 1})
        return r
    a = _intern("poly", (p,), "R")
    k, cc = mono_mul(((a, e),), ())
    return Poly({k: cc})

def _num_pow(a, e):
    # route through mono_mul normalisation of numeric bases
    b = _intern("num", (a.args[0],), a.sort)
    one = sym("$one_tmp")
    k, cc = mono_mul(((b, e),), ((_intern("sym", ("$unit",), "R"), 1),))
    k = tuple(x for x in k if not (x[0].kind == "sym" and x[0].args[0] == "$unit"))
    return k, cc

# ---------------------------------------------------------------- booleans
_bools = {}
class Bool:
    __slots__ = ("kind", "args", "_s", "_hg", "_key", "id")
    def __hash__(self): return hash(self.id)
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id
    def syms(self):
        if self._s is None:
            s, h = _syms_of(self.args)
            if self.kind == "all":
                h += 1; s = s - {_bv(h)}
            self._s, self._hg = s, h
        return self._s
    def hgt(self):
        self.syms(); return self._hg
    def key(self):
        if self._key is None:
            k, a = self.kind, self.args
            if k in ("true", "false"): s = k
            elif k in ("le", "lt", "eq"): s = "%s %s 0" % (a[0].key(), {"le": "<=", "lt": "<", "eq": "=="}[k])
            elif k == "not": s = "!(%s)" % a[0].key()
            elif k in ("and", "or"): s = "(" + (" & " if k == "and" else " | ").join(sorted(x.key() for x in a)) + ")"
            elif k == "all": s = "All(#%d in [%s,%s): %s)" % (self.hgt(), a[0].key(), a[1].key(), a[2].key())
            else: s = "%s(%s)" % (a[0], ", ".join(_k(x) for x in a[1:]))
            self._key = s
        return self._key
    __repr__ = key

_bid = itertools.count(1)
def _b(kind, *args):
    key = (kind, args)
    b = _bools.get(key)
    if b is None:
        b = Bool(); b.kind, b.args, b._s, b._hg, b._key, b.id = kind, args, None, None, None, next(_bid)
        _bools[key] = b
    return b
TRUE, FALSE = _b("true"), _b("false")
def B(x):
    if isinstance(x, Bool): return x
    return TRUE if x else FALSE

def _prim(p, positive):
    """scale to primitive integer coefficients (keeps direction); for equalities make the first coefficient positive"""
    from math import gcd
    den = 1
    for c in p.m.values():
        d = c.denominator if isinstance(c, Fraction) else 1
        den = den * d // gcd(den, d)
    g = 0
    for k, c in p.m.items():
        g = gcd(g, int(c * den))
    f = Fraction(den, g or 1)
    if positive:
        k = min(p.m, key=lambda m: tuple((a.id, e if isinstance(e, int) else 0) for a, e in m) or ((1 << 60, 0),))
        if p.m[k] * f < 0: f = -f
    return p.scale(f)

def _int_tight(p):
    """p <= 0 for integer p: divide by gcd of the non constant coefficients, rounding the constant"""
    from math import gcd
    g = 0
    for k, c in p.m.items():
        if k != (): g = gcd(g, int(c))
    if g <= 1: return p
    c0 = p.m.get((), 0)
    q = {k: c // g for k, c in p.m.items() if k != ()}
    cc = -((-c0) // g)    # ceil(c0/g)
    if cc != 0: q[()] = cc
    return Poly(q)

def _split_ind(p):
    """an indicator atom inside a comparison: lift it out"""
    for mono in p.m:
        for a, e in mono:
            if a.kind == "ind": return a
    return None

def le0(p):
    c = p.const()
    if c is not None: return B(c <= 0)
    a = _split_ind(p)
    if a is not None: return ite_b(a.args[0], le0(set_atom(p, a, ONE)), le0(set_atom(p, a, ZERO)))
    p = _prim(p, False)
    if is_int(p): p = _int_tight(p)
    return _b("le", p)
def lt0(p):
    c = p.const()
    if c is not None: return B(c < 0)
    a = _split_ind(p)
    if a is not None: return ite_b(a.args[0], lt0(set_atom(p, a, ONE)), lt0(set_atom(p, a, ZERO)))
    p = _prim(p, False)
    if is_int(p): return le0(p + 1)
    return _b("lt", p)
def eq0(p):
    c = p.const()
    if c is not None: return B(c == 0)
    a = _split_ind(p)
    if a is not None: return ite_b(a.args[0], eq0(set_atom(p, a, ONE)), eq0(set_atom(p, a, ZERO)))
    p = _prim(p, True)
    if is_int(p):
        from math import gcd
        g = 0
        for k, cc in p.m.items():
            if k != (): g = gcd(g, int(cc))
        if g > 1 and p.m.get((), 0) % g != 0: return FALSE
    return _b("eq", p)
def LE(a, b): return le0(P(a) - P(b))
def LT(a, b): return lt0(P(a) - P(b))
def GE(a, b): return LE(b, a)
def GT(a, b): return LT(b, a)
def EQ(a, b): return eq0(P(a) - P(b))
def NE(a, b): return Not(EQ(a, b))
def Not(b):
    b = B(b); k = b.kind
    if k == "true": return FALSE
    if k == "false": return TRUE
    if k == "not": return b.args[0]
    if k == "le":
        return lt0(-b.args[0])
    if k == "lt": return le0(-b.args[0])
    if k == "and": return Or(*[Not(x) for x in b.args])
    if k == "or": return And(*[Not(x) for x in b.args])
    return _b("not", b)
def And(*bs):
    s = []; seen = set()
    for b in bs:
        b = B(b)
        for x in (b.args if b.kind == "and" else (b,)):
            if x is TRUE or x in seen: continue
            if x is FALSE: return FALSE
            seen.add(x); s.append(x)
    for x in s:
        if Not1(x) in seen: return FALSE
    if not s: return TRUE
    if len(s) == 1: return s[0]
    return _b("and", *sorted(s))
def Or(*bs):
    s = []; seen = set()
    for b in bs:
        b = B(b)
        for x in (b.args if b.kind == "or" else (b,)):
            if x is FALSE or x in seen: continue
            if x is TRUE: return TRUE
            seen.add(x); s.append(x)
    for x in s:
        if Not1(x) in seen: return TRUE
    if not s: return FALSE
    if len(s) == 1: return s[0]
    return _b("or", *sorted(s))
def Not1(x):
    if x.kind in ("and", "or"): return None
    return Not(x)
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b): return And(Implies(a, b), Implies(b, a))
def ite_b(c, a, b):
    c = B(c)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is TRUE and b is FALSE: return c
    if a is FALSE and b is TRUE: return Not(c)
    return And(Implies(c, a), Implies(Not(c), b))
def bapp(name, *args): return _b("bapp", name, *args)

def Forall(v, lo, hi, body):
    """for all integer v in [lo, hi): body;  v a symbol (Poly)"""
    a = v.single_atom(); lo, hi = P(lo), P(hi)
    if body is TRUE: return TRUE
    d = (hi - lo).const()
    if d is not None and d <= 0: return TRUE
    if d is not None and d <= max(8, EXPAND[0] - 40) and lo.const() is not None:
        return And(*[subst_b(body, {a: P(i)}) for i in range(int(lo.const()), int(hi.const()))])
    h = 1 + max(body.hgt(), lo.hgt(), hi.hgt())
    return _b("all", lo, hi, subst_b(body, {a: P(_bv(h))}))
def open_all(b):
    lo, hi, body = b.args
    v = fresh("q", "I")
    return v, lo, hi, subst_b(body, {_bv(b.hgt()): v})

def ind(b):
    b = B(b); k = b.kind
    if k == "true": return ONE
    if k == "false": return ZERO
    if k == "not": return ONE - ind(b.args[0])
    if k == "and":
        r = ONE
        for x in b.args: r = r * ind(x)
        return r
    if k == "or":
        r = ONE
        for x in b.args: r = r * (ONE - ind(x))
        return ONE - r
    if k == "le":
        p = b.args[0]
        if is_int(p):
            lead = min((m for m in p.m if m != ()), key=lambda m: tuple((a.id, e if isinstance(e, int) else 0) for a, e in m))
            if p.m[lead] < 0: return ONE - ind(Not(b))
        else: return ONE - ind(lt0(-p))
    return P(_intern("ind", (b,), "I"))

def ite(c, a, b):
    c = B(c); a, b = P(a), P(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a == b: return a
    i = ind(c)
    return i * a + (ONE - i) * b

# ---------------------------------------------------------------- substitution
class Subst:
    def __init__(self, m, atoms=None):
        self.m = m                     # sym atom -> Poly
        self.keys = frozenset(m)
        self.atoms = atoms or {}       # arbitrary atom -> Poly
        self.akeys = frozenset(self.atoms)
        self.memo = {}
        self.bmemo = {}
        self.asyms = None
        if self.atoms:
            s = None
            for a in self.atoms: s = a.syms if s is None else (s & a.syms)
            self.asyms = s
    def touches(self, syms):
        if self.keys and not self.keys.isdisjoint(syms): return True
        return bool(self.atoms)
    def poly(self, p):
        if not self.touches(p.syms()): return p
        r = {}
        res = None
        for mono, c in p.m.items():
            if not any(self._t(a, e) for a, e in mono):
                x = r.get(mono, 0) + c
                if x == 0: r.pop(mono, None)
                else: r[mono] = x
                continue
            t = P(c)
            for a, e in mono:
                b = self.atom(a) if self._ta(a) else P(a)
                ee = e if isinstance(e, int) else self.poly(e)
                t = t * (b if (isinstance(ee, int) and ee == 1) else power(b, ee))
                if not t.m: break
            res = t if res is None else res + t
        q = Poly(r)
        return q if res is None else q + res
    def _ta(self, a): return a in self.akeys or self.touches(a.syms)
    def _t(self, a, e):
        return self._ta(a) or (not isinstance(e, int) and self.touches(e.syms()))
    def atom(self, a):
        r = self.memo.get(a)
        if r is None:
            r = self._atom(a); self.memo[a] = r
        return r
    def _atom(self, a):
        if a in self.atoms: return self.atoms[a]
        if a.kind == "sym": return self.m.get(a) if a in self.m else P(a)
        if a.kind == "num": return P(a)
        if a.kind == "app":
            n = tuple(self.any(x) for x in a.args[1:])
            if n == a.args[1:]: return P(a)
            return rebuild_app(a.args[0], n, a.sort)
        if a.kind == "ind": return ind(self.bool(a.args[0]))
        if a.kind == "poly": return self.poly(a.args[0])
        if a.kind == "sum":
            # the opened form is kept; its variable serves one substitution at a time
            if a in _opened_now: v, hi, body = open_sum(a); return mk_sum(v, ZERO, self.poly(hi), self.poly(body))
            o = _opened.get(a)
            if o is None: o = _opened[a] = open_sum(a)
            _opened_now.add(a)
            try: return mk_sum(o[0], ZERO, self.poly(o[1]), self.poly(o[2]))
            finally: _opened_now.discard(a)
        raise TermError(a.kind)
    def any(self, x):
        if isinstance(x, Poly): return self.poly(x)
        if isinstance(x, Bool): return self.bool(x)
        if isinstance(x, tuple): return tuple(self.any(y) for y in x)
        return x
    def bool(self, b):
        if not self.touches(b.syms()): return b
        r = self.bmemo.get(b)
        if r is None:
            r = self._bool(b); self.bmemo[b] = r
        return r
    def _bool(self, b):
        k = b.kind
        if k in ("true", "false"): return b
        if k == "le": return le0(self.poly(b.args[0]))
        if k == "lt": return lt0(self.poly(b.args[0]))
        if k == "eq": return eq0(self.poly(b.args[0]))
        if k == "not": return Not(self.bool(b.args[0]))
        if k == "and": return And(*[self.bool(x) for x in b.args])
        if k == "or": return Or(*[self.bool(x) for x in b.args])
        if k == "all":
            v, lo, hi, body = open_all(b)
            return Forall(v, self.poly(lo), self.poly(hi), self.bool(body))
        if k == "bapp": return bapp(b.args[0], *[self.any(x) for x in b.args[1:]])
        raise TermError(k)

def _pow0(e):
    c = e.const()
    if c is None: return None
    if c == 0: return ONE
    if c > 0: return ZERO
    return None
APP_EVAL = {"pow0": _pow0}
def rebuild_app(name, args, sort):
    f = APP_EVAL.get(name)
    if f is not None:
        r = f(*args)
        if r is not None: return r
    return app(name, *args, sort=sort)

def subst(p, m): return Subst(m).poly(p)
def subst_b(b, m): return Subst(m).bool(b)
def subst_atoms(p, am): return Subst({}, am).poly(p)

# ---------------------------------------------------------------- finite sums
_opened, _opened_now = {}, set()
def open_sum(a):
    hi, body = a.args
    v = fresh("k", "I")
    return v, hi, subst(body, {_bv(a.hgt): v})

_faul = {}
def faulhaber(d, n):
    """Sum_{k=0}^{n-1} k^d as Poly in n"""
    if d not in _faul:
        # solve by Bernoulli: S_d(n) = 1/(d+1) sum_j C(d+1,j) B_j n^(d+1-j)
        from math import comb
        Bn = [Fraction(0)] * (d + 1)
        Bn[0] = Fraction(1)
        for m in range(1, d + 1):
            Bn[m] = -sum(comb(m + 1, j) * Bn[j] for j in range(m)) / (m + 1)
        _faul[d] = [(d + 1 - j, Fraction(comb(d + 1, j)) * Bn[j] / (d + 1)) for j in range(d + 1)]
    r = ZERO
    for e, c in _faul[d]:
        if c: r = r + power(n, e).scale(c)
    return r

def lin(p, s):
    """p = a*s + b with a constant -> (a, b) or None"""
    d = p.deg_sym(s)
    if d is None or d > 1: return None
    c = p.coeffs(s); a = c.get(1, ZERO).const()
    if a is None: return None
    return a, c.get(0, ZERO)

def mk_sum(v, lo, hi, body, noswap=False):
    """Sum_{v=lo}^{hi-1} body  (telescoping convention: lo <= hi is established where a sum is created)"""
    s = v.single_atom(); lo, hi = P(lo), P(hi)
    d = (hi - lo).const()
    if d is not None and d <= 0 and Fraction(d).denominator == 1:
        if d == 0: return ZERO
        return -mk_sum(v, hi, lo, body)
    if d is not None and d <= EXPAND[0] and Fraction(d).denominator == 1:
        r = ZERO
        for j in range(int(d)): r = r + subst(body, {s: lo + j})
        return r
    r = ZERO; indep = {}
    for mono, c in body.m.items():
        if not any(s in a.syms or (not isinstance(e, int) and s in e.syms()) for a, e in mono): indep[mono] = c
        else: r = r + _sum_mono(v, s, lo, hi, mono, noswap).scale(c)
    if indep: r = r + Poly(indep) * (hi - lo)
    return r

def _dep(a, e, s): return s in a.syms or (not isinstance(e, int) and s in e.syms())

def _sum_mono(v, s, lo, hi, mono, noswap):
    # 1. indicators on the summation variable
    for a, e in mono:
        if a.kind == "ind" and s in a.syms:
            b = a.args[0]
            rest = Poly({tuple(x for x in mono if x[0] is not a): 1})
            if b.kind in ("eq", "le") and is_int(b.args[0]):
                l = lin(b.args[0], s)
                if l is not None and l[0] in (1, -1):
                    if b.kind == "eq":
                        val = (-l[1]).scale(Fraction(1) / l[0])
                        return ind(And(LE(lo, val), LT(val, hi))) * subst(rest, {s: val})
                    if l[0] == 1:     # v <= -b
                        m = ONE - l[1]            # exclusive upper bound
                        full, part = ind(LE(hi, m)), ind(LT(lo, m))
                        return full * mk_sum(v, lo, hi, rest) + (ONE - full) * part * mk_sum(v, lo, m, rest)
                    else:             # v >= b
                        m = l[1]
                        full, part = ind(LE(m, lo)), ind(LT(m, hi))
                        return full * mk_sum(v, lo, hi, rest) + (ONE - full) * part * mk_sum(v, m, hi, rest)
    # 2. inside denominators / symbolic polynomial powers nothing to do
    dep, out = [], ONE
    for a, e in mono:
        if not _dep(a, e, s): out = out * Poly({((a, e),): 1})
        elif not isinstance(e, int) and s not in a.syms:
            ed = e.deg_sym(s)
            if ed is not None:
                cs = e.coeffs(s); e0 = cs.pop(0, ZERO)
                if e0.m:
                    out = out * power(P(a), e0)
                    dp = ZERO
                    for dd, cc in cs.items(): dp = dp + cc * power(P(s), dd)
                    e = _exp(dp)
            dep.append((a, e))
        else: dep.append((a, e))
    # 3. polynomial in v only
    if all(a is s and isinstance(e, int) and e > 0 for a, e in dep):
        d = dep[0][1]
        if d <= 8: return out * (faulhaber(d, hi) - faulhaber(d, lo))
    # 4. nested sums
    inner = [a for a, e in dep if a.kind == "sum" and e == 1]
    if len(inner) == 1 and not noswap:
        ia = inner[0]
        others = Poly({tuple(x for x in dep if x[0] is not ia): 1})
        u, uhi, ubody = open_sum(ia); us = u.single_atom()
        if s not in uhi.syms():
            full = others * ubody
            if _swap_needed(s, us, full):
                return out * mk_sum(u, ZERO, uhi, mk_sum(v, lo, hi, full, noswap=True), noswap=True)
        else:
            l = lin(uhi, s)
            if l is not None and l[0] == 1 and _no_app(others, s) and _no_app_in(ubody, s):
                d = l[1]; h0 = lo + d        # inner bound at v=lo
                # sum_{u<h(v)} = sum_{u<h0} + sum_{h0<=u<v+d}; swap the second
                first = mk_sum(u, ZERO, h0, ubody)
                full = others * ubody
                swapped = mk_sum(u, h0, hi - 1 + d, mk_sum(v, u - d + 1, hi, full, noswap=True), noswap=True)
                return out * (mk_sum(v, lo, hi, others * first) + swapped)
    # 5. reindex on an anchor
    k, sg, off = _anchor(dep, s)
    if sg is not None and (sg != 1 or off.m):
        nv = fresh("k", "I"); ns = nv.single_atom()
        if sg == 1: val, nlo, nhi = nv - off, lo + off, hi + off
        else: val, nlo, nhi = off - nv, off - hi + 1, off - lo + 1
        nb = subst(Poly({tuple(dep): 1}), {s: val})
        return out * mk_sum(nv, nlo, nhi, nb, noswap)
    # 6. prefix form
    body = Poly({tuple(dep): 1})
    return out * (_prefix(s, body, hi) - _prefix(s, body, lo))

def _no_app(p, s):
    for mono in p.m:
        for a, e in mono:
            if s in a.syms and a is not s: return False
    return True
def _no_app_in(p, s): return _no_app(p, s)

def _anchor_cands(a, s, out):
    """all (description, sign, offset) where an integer argument of an application is +-s + offset"""
    if a.kind == "app":
        for i, x in enumerate(a.args[1:]):
            if isinstance(x, Poly) and s in x.syms():
                l = lin(x, s)
                if l is not None and l[0] in (1, -1) and is_int(x):
                    out.append((str(a.args[0]), i, l[0], l[1]))
                elif x.deg_sym(s) == 1:
                    # real argument C*s + R: the multiple of C contained in R
                    cf = x.coeffs(s); C, R = cf[1], cf.get(0, ZERO)
                    m0 = min(C.m, key=lambda m: tuple((b.key(), str(e)) for b, e in m))
                    t = Fraction(R.m.get(m0, 0)) / Fraction(C.m[m0])
                    out.append((str(a.args[0]), i, 1, P(t.numerator // t.denominator)))
                else:
                    for b in x.atoms(): _anchor_cands(b, s, out)
    elif a.kind == "poly":
        for b in a.args[0].atoms(): _anchor_cands(b, s, out)
    elif a.kind == "ind":
        pass
    elif a.kind == "sum":
        for b in a.args[1].atoms(): _anchor_cands(b, s, out)

def _anchor(dep, s):
    c = []
    for a, e in dep:
        if s in a.syms: _anchor_cands(a, s, c)
    if c:
        c.sort(key=lambda t: (t[0], t[1], -t[2], t[3].key()))
        best = c[0]
        # among the same base choose the smallest numeric offset
        same = [x for x in c if x[0] == best[0] and x[1] == best[1] and x[2] == best[2] and (x[3] - best[3]).const() is not None]
        best = min(same, key=lambda t: (t[3] - best[3]).const())
        return best[0], best[2], best[3]
    for a, e in sorted(dep, key=lambda t: t[0].key()):
        if not isinstance(e, int) and s in e.syms():
            l = lin(e, s)
            if l is not None and l[0] == -1: return a.key(), -1, ZERO if not l[1].m else l[1]
    return None, None, None

def _swap_needed(s, us, full):
    """outer variable s, inner us: True if the canonical order wants us outside"""
    def key(w, o):
        ks = []
        for mono in full.m:
            for a, e in mono:
                _positions(a, w, ks)
        return min(ks) if ks else ("~",)
    return key(us, s) < key(s, us)

def _positions(a, w, out, pre=""):
    if w not in a.syms: return
    if a.kind == "app":
        for i, x in enumerate(a.args[1:]):
            if isinstance(x, Poly) and w in x.syms():
                l = lin(x, w)
                if l is not None: out.append((pre + str(a.args[0]), i))
                else:
                    for b in x.atoms(): _positions(b, w, out, pre + str(a.args[0]) + "/%d/" % i)
    elif a.kind == "poly":
        for b in a.args[0].atoms(): _positions(b, w, out, pre)
    elif a.kind == "sum":
        for b in a.args[1].atoms(): _positions(b, w, out, pre)

def _prefix(s, body, hi):
    c = hi.const()
    if c is not None:
        if Fraction(c).denominator != 1: raise TermError("fractional bound")
        c = int(c)
        if abs(c) > max(64, EXPAND[0]): raise TermError("large constant prefix")
        r = ZERO
        if c >= 0:
            for j in range(c): r = r + subst(body, {s: P(j)})
        else:
            for j in range(c, 0): r = r - subst(body, {s: P(j)})
        return r
    c = hi.const_part()
    if c != 0:
        if Fraction(c).denominator == 1 and abs(c) <= 40:
            e = hi - c; r = _prefix(s, body, e)
            if c > 0:
                for j in range(int(c)): r = r + subst(body, {s: e + j})
            else:
                for j in range(int(c), 0): r = r - subst(body, {s: e + j})
            return r
    h = 1 + max(body.hgt(), hi.hgt())
    return P(_intern("sum", (hi, subst(body, {s: P(_bv(h))})), "R"))

def poly_divmod(a, m):
    """polynomial long division of a by m (integer non-negative exponents); (quotient, remainder)"""
    lead = max((k for k in m.m), key=lambda k: (sum(e for _, e in k), tuple(sorted(x.id for x, _ in k))))
    cl = m.m[lead]; ld = dict(lead); q = ZERO; r = ZERO
    for _ in range(400):
        if not a.m: break
        hit = None
        for k, c in a.m.items():
            d = dict(k)
            if all(isinstance(d.get(x, 0), int) and d.get(x, 0) >= e for x, e in ld.items()): hit = (k, c); break
        if hit is None: return q, a
        k, c = hit; d = dict(k)
        for x, e in ld.items():
            d[x] -= e
            if d[x] == 0: del d[x]
        t = Poly({tuple(sorted(d.items(), key=lambda z: z[0].id)): norm_c(Fraction(c) / cl)})
        q = q + t; a = a - t * m
    return q, a
