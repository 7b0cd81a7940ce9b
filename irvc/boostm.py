"""contracts of boost::math functions: uninterpreted special functions of order and argument; Chebyshev polynomials and the
Clenshaw sum are defined by their sums, low orders in closed form"""
from models import *
from models import hook, ret, vrange
import terms as T, smt, mpmath
CHEB = [1]         # orders up to this are expanded
def _cheb(n, x):
    c = n.const()
    if c is None or c > CHEB[0] or c < 0: return None
    a, b = ONE, x
    for _ in range(int(c)): a, b = b, (x * b).scale(2) - a
    return a
def _chebp(n, x):
    c = n.const()
    if c is None or c > CHEB[0] or c < 0: return None
    a, b = ONE, x; d, e = ZERO, ONE
    for _ in range(int(c)): a, b, d, e = b, (x * b).scale(2) - a, e, b.scale(2) + (x * e).scale(2) - d
    return d
def _fact(n):
    c = n.const()
    if c is None or c < 0 or Fraction(c).denominator != 1: return None
    return P(math.factorial(int(c)))
T.APP_EVAL["cheb"] = _cheb; T.APP_EVAL["chebp"] = _chebp; T.APP_EVAL["fact"] = _fact
def num(ex, st, v): return ex.num(ex.rd(st, v, 8)) if isinstance(v, Ptr) else ex.num(v)
def sp(name, sig, nargs):
    smt.SIG[name] = sig
    def f(ex, st, fn, a, I):
        if len(a) != nargs: return NotImplemented
        return ret(st, T.rebuild_app(name, tuple(num(ex, st, x) for x in a), "R"))
    return f
for _b, _n in (("cyl_bessel_j", "besselj"), ("cyl_neumann", "bessely"), ("cyl_bessel_i", "besseli"), ("cyl_bessel_k", "besselk"), ("legendre_p", "legp"), ("legendre_p_prime", "legpp"), ("chebyshev_t", "cheb"), ("chebyshev_t_prime", "chebp")):
    H["boost::math::" + _b] = sp(_n, "RR" if _n.startswith("bessel") else "IR", 2)
H["boost::math::factorial"] = sp("fact", "I", 1); H["boost::math::tgamma"] = sp("tgamma", "R", 1)
smt.SIG["expint"] = "R"; smt.SIG["expintn"] = "IR"
@hook("boost::math::expint")
def expint(ex, st, fn, a, I):
    if len(a) == 1: return ret(st, app("expint", num(ex, st, a[0])))
    if len(a) == 2 and not isinstance(a[1], Ptr): return ret(st, app("expintn", num(ex, st, a[0]), num(ex, st, a[1])))
    return NotImplemented
@hook("boost::math::cyl_hankel_1")
def hankel(ex, st, fn, a, I):
    n, x = num(ex, st, a[0]), num(ex, st, a[1])
    return ret(st, Agg([app("besselj", n, x), app("bessely", n, x)]))
@hook("boost::math::chebyshev_clenshaw_recurrence")
def clenshaw(ex, st, fn, a, I):
    """c[0]/2 + sum_{0<k<n} c[k] T_k(x)"""
    p, n, x = a[0], ex.num(a[1]), num(ex, st, a[2])
    src = vrange(ex, st, p, ex.padd(st, p, n, 8))
    if src is None: return NotImplemented
    g = lambda k: ex.num(src.get(k))
    c = n.const()
    if c is not None:
        if c == 0: return ret(st, ZERO)
        return ret(st, g(ZERO).scale(Fraction(1, 2)) + sum((g(P(k)) * T.rebuild_app("cheb", (P(k), x), "R") for k in range(1, int(c))), ZERO))
    ex.oblige(st, "non-empty coefficient array", GE(n, 1))
    k = fresh("k", "I")
    return ret(st, g(ZERO).scale(Fraction(1, 2)) + mk_sum(k, ONE, n, g(k) * app("cheb", k, x)))
NUM = {"besselj": mpmath.besselj, "bessely": mpmath.bessely, "besseli": mpmath.besseli, "besselk": mpmath.besselk, "legp": mpmath.legendre, "fact": mpmath.factorial, "tgamma": mpmath.gamma,
       "legpp": lambda n, x: mpmath.diff(lambda t: mpmath.legendre(n, t), x), "cheb": mpmath.chebyt, "chebp": lambda n, x: n * mpmath.chebyu(n - 1, x) if n > 0 else mpmath.mpf(0),
       "expint": mpmath.ei, "expintn": lambda n, x: mpmath.expint(n, x)}
