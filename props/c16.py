from contract import *
from smt import PI
import boostm, mpmath, execu
boostm.CHEB[0] = 12
LEVEL_NOTE = "The published coefficient tables are part of the contract; closeness of the rational approximations to the functions themselves is checked on concrete arguments only."
M = "mathutils::"
A = lambda n, *x: T.rebuild_app(n, tuple(P(t) for t in x), "R")
NM = ["besselj", "bessely", "besseli", "besselk"]
FN = ["Cyl_Bessel_first_kind", "Cyl_Bessel_second_kind", "Cyl_modified_Bessel_first_kind", "Cyl_modified_Bessel_second_kind"]
order = lambda c, lo=0, hi=9: c.int("n", lo, conc=range(lo, hi))
anyorder = lambda c: c.int("n", -1000, conc=range(-6, 9))
realorder = lambda c: c.real("v", conc=lambda g: g.choice([0.0, 0.5, 1.0, 2.0, -0.5, 1 / 3, -2.25, g.uniform(-3, 6), g.uniform(0, 1)]))
real = lambda c: c.real("x", conc=lambda g: g.choice([0.1, -1.0, g.uniform(-12, 12), g.uniform(-12, 12)]))
pos = lambda c, extra=(): c.real("x", conc=lambda g: g.choice([0.1, 1.0, g.uniform(0.05, 12), g.uniform(0.05, 12)]))
def recurrence(c, w, n, x):
    """classical three-term relation, instances at n (lemma): lets every textbook form of the derivative be recognised"""
    if c.mode == "conc": return
    J = lambda k: A(NM[w], k, x)
    s = {0: J(n - 1) + J(n + 1), 1: J(n - 1) + J(n + 1), 2: J(n - 1) - J(n + 1), 3: J(n + 1) - J(n - 1)}[w]
    c.require(EQ(s * x, 2 * n * J(n)))
    m1 = {0: -1, 1: -1, 2: 1, 3: 1}[w]
    c.require(EQ(J(P(-1)), m1 * J(P(1))))
def deriv(w, n, x):
    """half-sum form, defined at x = 0 too"""
    J = lambda k: A(NM[w], k, x)
    return {0: J(n - 1) - J(n + 1), 1: J(n - 1) - J(n + 1), 2: J(n - 1) + J(n + 1), 3: -J(n - 1) - J(n + 1)}[w].scale(Fraction(1, 2))
for w in range(4):
    first = w in (0, 2)      # entire functions for integer order: every real argument
    for kind, fn in (("integer order", "bes"), ("real order", "besr")):
        def args(c, w=w, fn=fn):
            n = anyorder(c) if fn == "bes" else realorder(c)
            if w in (0, 2) and fn == "bes": return n, real(c)
            x = pos(c); c.require(GT(x, 0)); return n, x
        @unit("value %s, %s" % (NM[w], kind), [M + FN[w]], conc=100)
        def _(c, w=w, fn=fn, args=args):
            n, x = args(c)
            for o in c.call(fn, w, n, x):
                if c.returns(o): c.eq(o, "same order and argument", o.val, A(NM[w], n, x), tol=1e-10)
        @unit("derivative %s, %s" % (NM[w], kind), [M + FN[w] + "_derivative"], conc=150)
        def _(c, w=w, fn=fn, args=args):
            n, x = args(c); recurrence(c, w, n, x)
            for o in c.call(fn, 4 + w, n, x):
                if c.returns(o): c.eq(o, "classical recurrence", o.val, deriv(w, n, x), tol=1e-9)
    if first:
        @unit("derivative %s at the origin" % NM[w], [M + FN[w] + "_derivative"], conc=40)
        def _(c, w=w):
            n = order(c)
            if c.mode != "conc": recurrence(c, w, n, P(0))
            for o in c.call("bes", 4 + w, n, P(0)):
                if c.returns(o): c.eq(o, "classical recurrence", o.val, deriv(w, n, P(0)), tol=1e-9)
for part in (0, 1):
    for kind, fn in (("integer order", "han"), ("real order", "hanr")):
        @unit("Hankel value, %s part, %s" % (("real", "imaginary")[part], kind), [M + "Cyl_Hankel_first_kind"], conc=80)
        def _(c, part=part, fn=fn):
            n = anyorder(c) if fn == "han" else realorder(c); x = pos(c); c.require(GT(x, 0))
            for o in c.call(fn, 0, part, n, x):
                if c.returns(o): c.eq(o, "J + iY", o.val, A(NM[part], n, x), tol=1e-9)
        @unit("Hankel derivative, %s part, %s" % (("real", "imaginary")[part], kind), [M + "Cyl_Hankel_first_kind_derivative"], conc=100)
        def _(c, part=part, fn=fn):
            n = anyorder(c) if fn == "han" else realorder(c); x = pos(c); c.require(GT(x, 0)); recurrence(c, 0, n, x); recurrence(c, 1, n, x)
            for o in c.call(fn, 1, part, n, x):
                if c.returns(o): c.eq(o, "classical recurrence", o.val, deriv(part, n, x), tol=1e-9)
for k, (nm, f) in enumerate((("Legendre_polynomial", "legp"), ("Legendre_polynomial_derivative", "legpp"), ("Chebyshev_polynomial", "cheb"), ("Chebyshev_polynomial_derivative", "chebp"), ("Chebyshev_polynomial_shifted", None), ("Factorial", "fact"))):
    @unit(nm, [M + nm], conc=100)
    def _(c, k=k, f=f):
        n = order(c, 0, 15); x = c.real("x", conc=lambda g: g.choice([0.0, 1.0, -1.0, 0.5, g.uniform(-1, 1), g.uniform(0, 1)]))
        if k == 4 and c.mode == "conc": x = c.real("x", conc=lambda g: g.uniform(0, 1))
        for o in c.call("pol", k, n, x):
            if c.returns(o): c.eq(o, "same order and argument", o.val, A("fact", n) if k == 5 else A(f, n, x) if f else A("cheb", n, 2 * x - 1), tol=1e-9)
@unit("Chebyshev_polynomial_next", [M + "Chebyshev_polynomial_next"], conc=60)
def _(c):
    x, a, b = c.real("x"), c.real("a"), c.real("b")
    for o in c.call("next", x, a, b):
        if c.returns(o): c.eq(o, "three-term recurrence", o.val, 2 * x * a - b)
for k, (nm, w) in enumerate((("Gamma", lambda x: A("tgamma", x)), ("Ei", lambda x: A("expint", x)), ("E1", lambda x: A("expintn", 1, x)))):
    @unit(nm, [M + nm], conc=80)
    def _(c, k=k, w=w):
        x = pos(c); c.require(GT(x, 0))
        for o in c.call("one", k, x):
            if c.returns(o): c.eq(o, "same argument", o.val, w(x), tol=1e-11)
D = lambda t: execu.snap(float(t))
dd = lambda s: [D(float(t)) for t in s.split()]
def poly(cs, x): return sum((a * power(x, i) for i, a in enumerate(cs)), P(0))
# Newman 1984 / Aarts & Janssen tables as published
SA = dd("1.909859164 -1.909855001 0.687514637 -0.126164557 0.013828813 -0.000876918")
SB = dd("0.99999906 4.77228920 3.85542044 0.32303607"); SC = dd("1. 4.88331068 4.28957333 0.52120508")
SD = dd("1.909859286 -1.145914713 0.294656958 -0.042070508 0.003785727 -0.000207183")
SE = dd("1.00000004 3.92205313 2.64893033 0.27450895"); SF = dd("1. 3.81095112 2.26216956 0.10885141")
def struve0(x, low):
    a = x / 3; b = inv(a)
    return sum((k * power(a, 2 * j + 1) for j, k in enumerate(SA)), P(0)) if low else A("bessely", 0, x) + 2 * poly(SB, b * b) / (PI * x * poly(SC, b * b))
def struve1(x, low):
    a = x / 3; b = inv(a)
    return sum((k * power(a, 2 * j + 2) for j, k in enumerate(SD)), P(0)) if low else A("bessely", 1, x) + 2 * poly(SE, b * b) / (PI * poly(SF, b * b))
E0 = "0.372507410781366634461991866580"
EP = dd("-4.1658081333604994241879e11 1.2177698136199594677580e10 -2.5301823984599019348858e10 3.1984354235237738511048e8 -3.5377809694431133484800e8 -3.1398660864247265862050e5 -1.4299841572091610380064e6 -1.4287072500197005777376e4 -1.2831220659262000678155e3 -1.2963702602474830028590e1")
EQ_ = dd("-1.7934749837151009723371e11 9.8900934262481749439886e10 -2.8986272696554495342658e10 5.4229617984472955011862e9 -7.0108568774215954065376e8 6.4698830956576428587653e7 -4.2648434812177161405483e6 1.9418469440759880361415e5 -5.5648470543369082846819e3 7.688671875000000000000e1")
EA = [dd("9.981193787537396413219e-1 9.565134591978630774217e0 -3.988850730390541057912e0 1.120011024227297451523e1 -3.015761863840593359165e1 1.945603779539281810439e1 1.052976392459015155422e1 -2.421106956980653511550e1 -2.378372882815725244124e0 -2.645977793077147237806e0"),
      dd("9.999933106160568739091e-1 -1.845086232391278674524e0 2.652575818452799819855e1 2.495487730402059440626e1 -3.323612579343962284333e1 -9.134835699998742552432e-1 -2.105740799548040450394e1 -1.000641913989284829961e1 -1.860092121726437582253e1 -1.647721172463463140042e0"),
      dd("1.00000000000000485503e0 -3.00000000320981265753e0 -5.00006640413131002475e0 -7.06810977895029358836e0 -1.52856623636929636839e1 -7.63147701620253630855e0 -2.79798528624305389340e1 -1.81949664929868906455e1 -2.23127670777632409550e2 1.75338801265465972390e2")]
EB = [dd("1.249884822712447891440e0 -2.369210235636181001661e2 4.731097187816050252967e2 2.852397548119248700147e1 7.608194509086645763123e2 -8.791401054875438925029e0 3.697412299772985940785e2 4.644185932583286942650e0 1.598517957704779356479e-4"),
      dd("1.001533852045342697818e0 -1.093556195391091243924e1 1.991004470817742470726e2 1.192832423968601006985e3 4.429413178337928401161e1 2.538819315630708031713e2 5.994932325667407355255e1 6.403800405352415551324e1 9.792403599217290296840e1"),
      dd("1.99999999999048104167e0 -2.99999894040324959612e0 -7.99243595776339741065e0 -1.20187763547154743238e1 7.04831847180424675988e1 1.17179220502086455287e2 1.37790390235747998793e2 3.97277109100414518365e0 3.97845977167414720840e4")]
def cfrac(k, x):
    f = P(0)
    for j in range(9, 0, -1): f = EB[k][j - 1] / (EA[k][j] + x + f)
    return f + EA[k][0]
def ei(x, k):
    if k == 0:
        x0 = D(float(E0)); T_ = lambda j: A("cheb", j, x / 3 - 1)
        num = lambda cs: cs[0] / 2 + sum((cs[j] * T_(j) for j in range(1, 10)), P(0))
        return A("log", x / x0) + (x - x0) * num(EP) / num(EQ_)
    if k < 3: return A("exp", x) / x * cfrac(k - 1, x)
    return A("exp", x) / x * (1 + cfrac(2, x) / x)
P1 = [dd("-1.4815102102575750838086e5 1.5026059476436982420737e5 8.9904972007457256553251e4 1.5924175980637303639884e4 2.1500672908092918123209e3 1.1669552669734461083368e2 5.0196785185439843791020e0"),
      dd("1.737331760720576030932e-8 9.999989642347613068437e-1 1.487967702840464066613e1 7.633628873405946890896e1 1.698106763764238382705e2 1.700632978311516129328e2 7.246689782858597021199e1 1.10732662778631743809e1 3.828573121022477169108e-1"),
      dd("-9.9999999999999999087819e-1 -5.2199632588522572481039e1 -1.0611777263550331766871e3 -1.0816852399095915622498e4 -5.9346841538837119172356e4 -1.7503273087497081314708e5 -2.6181454937205639647381e5 -1.7283375773777593926828e5 -3.5846198743996904308695e4 -1.3276881505637444622987e2")]
Q1 = [dd("2.5666493484897117319268e5 1.8434070063353677359298e5 5.2440529172056355429883e4 8.1258035174768735759866e3 7.5043163907103936624165e2 4.0205465640027706061433e1 1.0"),
      dd("1.0 1.587964570758947927903e1 9.021658450529372642314e1 2.342573504717625153053e2 2.953136335677908517423e2 1.775728186717289799677e2 4.662179610356861756812e1 4.344836335509282083360e0 8.258160008564488034698e-2"),
      dd("1.0 5.4199632588522559414924e1 1.1635769915320848035459e3 1.2842808586627297365998e4 7.9231787945279043698718e4 2.7858134710520842139357e5 5.4616842050691155735758e5 5.5903756210022864003380e5 2.5989762083608489777411e5 3.9147856245556345627078e4")]
def e1(x, k):
    if k == 0: return -A("log", x) + poly(P1[0], x) / poly(Q1[0], x)
    r = poly(P1[k], inv(x)) / poly(Q1[k], inv(x))
    return A("exp", -x) * r if k == 1 else A("exp", -x) / x * (1 + r / x)
TRUE_ = {3: lambda x: mpmath.struveh(0, x), 4: lambda x: mpmath.struveh(1, x), 5: lambda x: 2 / mpmath.pi - mpmath.struveh(1, x), 6: mpmath.ei, 7: lambda x: mpmath.expint(1, x), 8: lambda x: mpmath.exp(-x) * mpmath.ei(x)}
ACC = {3: 1e-7, 4: 1e-7, 5: 1e-7, 6: 1e-9, 7: 1e-9, 8: 1e-9}
def piece(k, nm, lo, hi, loi, f, j):
    @unit("%s on %s%s, %s%s" % (nm, "[" if loi else "]", lo, hi, "[" if nm[0] == "E" or nm[0] == "e" else "]"), [M + nm], conc=150)
    def _(c):
        hiv = 60.0 if hi is None else hi; incl = nm.startswith("Struve")
        def pick(g):
            v = g.choice([lo if loi else math.nextafter(lo, 1e9), hiv if incl and hi is not None else math.nextafter(hiv, 0), g.uniform(lo, hiv), g.uniform(lo, hiv), g.uniform(lo, hiv)])
            return max(v, 1e-3) if nm in ("Ei_approximation", "E1_approximation", "expEi") else v
        x = c.real("x", conc=pick)
        small = nm.endswith("_approximation") and lo == 0
        if c.mode != "conc":
            if small: c.require(GT(x, Fraction(1, 10 ** 7)))
            else: c.require(GE(x, lo) if loi else GT(x, lo))
            if hi is not None: c.require((LE if incl else LT)(x, hi))
        for o in c.call("one", k, x):
            if not c.returns(o): continue
            if c.mode == "conc":
                c.eq(o, "close to the function", o.val, P(Fraction(str(mpmath.nstr(TRUE_[k](mpmath.mpf(float(x.const()))), 30)))), tol=ACC[k])
                if k != 8 or lo >= 24: c.eq(o, "published formula", o.val, f(x, j), tol=1e-9)
            else: c.eq(o, "published formula", o.val, f(x, j))
for j, (lo, hi) in enumerate(((0, 3), (3, None))):
    piece(3, "Struve_zero_order", lo, hi, lo == 0, struve0, lo == 0); piece(4, "Struve_first_order", lo, hi, lo == 0, struve1, lo == 0)
    piece(5, "Struve_zero_order_derivative", lo, hi, lo == 0, lambda x, j: 2 / PI - struve1(x, j), lo == 0)
for j, (lo, hi) in enumerate(((0, 6), (6, 12), (12, 24), (24, None))): piece(6, "Ei_approximation", lo, hi, lo > 0, ei, j)
for j, (lo, hi) in enumerate(((0, 1), (1, 4), (4, None))): piece(7, "E1_approximation", lo, hi, lo > 0, e1, j)
piece(8, "expEi", 0, 24, False, lambda x, j: A("exp", -x) * A("expint", x), 0)
piece(8, "expEi", 24, None, True, lambda x, j: inv(x) * (1 + cfrac(2, x) / x), 0)
@unit("refused outside the domain", [M + "Struve_zero_order", M + "Struve_first_order", M + "Ei_approximation", M + "E1_approximation"], conc=60)
def _(c):
    x = c.real("x", conc=lambda g: -g.choice([1e-7, 0.5, 3.0, 40.0])); c.require(LT(x, 0))
    for k in (3, 4, 5, 6, 7):
        for o in c.call("one", k, x): c.kinds(o, exit=TRUE, throw=TRUE, abort=TRUE)
