from contract import *
from smt import PI
from fractions import Fraction
import kiss, cmath, math
LEVEL_NOTE = "the transform itself is Eigen/kissfft (trusted: bin k is the k-th DFT coefficient, the unscaled inverse of the spectrum of x is n*x) and is compared with the definition on concrete signals only; transforms of at least two samples (kissfft aborts on one)"
FT = "mathutils::FFT::"; UN = ["Hertz", "rad/s", "deg/s", "deg/min", "period", "rpm"]
HI = [(0, 0, 0, 0), (1, 0, 0, 0), (1, 2, 0, 0), (4, 0, 0, 0), (1, 4, 0, 0), (1, 4, 3, 0), (4, 1, 2, 0), (2, 3, 0, 0), (1, 1, 2, 0), (4, 4, 3, 1), (4, 3, 1, 2), (1, 2, 4, 1)]
def half(h):
    s = False
    for x in h: s = {1: True, 2: False}.get(x, s)
    return s
def unscaled(h):
    s = False
    for x in h: s = {4: True, 3: False}.get(x, s)
    return s
def bins(c, n, h): return tdiv_(n) + 1 if half(h) else n
def tdiv_(n):
    if n.const() is not None: return P(int(n.const()) // 2)
    from execu import tdiv
    return tdiv(n, P(2))
def conv(u, f): return [f, 2 * PI * f, 360 * f, 360 * 60 * f, inv(f) if u == 4 else f, 60 * f][u]
def tag(h): return "".join(" +half -half +scale -scale".split(" ")[x] + " " if x else "" for x in h) or "default "
BN = [{"n": k} for k in (1, 2, 3, 4, 5)]
def fs_(c):
    fs = c.real("fs", conc=lambda r: r.choice([1.0, 50.0, r.uniform(0.1, 1e3)])); c.require(GT(fs, 0)); return fs
def axis(c, o, out, n, m, u, fs):
    if not c.returns(o): return
    c.ensure(o, "one entry per bin", EQ(o.val, m))
    c.all_eq(o, "k fs / n in the unit", 1 if u == 4 else 0, m, lambda k: (o.arr(out, k), conv(u, k * fs / n)), scale=abs(float(ev(conv(3, fs)))) + 1 if c.mode == "conc" and u != 4 else 1 + float(ev(n / fs)) if c.mode == "conc" else 1)
for h in HI:
    for u in range(6):
        if u and h not in HI[:4]: continue
        @unit("axis %sin %s" % (tag(h), UN[u]), [FT + "GetFrequencyVector", FT + "HalfSpectrumON", FT + "HalfSpectrumOFF", FT + "ScalingON", FT + "ScalingOFF"], bounds=BN, conc=40)
        def _(c, h=h, u=u):
            n = c.int("n", 1, conc=range(1, 12)); fs = fs_(c); m = bins(c, n, h); out = c.out("out", n + 1)
            for o in c.call("fv", *h, u, n, fs, out, n + 1): axis(c, o, out, n, m, u, fs)
            if u == 0:
                for o in c.call("fvh", *h, n, fs, out, n + 1): axis(c, o, out, n, m, u, fs)
    @unit("transform %shas as many bins as its axis" % tag(h), [FT + "fft", FT + "GetFrequencyVector"], bounds=BN[1:], conc=40)
    def _(c, h=h):
        n = c.int("n", 2, conc=range(2, 18)); x = c.vec("x", n); fs = fs_(c); m = bins(c, n, h); out = c.out("out", n + 1)
        for u in ((-1, 0, 1, 3, 5) if h in HI[:4] else (-1, 1)):
            for o in c.call("ft", *h, 2, u, x, n, fs, out, n + 1): axis(c, o, out, n, m, max(u, 0), fs)
        for part in (0, 1, 3, 4):
            for o in c.call("ft", *h, part, 0, x, n, fs, out, n + 1):
                if not c.returns(o): continue
                c.ensure(o, "one entry per bin", EQ(o.val, m))
                im = part in (1, 4)
                if c.mode == "conc":
                    N = len(x.raw); z = [sum(v * cmath.exp(-2j * math.pi * k * j / N) for j, v in enumerate(x.raw)) for k in range(N)]
                    for k in range(int(m.const())): c.eq(o, "bin %d" % k, o.arr(out, k), P(Fraction(z[k].imag if im else z[k].real)), scale=1 + sum(map(abs, x.raw)))
for h in HI:
    for g in ((0, 0), (3, 0), (4, 0), (4, 3)):
        if g != (0, 0) and h not in HI[:4]: continue
        if half(h):
            @unit("there and back %s then %s(even length)" % (tag(h), tag(g)), [FT + "fft", FT + "ifft"], bounds=[{"q": k} for k in (1, 2, 3)], conc=40)
            def _(c, h=h, g=g):
                q = c.int("q", 1, conc=range(1, 10)); n = 2 * q; back(c, h, g, n)
        else:
            @unit("there and back %s then %s" % (tag(h), tag(g)), [FT + "fft", FT + "ifft"], bounds=BN[1:], conc=40)
            def _(c, h=h, g=g): back(c, h, g, c.int("n", 2, conc=range(2, 20)))
def back(c, h, g, n):
    x = c.vec("x", n); out = c.out("out", n + 1)
    for o in c.call("rt", *h, *g, x, n, out, n + 1):
        if c.returns(o):
            c.ensure(o, "as many samples", EQ(o.val, n))
            c.all_eq(o, "the signal, times n without scaling", 0, n, lambda k: (o.arr(out, k), x(k) * n if unscaled(h + g) else x(k)), scale=(1 + sum(map(abs, x.raw))) * float(ev(n)) if c.mode == "conc" else 1)
@unit("powers of two", ["mathutils::Pow2"], bounds=[{}], conc=20)
def _(c):
    for p in range(31):
        for o in c.call("pw2", p):
            if c.returns(o): c.ensure(o, "2^p", EQ(o.val, 2 ** p))
