from contract import *
from fractions import Fraction
import math
from smt import PI
G = "mathutils::"
S = lambda t: T.rebuild_app("sin", (P(t),), "R")
C = lambda t: T.rebuild_app("cos", (P(t),), "R")
def rpy(r, p, y):
    """Rz(y) * Ry(p) * Rx(r)"""
    Z = [[C(y), -S(y), 0], [S(y), C(y), 0], [0, 0, 1]]; Y = [[C(p), 0, S(p)], [0, 1, 0], [-S(p), 0, C(p)]]; X = [[1, 0, 0], [0, C(r), -S(r)], [0, S(r), C(r)]]
    return mm(mm(Z, Y), X)
def mm(A, B): return [[sum((P(A[i][k]) * P(B[k][j]) for k in range(3)), P(0)) for j in range(3)] for i in range(3)]
def qmat(w, x, y, z):
    return [[w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)], [2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)], [2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z]]
def ang(c, nm, lim=None):
    return c.real(nm, conc=lambda g: g.choice([0.0, math.pi / 2, -math.pi / 2, math.pi, 0.3, g.uniform(-3, 3), g.uniform(-10, 10)]) if lim is None else g.choice([0.0, g.uniform(-lim, lim), g.uniform(-lim, lim)]))
def quat(c):
    if c.mode == "conc":
        g = c.rng
        while True:
            v = [g.choice([0.0, 1.0, -1.0, g.gauss(0, 1), g.gauss(0, 1)]) for _ in range(4)]; n = math.sqrt(sum(t * t for t in v))
            if n > 0: break
        v = [t / n for t in v]; it = iter(v)
        q = [c.real(nm, conc=lambda g: next(it)) for nm in "wxyz"]
    else:
        q = [c.real(nm) for nm in "wxyz"]; c.require(EQ(sum((t * t for t in q), P(0)), 1))
    return q
def entries(c, o, out): return [[o.arr(out, P(3 * i + j)) for j in range(3)] for i in range(3)]
def rotation(c, o, M):
    for i in range(3):
        for j in range(i, 3): c.eq(o, "orthogonal %d%d" % (i, j), sum((M[k][i] * M[k][j] for k in range(3)), P(0)), 1 if i == j else 0)
    d = M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0])
    c.eq(o, "determinant", d, 1)
def same(c, o, M, W, tol=None):
    for i in range(3):
        for j in range(3): c.eq(o, "entry %d%d" % (i, j), M[i][j], W[i][j])
@unit("euler to matrix", [G + "eulerAnglesZYXToRotationMatrix"], conc=150)
def _(c):
    r, p, y = ang(c, "r"), ang(c, "p"), ang(c, "y"); out = c.out("o", 9)
    for o in c.call("e2m", r, p, y, out, 9):
        if c.returns(o): M = entries(c, o, out); same(c, o, M, rpy(r, p, y)); rotation(c, o, M)
@unit("euler to quaternion", [G + "eulerAnglesZYXToQuaternion"], conc=150)
def _(c):
    r, p, y = ang(c, "r"), ang(c, "p"), ang(c, "y"); out = c.out("o", 4)
    for o in c.call("e2q", r, p, y, out, 4):
        if c.returns(o):
            q = [o.arr(out, P(i)) for i in range(4)]
            c.eq(o, "unit norm", sum((t * t for t in q), P(0)), 1); same(c, o, qmat(*q), rpy(r, p, y))
@unit("euler to quaternion to matrix", [G + "eulerAnglesZYXToQuaternion", G + "quaternionToRotationMatrix"], conc=150)
def _(c):
    r, p, y = ang(c, "r"), ang(c, "p"), ang(c, "y"); out = c.out("o", 9)
    for o in c.call("e2q2m", r, p, y, out, 9):
        if c.returns(o): same(c, o, entries(c, o, out), rpy(r, p, y))
@unit("quaternion to matrix", [G + "quaternionToRotationMatrix"], conc=150)
def _(c):
    q = quat(c); out = c.out("o", 9)
    for o in c.call("q2m", *q, out, 9):
        if c.returns(o): M = entries(c, o, out); same(c, o, M, qmat(*q)); rotation(c, o, M)
def atan2(y, x): return app("atan2", P(y), P(x))
def turn(c, got, y, x):
    """atan2(y, x), taken in the turn of the value got in concrete runs (pi and -pi are the same angle)"""
    if c.mode != "conc": return atan2(y, x)
    w = math.atan2(float(y.const()), float(x.const())); g = float(got.const()) if got.const() is not None else w
    return P(w + 2 * math.pi * round((g - w) / (2 * math.pi)) if g == g else w)
def asin(x): return T.rebuild_app("asin", (P(x),), "R")
def k_angle(name):
    """the angle functions, on the arguments the contract expects"""
def lemma_instances(c, r, p, y):
    """atan2(k sin a, k cos a) = a for k > 0 and a in ]-pi, pi[; asin(sin a) = a for a in ]-pi/2, pi/2[; cos > 0 there"""
    if c.mode == "conc": return
    for a in (r, y): c.require(LT(-PI, a), LT(a, PI))
    c.require(LT(PI.scale(Fraction(-1, 2)), p), LT(p, PI.scale(Fraction(1, 2)))); c.require(GT(C(p), 0))
    c.require(EQ(atan2(C(p) * S(r), C(p) * C(r)), r), EQ(atan2(C(p) * S(y), C(p) * C(y)), y), EQ(atan2(S(p), C(p)), p), EQ(atan2(-S(p), C(p)), -p), EQ(asin(S(p)), p))
    c.require(LT(S(p), 1), GT(S(p), -1))
for fn, nm, cov in (("e2m2e", "matrix", [G + "eulerAnglesZYXToRotationMatrix", G + "rotationMatrixToEulerAnglesZYX"]), ("e2q2e", "quaternion", [G + "eulerAnglesZYXToQuaternion", G + "quaternionToEulerAnglesZYX"])):
    @unit("euler to %s to euler" % nm, cov, conc=300)
    def _(c, fn=fn):
        r, p, y = ang(c, "r", 3.1), ang(c, "p", 1.5), ang(c, "y", 3.1); out = c.out("o", 3)
        lemma_instances(c, r, p, y)
        for o in c.call(fn, r, p, y, out, 3):
            if c.returns(o):
                for i, (n, v) in enumerate((("roll", r), ("pitch", p), ("yaw", y))): c.eq(o, n, o.arr(out, P(i)), v, scale=1e3)
@unit("euler angles of a quaternion and of its matrix", [G + "quaternionToEulerAnglesZYX", G + "quaternionToRotationMatrix", G + "rotationMatrixToEulerAnglesZYX"], conc=300)
def _(c):
    if c.mode == "conc" and c.rng.random() < .4:      # gimbal lock and near it
        g = c.rng; r, p, y = (g.uniform(-3, 3), g.choice([1, -1]) * (math.pi / 2 - g.choice([0, 0, 1e-9, 1e-5])), g.uniform(-3, 3))
        a, b, d = r / 2, p / 2, y / 2
        v = [math.cos(a) * math.cos(b) * math.cos(d) + math.sin(a) * math.sin(b) * math.sin(d), math.sin(a) * math.cos(b) * math.cos(d) - math.cos(a) * math.sin(b) * math.sin(d),
             math.cos(a) * math.sin(b) * math.cos(d) + math.sin(a) * math.cos(b) * math.sin(d), math.cos(a) * math.cos(b) * math.sin(d) - math.sin(a) * math.sin(b) * math.cos(d)]
        n = math.sqrt(sum(t * t for t in v)); it = iter([t / n for t in v]); q = [c.real(nm, conc=lambda g: next(it)) for nm in "wxyz"]
    else: q = quat(c)
    R = qmat(*q); out = c.out("o", 3)
    if c.mode != "conc":     # lemma: atan2(s, sqrt(1 - s^2)) = asin(s), |s| <= 1, for the last row (s, a, b) of a rotation matrix
        s, a, b = R[2]
        c.require(EQ(atan2(s, fsqrt(a * a + b * b)), asin(s)), LE(s, 1), GE(s, -1))
    lock = c.mode == "conc" and 1 - abs(float(R[2][0].const())) < 1e-6
    for fn in ("q2e", "q2m2e"):
        for o in c.call(fn, *q, out, 3):
            if not c.returns(o): continue
            if not lock: c.eq(o, fn + " roll", o.arr(out, P(0)), turn(c, o.arr(out, P(0)), R[2][1], R[2][2]), scale=1e6)
            c.eq(o, fn + " pitch", o.arr(out, P(1)), -asin(R[2][0]) if not lock else P(math.copysign(math.pi / 2, -float(R[2][0].const()))), scale=1e6 if not lock else 1e9)
            if not lock: c.eq(o, fn + " yaw", o.arr(out, P(2)), turn(c, o.arr(out, P(2)), R[1][0], R[0][0]), scale=1e6)
@unit("matrix to quaternion to matrix", [G + "RotationMatrixToQuaternion", G + "quaternionToRotationMatrix"], conc=300)
def _(c):
    q = quat(c); out = c.out("o", 9)
    for o in c.call("m2q2m", *q, out, 9):
        if c.returns(o): same(c, o, entries(c, o, out), qmat(*q))
@unit("matrix to quaternion", [G + "RotationMatrixToQuaternion"], conc=300)
def _(c):
    q = quat(c); out = c.out("o", 4)
    for o in c.call("m2q", *q, out, 4):
        if c.returns(o):
            g = [o.arr(out, P(i)) for i in range(4)]
            c.eq(o, "unit norm", sum((t * t for t in g), P(0)), 1)
            for i in range(4):
                for j in range(i, 4): c.eq(o, "products %d%d" % (i, j), g[i] * g[j], q[i] * q[j])
