"""Trusted contracts of Eigen's dynamic matrices (fixed-size Eigen is executed, not modelled)."""
import re
from models import *
from models import H

PLAIN = re.compile(r"Eigen::Matrix<(double|int|std::complex<double>), (-?\d+), (-?\d+), [^<>]*>")

DYN = re.compile(r"Eigen::(?:Matrix|DenseStorage)<(?:std::complex<double>|[a-z ]+), [0-9, ]*-1")
CAPPED = re.compile(r"Eigen::Matrix<(?:std::complex<double>|[a-z ]+), -?\d+, -?\d+, \d+, \d+, \d+>")      # at most a fixed size: no heap storage
def dyn(d):
    if "-1" not in d: return False
    return DYN.search(CAPPED.sub("", d)) is not None

def mput(ex, st, p, v):
    v = Arr(v.dims, v.items, v.ix, v.body, "eig")
    n = 24
    if len(p.path) == 1:
        c = st.objs[p.obj].cells.get(p.path[0])
        if c is not None and isinstance(c[1], Arr): n = c[0]
        else: n = 16 if v.dims[1].const() == 1 and v.dims[0].const() != 1 else 24
        if (p.obj, p.path[0]) in getattr(ex, "_vec16", ()): n = 16
    ex.wr(st, p, v, n)
def msize(d):
    m = PLAIN.search(d)
    if m and (m.group(2) == "1" or m.group(3) == "1"): return 16
    return 24
def mget(ex, st, p, d=None):
    v = ex.rd(st, p)
    if isinstance(v, Arr) and len(v.dims) == 2: return v
    if isinstance(v, Opaque) and v.tag == "mref": return ref_get(ex, st, v)
    if isinstance(v, Opaque) and v.tag == "mexpr": return v.p
    raise Unsupported("matrix expected, got %r" % (v,))
def ref_get(ex, st, r):
    base, kind, par = r.p
    m = mget(ex, st, base)
    if kind == "block":
        i, j, a, b = par
        return fun_arr((a, b), lambda x, y: m.get(x + i, y + j), "eig")
    if kind == "transpose": return fun_arr((m.dims[1], m.dims[0]), lambda x, y: m.get(y, x), "eig")
    if kind == "asdiag":
        n = m.dims[0] if m.dims[1].const() == 1 else m.dims[1]
        g = (lambda x: m.get(x, ZERO)) if m.dims[1].const() == 1 else (lambda x: m.get(ZERO, x))
        return fun_arr((n, n), lambda x, y: vite(EQ(x, y), g(x), ZERO), "eig")
    if kind == "selfadj":
        up = bool(par[0] & 2)
        return fun_arr(m.dims, lambda x, y: vite(LE(x, y) if up else LE(y, x), m.get(x, y), m.get(y, x)), "eig")
    if kind == "tri":
        lo, up, unitd, zerod = par[0] & 1, par[0] & 2, par[0] & 4, par[0] & 8
        dg = lambda x, y: ONE if unitd else (ZERO if zerod else m.get(x, y))
        return fun_arr(m.dims, lambda x, y: vite(EQ(x, y), dg(x, y), vite(LT(x, y) if up else LT(y, x), m.get(x, y), ZERO)), "eig")
    if kind == "diagonal": return fun_arr((fmin_i(m.dims[0], m.dims[1]), 1), lambda x, y: m.get(x, x), "eig")
    raise Unsupported("reference " + kind)
def fmin_i(a, b):
    if a == b: return a
    return ite(LE(a, b), a, b)
def ref_put(ex, st, r, v):
    base, kind, par = r.p
    m = mget(ex, st, base)
    if kind == "block":
        i, j, a, b = par
        new = fun_arr(m.dims, lambda x, y: vite(And(LE(i, x), LT(x, i + a), LE(j, y), LT(y, j + b)), v.get(x - i, y - j), m.get(x, y)), "eig")
    elif kind == "transpose": new = fun_arr(m.dims, lambda x, y: v.get(y, x), "eig")
    elif kind == "diagonal": new = fun_arr(m.dims, lambda x, y: vite(EQ(x, y), v.get(x, ZERO), m.get(x, y)), "eig")
    else: raise Unsupported("assignment to " + kind)
    target_put(ex, st, base, concretise(new))
def target_put(ex, st, p, v):
    c = ex.rd(st, p)
    if isinstance(c, Opaque) and c.tag == "mref": ref_put(ex, st, c, v)
    else: mput(ex, st, p, v)

def as_vector(src, d):
    """source of a copy into the class named in d: a row/column vector class transposes the other kind of vector"""
    col, row = isvec(d)
    if col and src.dims[1].const() != 1:
        if src.dims[0].const() == 1: return fun_arr((src.dims[1], ONE), lambda x, y: src.get(y, x), "eig")
        raise Unsupported("matrix copied into a column vector")
    if row and src.dims[0].const() != 1:
        if src.dims[1].const() == 1: return fun_arr((ONE, src.dims[0]), lambda x, y: src.get(y, x), "eig")
        raise Unsupported("matrix copied into a row vector")
    return src

@prefix("Eigen::")
def eigen_hook(ex, st, f, a, I):
    if not dyn(f.dem): return FIXED(ex, st, f, a, I) if FIXED else NotImplemented
    m = f.key.split("::")[-1]; d = f.dem
    fn = EIG.get(m)
    if fn is None: raise Unsupported("Eigen dynamic: " + d[:160])
    return fn(ex, st, f, a, I)
EIG = {}
FIXED = None        # contracts of fixed-size decompositions (fixdec.py)
def eig(*names):
    def g(fn):
        for n in names: EIG[n] = fn
        return fn
    return g

def isvec(d):
    m = PLAIN.search(d)
    return m is not None and m.group(3) == "1", m is not None and m.group(2) == "1"

@eig("Matrix", "PlainObjectBase")
def e_ctor(ex, st, f, a, I):
    col, row = isvec(f.dem)
    this, args = a[0], a[1:]
    sz = msize(f.dem)
    def put(v): ex.wr(st, this, Arr(v.dims, v.items, v.ix, v.body, "eig"), sz)
    if not args: put(Arr((1 if row else 0, 1 if col else 0), {})); return ret(st)
    if len(args) == 1:
        x = args[0]
        if isinstance(x, Ptr) and x.obj is not None:
            v = ex.rd(st, x)
            if isinstance(v, (Arr, Opaque)) and (isinstance(v, Opaque) or len(v.dims) == 2):
                src = as_vector(mget(ex, st, x), f.dem); put(src)
                return ret(st)
            if isinstance(v, Poly): x = v
        if isinstance(x, Poly):
            n = x; nm = "undef!%d" % st.new("alloca", 1)
            if col: put(fun_arr((n, 1), lambda i, j: app(nm, i)))
            elif row: put(fun_arr((1, n), lambda i, j: app(nm, j)))
            else: raise Unsupported("matrix from one scalar")
            return ret(st)
    if len(args) == 2:
        xs = [ex.inum(ex.rd(st, x, 8)) if isinstance(x, Ptr) else x for x in args]
        nm = "undef!%d" % st.new("alloca", 1)
        put(fun_arr((xs[0], xs[1]), lambda i, j: app(nm, i, j))); return ret(st)
    raise Unsupported("Eigen constructor " + f.dem)
@eig("~Matrix", "~PlainObjectBase", "~DenseStorage", "~evaluator", "~Block", "~Transpose", "~CwiseNullaryOp", "~CwiseBinaryOp", "~Product", "~CwiseUnaryOp", "MatrixBase", "DenseBase", "derived0", "~Transpose", "~DiagonalWrapper", "~SelfAdjointView", "~TriangularView")
def e_nop(ex, st, f, a, I): return ret(st)
@eig("derived", "const_cast_derived", "eval0", "noalias0", "array", "matrix")
def e_self(ex, st, f, a, I): return a[0]
@eig("rows")
def e_rows(ex, st, f, a, I): return mget(ex, st, a[0]).dims[0]
@eig("cols")
def e_cols(ex, st, f, a, I): return mget(ex, st, a[0]).dims[1]
@eig("size")
def e_size(ex, st, f, a, I):
    v = mget(ex, st, a[0]); return v.dims[0] * v.dims[1]
def elt_ptr(ex, st, p, i, j):
    v = ex.rd(st, p)
    if isinstance(v, Opaque) and v.tag == "mref":
        base, kind, par = v.p
        if kind == "block": return elt_ptr(ex, st, base, i + par[0], j + par[1])
        if kind == "transpose": return elt_ptr(ex, st, base, j, i)
        if kind == "diagonal": return elt_ptr(ex, st, base, i, i)
    e = v.body if v.items is None else next(iter(v.items.values()), None) if isinstance(v.items, dict) else None
    return Ptr(p.obj, p.path + (((i, j), 16 if isinstance(e, Struct) else 8, 0),))
@eig("operator()", "operator[]", "coeff", "coeffRef")
def e_at(ex, st, f, a, I):
    v = mget(ex, st, a[0]); args = [ex.inum(x) for x in a[1:]]
    if len(args) == 1:
        if v.dims[1].const() == 1: i, j = args[0], ZERO
        elif v.dims[0].const() == 1: i, j = ZERO, args[0]
        else: raise Unsupported("linear access to a matrix")
    else: i, j = args
    # Eigen asserts the range in operator()
    g = And(LE(0, i), LT(i, v.dims[0]), LE(0, j), LT(j, v.dims[1]))
    ex.oblige(st, "matrix index in range", g)
    if I.ty.k == "ptr":
        if isinstance(ex.rd(st, a[0]), Opaque) and ex.rd(st, a[0]).tag == "mexpr":
            p = Ptr(st.new("alloca", 8, "tmp"), (0,)); ex.wr(st, p, v.get(i, j), 8); return p
        return elt_ptr(ex, st, a[0], i, j)
    x = v.get(i, j)
    return x
@eig("operator=", "_set", "lazyAssign")
def e_assign(ex, st, f, a, I):
    dst = ex.rd(st, a[0])
    src = mget(ex, st, a[1])
    if isinstance(dst, Opaque) and dst.tag == "mref":
        cur = ref_get(ex, st, dst)
        ex.oblige(st, "assigned sizes agree", And(EQ(cur.dims[0], src.dims[0]), EQ(cur.dims[1], src.dims[1])))
        ref_put(ex, st, dst, src)
    else: mput(ex, st, a[0], as_vector(src, f.dem.split("::operator=")[0].split("::_set")[0].split("::lazyAssign")[0]))
    return ret(st, a[0])
@eig("resize", "conservativeResize")
def e_resize(ex, st, f, a, I):
    v = mget(ex, st, a[0]); args = [ex.inum(x) for x in a[1:]]
    if len(args) == 1: args = [args[0], ONE] if isvec(f.dem)[0] else [ONE, args[0]]
    if "conservative" in f.key or tuple(args) == v.dims: keep = v
    else: keep = None
    nm = "undef!%d" % st.new("alloca", 1)
    if keep is not None:
        o = v.dims
        mput(ex, st, a[0], fun_arr(args, lambda i, j: vite(And(LT(i, o[0]), LT(j, o[1])), v.get(i, j), app(nm, i, j))))
    else:
        if v.dims[0].const() == 0 or v.dims[1].const() == 0: mput(ex, st, a[0], fun_arr(args, lambda i, j: app(nm, i, j)))
        else:
            # a resize to the same size keeps the content
            same = And(*[EQ(x, y) for x, y in zip(args, v.dims)])
            mput(ex, st, a[0], fun_arr(args, lambda i, j: vite(same, v.get(i, j), app(nm, i, j))))
    return ret(st)
def set_all(val):
    def g(ex, st, f, a, I):
        v = mget(ex, st, a[0])
        dims = v.dims
        args = [ex.inum(x) for x in a[1:] if isinstance(x, Poly)]
        if args:
            if len(args) == 1: args = [args[0], ONE] if isvec(f.dem)[0] else [ONE, args[0]]
            dims = args
        w = fun_arr(dims, val)
        target_put(ex, st, a[0], w); return ret(st, a[0])
    return g
EIG["setZero"] = set_all(lambda i, j: ZERO)
EIG["setOnes"] = set_all(lambda i, j: ONE)
EIG["setIdentity"] = set_all(lambda i, j: ind(EQ(i, j)))
@eig("fill", "setConstant")
def e_fill(ex, st, f, a, I):
    v = mget(ex, st, a[0]); x = ex.rd(st, a[1], 8) if isinstance(a[1], Ptr) else a[1]
    target_put(ex, st, a[0], fun_arr(v.dims, lambda i, j: x)); return ret(st, a[0])
def sret_put(ex, st, p, val, size=None):
    o = st.objs[p.obj]
    st.w(p.obj).cells.clear() if len(p.path) == 1 and p.path[0] == 0 else None
    ex.wr(st, p, val, size or max(o.size, 8))
def mk_ref(ex, st, sret, base, kind, par): sret_put(ex, st, sret, Opaque("mref", (base, kind, par)))
def mk_val(ex, st, sret, arr):
    sret_put(ex, st, sret, Opaque("mexpr", Arr(arr.dims, arr.items, arr.ix, arr.body, "eig")))
mk_val0 = mk_val
@eig("row")
def e_row(ex, st, f, a, I):
    v = mget(ex, st, a[1]); i = ex.inum(a[2])
    ex.oblige(st, "row index in range", And(LE(0, i), LT(i, v.dims[0])))
    mk_ref(ex, st, a[0], a[1], "block", (i, ZERO, ONE, v.dims[1])); return ret(st)
@eig("col")
def e_col(ex, st, f, a, I):
    v = mget(ex, st, a[1]); j = ex.inum(a[2])
    ex.oblige(st, "column index in range", And(LE(0, j), LT(j, v.dims[1])))
    mk_ref(ex, st, a[0], a[1], "block", (ZERO, j, v.dims[0], ONE)); return ret(st)
@eig("block")
def e_block(ex, st, f, a, I):
    i, j, n, m = (ex.inum(x) for x in a[2:6])
    v = mget(ex, st, a[1])
    ex.oblige(st, "block in range", And(LE(0, i), LE(0, j), LE(0, n), LE(0, m), LE(i + n, v.dims[0]), LE(j + m, v.dims[1])))
    mk_ref(ex, st, a[0], a[1], "block", (i, j, n, m)); return ret(st)
@eig("transpose", "adjoint")
def e_transpose(ex, st, f, a, I):
    return give_ref(ex, st, a, "transpose")
def give_ref(ex, st, a, kind, par=()):
    """the expression object is one reference: returned in a register or through sret"""
    if len(a) == 2: mk_ref(ex, st, a[0], a[1], kind, par); return ret(st)
    return Opaque("mref", (a[0], kind, par))
@eig("asDiagonal")
def e_asdiag(ex, st, f, a, I): return give_ref(ex, st, a, "asdiag")
@eig("selfadjointView")
def e_sav(ex, st, f, a, I):
    k = int(re.search(r"selfadjointView<(\d+)", f.dem).group(1))
    return give_ref(ex, st, a, "selfadj", (k,))
@eig("triangularView")
def e_tv(ex, st, f, a, I):
    k = int(re.search(r"triangularView<(\d+)", f.dem).group(1))
    return give_ref(ex, st, a, "tri", (k,))
@eig("toDenseMatrix")
def e_dense(ex, st, f, a, I): 
    ex.wr(st, a[0], mget(ex, st, a[1]), 24); return ret(st)
@eig("transposeInPlace", "adjointInPlace")
def e_tip(ex, st, f, a, I):
    m = mget(ex, st, a[0]); target_put(ex, st, a[0], fun_arr((m.dims[1], m.dims[0]), lambda x, y: m.get(y, x))); return ret(st)
@eig("isApprox")
def e_isapprox(ex, st, f, a, I):
    x, y = mget(ex, st, a[0]), mget(ex, st, a[1])
    e = ex.num(ex.rd(st, a[2], 8) if isinstance(a[2], Ptr) else a[2])
    ex.oblige(st, "operand sizes agree", And(EQ(x.dims[0], y.dims[0]), EQ(x.dims[1], y.dims[1])))
    d = fun_arr(x.dims, lambda i, j: ex.num(x.get(i, j)) - ex.num(y.get(i, j)))
    f2 = lambda v: msum(ex, v, lambda z: z * z)
    p, q = f2(x), f2(y)
    return LE(f2(d), e * e * ite(LT(q, p), q, p))
@eig("lpNorm")
def e_lp(ex, st, f, a, I):
    x = mget(ex, st, a[0]); k = re.search(r"lpNorm<(-?\d+)", f.dem).group(1)
    if k == "2": return fsqrt(msum(ex, x, lambda v: v * v))
    if k == "1": return msum(ex, x, fabs)
    if k != "-1": raise Unsupported("lpNorm<%s>" % k)
    return mmax(ex, st, x, fabs, ZERO)
def mmax(ex, st, x, g, empty=None):
    """largest g(element): an upper bound that is attained (empty: the given value)"""
    r = fresh("max", "R"); i, j = fresh("wi", "I"), fresh("wj", "I"); p, q = fresh("q", "I"), fresh("q", "I")
    n, m = x.dims
    if n.const() is not None and m.const() is not None and n.const() * m.const() <= 16:
        vs = [g(ex.num(x.get(P(u), P(v)))) for u in range(int(n.const())) for v in range(int(m.const()))]
        if not vs: return empty
        r = vs[0]
        for v in vs[1:]: r = ite(LT(r, v), v, r)
        return r
    if m.const() == 1: st.assume(Forall(p, ZERO, n, LE(g(ex.num(x.get(p, ZERO))), r))); j = ZERO
    else: st.assume(Forall(p, ZERO, n, Forall(q, ZERO, m, LE(g(ex.num(x.get(p, q))), r))))
    att = And(LE(0, i), LT(i, n), LE(0, j), LT(j, m), EQ(r, g(ex.num(x.get(i, j)))))
    if empty is None: ex.oblige(st, "maximum of a non-empty matrix", GT(n * m, 0)); st.assume(att)
    else: st.assume(Or(att, And(EQ(n * m, 0), EQ(r, empty))))
    return r
@eig("diagonal")
def e_diag(ex, st, f, a, I): mk_ref(ex, st, a[0], a[1], "diagonal", ()); return ret(st)
@eig("Zero", "Ones", "Identity", "Constant")
def e_nullary(ex, st, f, a, I):
    m = f.key.split("::")[-1]
    args = [ex.inum(x) for x in a[1:] if isinstance(x, Poly)]
    if m == "Constant":
        pv = [x for x in a[1:] if isinstance(x, Ptr)]
        c = ex.rd(st, pv[0], 8)
    dims = (args[0], ONE) if len(args) == 1 and isvec(f.dem)[0] else ((ONE, args[0]) if len(args) == 1 else tuple(args[:2]))
    g = {"Zero": lambda i, j: ZERO, "Ones": lambda i, j: ONE, "Identity": lambda i, j: ind(EQ(i, j))}.get(m) or (lambda i, j: c)
    mk_val(ex, st, a[0], fun_arr(dims, g)); return ret(st)
@eig("operator*", "operator+", "operator-", "operator/")
def e_bin(ex, st, f, a, I):
    op = f.key[-1]
    inreg = I is not None and I.ty is not None and I.ty.k != "void"
    sret, args = (None, a) if inreg else (a[0], a[1:])
    def mk_val(ex, st, sret, arr):
        if not inreg: mk_val0(ex, st, sret, arr); return
        o = Opaque("mexpr", Arr(arr.dims, arr.items, arr.ix, arr.body, "eig"))
        res.append(o if I.ty.k == "ptr" else Agg([o, NULL]))
    res = []
    def ret(st, v=None): return [(st, "ret", res[0] if res else None)]
    def get(x):
        if isinstance(x, Ptr):
            v = ex.rd(st, x)
            if isinstance(v, Poly): return v
            return mget(ex, st, x)
        return ex.num(x)
    xs = [get(x) for x in args]
    if len(xs) == 1:
        x = xs[0]; mk_val(ex, st, sret, fun_arr(x.dims, lambda i, j: -x.get(i, j))); return ret(st)
    x, y = xs
    if isinstance(x, Poly) and isinstance(y, Arr):
        r = fun_arr(y.dims, lambda i, j: x * ex.num(y.get(i, j)))
    elif isinstance(y, Poly) and isinstance(x, Arr):
        r = fun_arr(x.dims, (lambda i, j: ex.num(x.get(i, j)) * y) if op == "*" else (lambda i, j: ex.num(x.get(i, j)) * inv(y)))
    elif op in "+-":
        ex.oblige(st, "operand sizes agree", And(EQ(x.dims[0], y.dims[0]), EQ(x.dims[1], y.dims[1])))
        r = fun_arr(x.dims, lambda i, j: ex.num(x.get(i, j)) + ex.num(y.get(i, j)) if op == "+" else ex.num(x.get(i, j)) - ex.num(y.get(i, j)))
    elif op == "*":
        ex.oblige(st, "product sizes agree", EQ(x.dims[1], y.dims[0]))
        def prod(i, j):
            k = fresh("k", "I")
            return T.mk_sum(k, ZERO, x.dims[1], ex.num(x.get(i, k)) * ex.num(y.get(k, j)))
        r = fun_arr((x.dims[0], y.dims[1]), prod)
    else: raise Unsupported("Eigen operator " + f.key)
    mk_val(ex, st, sret, r); return ret(st)
@eig("operator+=", "operator-=", "operator*=", "operator/=")
def e_comp(ex, st, f, a, I):
    op = f.key[-2]; x = mget(ex, st, a[0])
    v = ex.rd(st, a[1]) if isinstance(a[1], Ptr) else a[1]
    if isinstance(v, Poly):
        r = fun_arr(x.dims, lambda i, j: ex.num(x.get(i, j)) * (v if op == "*" else inv(v)))
    else:
        y = mget(ex, st, a[1])
        r = fun_arr(x.dims, lambda i, j: ex.num(x.get(i, j)) + (ex.num(y.get(i, j)) if op == "+" else -ex.num(y.get(i, j))))
    target_put(ex, st, a[0], r); return ret(st, a[0])
@eig("sum")
def e_sum(ex, st, f, a, I):
    x = mget(ex, st, a[0]); return msum(ex, x, lambda v: v)
def msum(ex, x, g):
    i, j = fresh("k", "I"), fresh("k", "I")
    return T.mk_sum(i, ZERO, x.dims[0], T.mk_sum(j, ZERO, x.dims[1], g(ex.num(x.get(i, j)))))
@eig("squaredNorm")
def e_sqn(ex, st, f, a, I): return msum(ex, mget(ex, st, a[0]), lambda v: v * v)
@eig("norm")
def e_norm(ex, st, f, a, I): return fsqrt(msum(ex, mget(ex, st, a[0]), lambda v: v * v))
@eig("dot")
def e_dot(ex, st, f, a, I):
    x, y = mget(ex, st, a[0]), mget(ex, st, a[1])
    k = fresh("k", "I")
    gx = (lambda i: x.get(i, ZERO)) if x.dims[1].const() == 1 else (lambda i: x.get(ZERO, i))
    gy = (lambda i: y.get(i, ZERO)) if y.dims[1].const() == 1 else (lambda i: y.get(ZERO, i))
    n = x.dims[0] if x.dims[1].const() == 1 else x.dims[1]
    return T.mk_sum(k, ZERO, n, ex.num(gx(k)) * ex.num(gy(k)))
@eig("swap")
def e_swap(ex, st, f, a, I):
    x, y = mget(ex, st, a[0]), mget(ex, st, a[1]); target_put(ex, st, a[0], y); target_put(ex, st, a[1], x); return ret(st)
@eig("data")
def e_data(ex, st, f, a, I):
    v = mget(ex, st, a[0])
    if v.dims[1].const() != 1: raise Unsupported("data() of a matrix")
    return Ptr(a[0].obj, a[0].path + (((ZERO, ZERO), 8, 0),))
