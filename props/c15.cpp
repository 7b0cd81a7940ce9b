#include "vp.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
typedef Matrix33<double> M3; typedef Matrix66<double> M6; typedef Vector3d<double> V3; typedef Vector6d<double> V6; typedef MatrixMN<double> MN; typedef VectorN<double> VN;
template <class M> static void load(M& m, const double* a, int n) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = a[i * n + j]; }
template <class M> static void store(const M& m, double* o, int n, int k) { for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) o[i * k + j] = m(i, j); }
template <class M, int N> static void fixedops(int f, const double* a, int i, int j, double v, double* out) {
  M m; load(m, a, N); const M& c = m;
  switch (f) {
    case 0: out[0] = c.at(i, j); break;
    case 1: m.at(i, j) = v; store(m, out, N, N); break;
    case 2: m.SetIdentity(); store(m, out, N, N); break;
    case 3: m.SetNull(); store(m, out, N, N); break;
    case 4: { auto x = m.GetColumn(j); for (int k = 0; k < N; k++) out[k] = x(k); break; }
    case 5: { auto x = m.GetRow(i); for (int k = 0; k < N; k++) out[k] = x(k); break; }
    case 6: { auto x = m.GetDiag(); for (int k = 0; k < N; k++) out[k] = x(k); break; }
    case 7: m.Transpose(); store(m, out, N, N); break;
    case 8: { M t = Transpose(m); store(t, out, N, N); store(m, out + N * N, N, N); break; }
    case 9: { M t = MakeSymmetricFromUpper(m); store(t, out, N, N); store(m, out + N * N, N, N); break; }
    case 10: { M t = MakeSymmetricFromLower(m); store(t, out, N, N); store(m, out + N * N, N, N); break; }
    case 11: out[0] = m.GetNbRows(); out[1] = m.GetNbCols(); out[2] = m.IsSquare(); break;
  }
}
VP void m3ops(int f, const double* a, int i, int j, double v, double* out) { fixedops<M3, 3>(f, a, i, j, v, out); }
VP void m6ops(int f, const double* a, int i, int j, double v, double* out) { fixedops<M6, 6>(f, a, i, j, v, out); }
VP int m3sym(const double* a) { M3 m; load(m, a, 3); return m.IsSymmetric(); }
VP int m6sym(const double* a) { M6 m; load(m, a, 6); return m.IsSymmetric(); }
VP int m3eq(const double* a, const double* b, double eps) { M3 m, n; load(m, a, 3); load(n, b, 3); return m.IsEqual(n, eps); }
VP int m6eq(const double* a, const double* b, double eps) { M6 m, n; load(m, a, 6); load(n, b, 6); return m.IsEqual(n, eps); }
VP int m3id(const double* a) { M3 m; load(m, a, 3); return m.IsIdentity(); }
VP int m6id(const double* a) { M6 m; load(m, a, 6); return m.IsIdentity(); }
VP int m3chol(const double* a) { M3 m, l; load(m, a, 3); m.GetCholeskyDecomposition(l); return 0; }
VP int m6chol(const double* a) { M6 m, l; load(m, a, 6); m.GetCholeskyDecomposition(l); return 0; }
VP void outer3(const double* a, const double* b, double* out) { V3 v(a[0], a[1], a[2]), w(b[0], b[1], b[2]); M3 m = outer(v, w); store(m, out, 3, 3); m = outer(v); store(m, out + 9, 3, 3); out[18] = inner(v, w); }
VP void outer6(const double* a, const double* b, double* out) { V6 v(a[0], a[1], a[2], a[3], a[4], a[5]), w(b[0], b[1], b[2], b[3], b[4], b[5]); M6 m = outer(v, w); store(m, out, 6, 6); m = outer(v); store(m, out + 36, 6, 6); out[72] = inner(v, w); }
VP void v3basics(const double* a, int i, double x, double* out) {
  V3 z; for (int k = 0; k < 3; k++) out[k] = z[k]; V3 v(a[0], a[1], a[2]); for (int k = 0; k < 3; k++) out[3 + k] = v.at(k);
  const V3& c = v; out[6] = c.at(i); v.at(i) = x; for (int k = 0; k < 3; k++) out[7 + k] = v[k]; v.Set(a[2], a[0], a[1]); for (int k = 0; k < 3; k++) out[10 + k] = v[k];
  v.SetNull(); for (int k = 0; k < 3; k++) out[13 + k] = v[k]; out[16] = V3(a[0], a[1], a[2]).infNorm();
  V3 e = V3(a[0], a[1], a[2]) * 2. + z; out[17] = e[0]; out[18] = e[1]; out[19] = e[2];
}
VP void v6basics(const double* a, int i, double x, double* out) {
  V6 z; for (int k = 0; k < 6; k++) out[k] = z[k]; V6 v(a[0], a[1], a[2], a[3], a[4], a[5]); for (int k = 0; k < 6; k++) out[6 + k] = v.at(k);
  const V6& c = v; out[12] = c.at(i); v.at(i) = x; for (int k = 0; k < 6; k++) out[13 + k] = v[k]; v.Set(a[5], a[0], a[1], a[2], a[3], a[4]); for (int k = 0; k < 6; k++) out[19 + k] = v[k];
  v.SetNull(); for (int k = 0; k < 6; k++) out[25 + k] = v[k]; out[31] = V6(a[0], a[1], a[2], a[3], a[4], a[5]).infNorm();
}
VP void v3norm(const double* a, double* out) { V3 v(a[0], a[1], a[2]); v.Normalize(); for (int k = 0; k < 3; k++) out[k] = v[k]; }
VP int v3unit(const double* a) { V3 v(a[0], a[1], a[2]); return v.IsUnit(); }
VP int v3eq(const double* a, const double* b, double eps) { V3 v(a[0], a[1], a[2]), w(b[0], b[1], b[2]); return v.IsEqual(w, eps); }
VP int v6eq(const double* a, const double* b, double eps) { V6 v(a[0], a[1], a[2], a[3], a[4], a[5]), w(b[0], b[1], b[2], b[3], b[4], b[5]); return v.IsEqual(w, eps); }
VP double projang(int ax, const double* a, int u) {
  V3 v(a[0], a[1], a[2]);
  return ax == 0 ? v.GetProjectedAngleAroundX((ANGLE_UNIT)u) : ax == 1 ? v.GetProjectedAngleAroundY((ANGLE_UNIT)u) : v.GetProjectedAngleAroundZ((ANGLE_UNIT)u);
}
// dynamic
static MN mk(const double* a, int n, int m) { MN r(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r(i, j) = vp_at2(a, i, j, m); return r; }
static void put(const MN& m, double* o, int n, int k, int* dims) { dims[0] = (int)m.rows(); dims[1] = (int)m.cols(); for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) vp_put2(o, i, j, n, k, m(i, j)); }
VP double mnat(const double* a, int n, int m, int i, int j) { const MN x = mk(a, n, m); return x.at(i, j); }
VP void mnset(const double* a, int n, int m, int i, int j, double v, double* out, int* d) { MN x = mk(a, n, m); x.at(i, j) = v; put(x, out, n, m, d); }
VP void mnid(const double* a, int n, int m, double* out, int* d) { MN x = mk(a, n, m); x.SetIdentity(); put(x, out, n, m, d); }
VP void mnnull(const double* a, int n, int m, double* out, int* d) { MN x = mk(a, n, m); x.SetNull(); put(x, out, n, m, d); }
VP void mncol(const double* a, int n, int m, int j, double* out, int* d) { MN x = mk(a, n, m); put(x.GetColumn(j), out, n, 1, d); }
VP void mnrow(const double* a, int n, int m, int i, double* out, int* d) { MN x = mk(a, n, m); put(x.GetRow(i), out, 1, m, d); }
VP void mndiag(const double* a, int n, int m, int k, double* out, int* d) { MN x = mk(a, n, m); put(x.GetDiag(), out, k, 1, d); }
VP void mntr(int f, const double* a, int n, int m, double* out, int* d) { MN x = mk(a, n, m); if (f == 0) { x.Transpose(); put(x, out, m, n, d); } else { MN y = Transpose(x); put(y, out, m, n, d); } }
VP void mntr_src(const double* a, int n, int m, double* out, int* d) { MN x = mk(a, n, m); MN y = Transpose(x); put(x, out, n, m, d); }
VP void mnsymm(int f, const double* a, int n, double* out, int* d) { MN x = mk(a, n, n); put(f == 0 ? MakeSymmetricFromUpper(x) : MakeSymmetricFromLower(x), out, n, n, d); }
VP void mndims(const double* a, int n, int m, int* d) { MN x = mk(a, n, m); d[0] = x.GetNbRows(); d[1] = x.GetNbCols(); d[2] = x.IsSquare(); }
VP int mnsym(const double* a, int n, int m) { MN x = mk(a, n, m); return x.IsSymmetric(); }
VP int mneq(const double* a, const double* b, int n, int m, double eps) { MN x = mk(a, n, m), y = mk(b, n, m); return x.IsEqual(y, eps); }
VP int mnchol(const double* a, int n, int m) { MN x = mk(a, n, m), l; x.GetCholeskyDecomposition(l); return 0; }
static VN mkv(const double* a, int n) { VN r(n); for (int i = 0; i < n; i++) r(i) = a[i]; return r; }
VP void vnsq(int f, const double* a, int n, double* out, int* d) { VN v = mkv(a, n); put(f == 0 ? v.GetMatrixSquare() : GetMatrixSquare(v), out, n, n, d); }
VP void vndiag(int f, const double* a, int n, double* out, int* d) { VN v = mkv(a, n); put(f == 0 ? v.GetDiagonalMatrix() : GetDiagonalMatrix(v), out, n, n, d); }
VP void vntr(const double* a, int n, double* out, int* d) { VN v = mkv(a, n); put(Transpose(v), out, 1, n, d); }
VP double vnat(const double* a, int n, int i) { const VN v = mkv(a, n); return v.at(i); }
VP void vnset(int f, const double* a, int n, int i, double x, double* out) { VN v = mkv(a, n); if (f == 0) v.at(i) = x; else if (f == 1) v.SetNull(); else if (f == 2) v.SetOnes(); else v.Reverse(); vp_out(v, out, n); }
VP double vninf(const double* a, int n) { VN v = mkv(a, n); return v.infNorm(); }
VP int vneq(const double* a, const double* b, int n, double eps) { VN v = mkv(a, n), w = mkv(b, n); return v.IsEqual(w, eps); }
VP void vnsort(int asc, const double* a, int n, double* out) { VN v = mkv(a, n); if (asc == 2) v.Sort(); else v.Sort(asc); vp_out(v, out, n); }
VP int mnsymof(const double* b, int n) { MN x(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) x(i, j) = vp_at2(b, i, j, n) + vp_at2(b, j, i, n); return x.IsSymmetric(); }
