#include "vp.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
typedef MatrixMN<double> MN; typedef Matrix33<double> M3; typedef Matrix66<double> M6;
static MN mk(const double* a, int n, int m) { MN r(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r(i, j) = vp_at2(a, i, j, m); return r; }
static void put(const MN& m, double* o, int n, int k, int* dims) { dims[0] = (int)m.rows(); dims[1] = (int)m.cols(); if (m.rows() != n || m.cols() != k) return; for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) vp_put2(o, i, j, n, k, m(i, j)); }
static MN mkv(const double* a, int n) { MN r(n, 1); for (int i = 0; i < n; i++) r(i, 0) = a[i]; return r; }
static void putv(const MN& m, double* o, int n, int* dims) { dims[0] = (int)m.rows(); dims[1] = (int)m.cols(); if (m.rows() != n || m.cols() != 1) return; for (int i = 0; i < n; i++) o[i] = m(i, 0); }
// MatrixMN
VP void qr(const double* a, int m, int n, double* q, double* r, int* dq, int* dr) { const MN A = mk(a, m, n); MN Q, R; A.GetQRDecomposition(Q, R); put(Q, q, m, n, dq); put(R, r, n, n, dr); }
VP void fqr(const double* a, int m, int n, double* q, double* r, int* dq, int* dr) { const MN A = mk(a, m, n); MN Q, R; A.GetFullQRDecomposition(Q, R); put(Q, q, m, m, dq); put(R, r, n, n, dr); }
VP void lu(const double* a, int n, double* p, double* l, double* u, int* dp, int* dl, int* du) { const MN A = mk(a, n, n); MN P, L, U; A.GetLUDecomposition(P, L, U); put(P, p, n, n, dp); put(L, l, n, n, dl); put(U, u, n, n, du); }
// the matrix is the symmetric one with the given lower triangle
static MN symm(const double* a, int n) { MN r(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r(i, j) = i < j ? vp_at2(a, j, i, n) : vp_at2(a, i, j, n); return r; }
VP void chol(const double* a, int n, double* l, int* dl) { const MN A = symm(a, n); MN L; A.GetCholeskyDecomposition(L); put(L, l, n, n, dl); }
VP void cholany(const double* a, int m, int n) { const MN A = mk(a, m, n); MN L; A.GetCholeskyDecomposition(L); }
VP void cholup(const double* a, int n, const double* v, double s, double* l, int* dl) { const MN A = symm(a, n); MN L, w = mkv(v, n); A.GetCholeskyUpdate(L, w, s); put(L, l, n, n, dl); }
VP void cholin(const double* a, int n, const double* v, double s, double* l, int* dl) { MN A = symm(a, n); MN w = mkv(v, n); A.InPlaceCholeskyUpdate(w, s); put(A, l, n, n, dl); }
VP void svd(const double* a, int m, int n, int k, double* u, double* s, double* v, int* du, int* ds, int* dv) { const MN A = mk(a, m, n); MN U, S, V; A.GetSVDDecomposition(U, S, V); put(U, u, m, k, du); putv(S, s, k, ds); put(V, v, n, k, dv); }
VP void pinv(const double* a, int m, int n, int op, double tol, double* x, int* dx) { const MN A = mk(a, m, n); MN X; if (op == 0) X = A.GetPseudoInverse(); else if (op == 1) X = A.GetPseudoInverse(tol); else X = Pinv(A, tol); put(X, x, n, m, dx); }
VP void inverse(const double* a, int n, int op, double* x, int* dx) { MN A = mk(a, n, n); MN X; if (op == 0) { A.Inverse(); X = A; } else { const MN& B = A; X = B.GetInverse(); } put(X, x, n, n, dx); }
VP void inversekeeps(const double* a, int n, double* x, int* dx) { const MN A = mk(a, n, n); MN X = A.GetInverse(); put(A, x, n, n, dx); }
VP void solve(const double* a, int n, const double* b, int k, int op, double* x, int* dx) { const MN A = mk(a, n, n), B = mk(b, n, k); MN X = op ? A.QRSolver(B) : A.LUSolver(B); put(X, x, n, k, dx); }
VP void ls(const double* a, int m, int n, const double* b, int k, double* x, int* dx) { const MN A = mk(a, m, n), B = mk(b, m, k); MN X = A.LeastSquareSolver(B); put(X, x, n, k, dx); }
VP void lsc(const double* a, int m, int n, const double* b, const double* c, int p, const double* d, double* x, int* dx) { const MN A = mk(a, m, n), B = mkv(b, m), C = mk(c, p, n), D = mkv(d, p); MN X = A.LeastSquareSolverConstraint(B, C, D); putv(X, x, n, dx); }
// Matrix33, Matrix66
template <class M> static M fx(const double* a, int n) { M r; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r(i, j) = a[i * n + j]; return r; }
template <class M> static M fsym(const double* a, int n) { M r; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r(i, j) = i < j ? a[j * n + i] : a[i * n + j]; return r; }
template <class M> static void fput(const M& m, double* o, int n) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) o[i * n + j] = m(i, j); }
#define FIXED(K, M, N, V) \
VP void K##qr(const double* a, double* q, double* r) { const M A = fx<M>(a, N); M Q, R; A.GetQRDecomposition(Q, R); fput(Q, q, N); fput(R, r, N); } \
VP void K##lu(const double* a, double* p, double* l, double* u) { const M A = fx<M>(a, N); M P, L, U; A.GetLUDecomposition(P, L, U); fput(P, p, N); fput(L, l, N); fput(U, u, N); } \
VP void K##chol(const double* a, double* l) { const M A = fsym<M>(a, N); M L; A.GetCholeskyDecomposition(L); fput(L, l, N); } \
VP void K##inv(const double* a, double* x) { M A = fx<M>(a, N); A.Inverse(); fput(A, x, N); } \
VP void K##ginv(const double* a, double* x, double* y) { const M A = fx<M>(a, N); fput(M(A.GetInverse()), x, N); fput(A, y, N); } \
VP void K##solve(const double* a, const double* b, const double* c, int op, double* x, double* z) { const M A = fx<M>(a, N), B = fx<M>(b, N); M X; V v, w; for (int i = 0; i < N; i++) v[i] = c[i]; \
  if (op == 0) { X = A.LUSolver(B); w = A.LUSolver(v); } else if (op == 1) { X = A.QRSolver(B); w = A.QRSolver(v); } else { X = A.LeastSquareSolver(B); w = A.LeastSquareSolver(v); } \
  fput(X, x, N); for (int i = 0; i < N; i++) z[i] = w[i]; }
FIXED(m3, M3, 3, Vector3d<double>)
FIXED(m6, M6, 6, Vector6d<double>)
VP void eigv(const double* a, int n, double* re, double* im, int* d) { const MN A = mk(a, n, n); const MatrixMN<std::complex<double>> e = A.Eigenvalues(); d[0] = (int)e.rows(); d[1] = (int)e.cols(); if (d[0] != n || d[1] != 1) return; for (int i = 0; i < n; i++) { re[i] = e(i, 0).real(); im[i] = e(i, 0).imag(); } }
