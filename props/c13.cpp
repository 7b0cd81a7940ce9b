#include "vp.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
using F1 = double (*)(double); using F2 = double (*)(double, double); using F3 = double (*)(double, double, double);
struct G1 : Function1d<double> { F1 f; explicit G1(F1 f) : f(f) {} double Evaluate(const double& x) const override { return f(x); } };
struct G2 : Function2d<double> { F2 f; explicit G2(F2 f) : f(f) {} double Evaluate(const double& x, const double& y) const override { return f(x, y); } };
struct G3 : Function3d<double> { F3 f; explicit G3(F3 f) : f(f) {} double Evaluate(const double& x, const double& y, const double& z) const override { return f(x, y, z); } };
// times: how often the coefficients are computed before the query
template <class S> static double e1(S& s, int times, int op, double x) {
  for (int i = 0; i < times; i++) s.Compute_ai();
  return op == 0 ? s.Evaluate(x) : s.Evaluate_derivative_x(x);
}
VP double ch1(F1 f, int dom, int times, int op, int n, double x0, double x1, double x) {
  G1 g(f);
  if (dom == 0) { ChebyshevSeries1dClosed<double> s(&g, x0, x1, n); return e1(s, times, op, x); }
  ChebyshevSeries1dOpened<double> s(&g, x0, n); return e1(s, times, op, x);
}
template <class S> static int b1(S& s, int times, double* out, int cap) {
  for (int i = 0; i < times; i++) s.Compute_ai();
  VectorN<double> b = s.Compute_bi();
  int n = (int)b.size();
  for (int i = 0; i < n; i++) if (i < cap) out[i] = b(i);
  return n;
}
VP int cb1(F1 f, int dom, int times, int n, double x0, double x1, double* out, int cap) {
  G1 g(f);
  if (dom == 0) { ChebyshevSeries1dClosed<double> s(&g, x0, x1, n); return b1(s, times, out, cap); }
  ChebyshevSeries1dOpened<double> s(&g, x0, n); return b1(s, times, out, cap);
}
template <class S> static double e2(S& s, int times, int op, double x, double y) {
  for (int i = 0; i < times; i++) s.Compute_aij();
  return op == 0 ? s.Evaluate(x, y) : op == 1 ? s.Evaluate_derivative_x(x, y) : s.Evaluate_derivative_y(x, y);
}
VP double ch2(F2 f, int dom, int times, int op, int nx, int ny, double x0, double x1, double y0, double y1, double x, double y) {
  G2 g(f);
  if (dom == 0) { ChebyshevSeries2dClosed<double> s(&g, x0, x1, y0, y1, nx, ny); return e2(s, times, op, x, y); }
  if (dom == 1) { ChebyshevSeries2dOpened<double> s(&g, x0, y0, nx, ny); return e2(s, times, op, x, y); }
  ChebyshevSeries2dMixed<double> s(&g, x0, x1, y0, nx, ny); return e2(s, times, op, x, y);
}
template <class S> static int b2(S& s, int times, double* out) {
  for (int i = 0; i < times; i++) s.Compute_aij();
  MatrixMN<double> b = s.Compute_bij();
  int nx = (int)b.rows(), ny = (int)b.cols();
  for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) vp_put2(out, i, j, nx, ny, b(i, j));
  return nx * 1000 + ny;
}
VP int cb2(F2 f, int dom, int times, int nx, int ny, double x0, double x1, double y0, double y1, double* out) {
  G2 g(f);
  if (dom == 0) { ChebyshevSeries2dClosed<double> s(&g, x0, x1, y0, y1, nx, ny); return b2(s, times, out); }
  if (dom == 1) { ChebyshevSeries2dOpened<double> s(&g, x0, y0, nx, ny); return b2(s, times, out); }
  ChebyshevSeries2dMixed<double> s(&g, x0, x1, y0, nx, ny); return b2(s, times, out);
}
template <class S> static double e3(S& s, int times, int op, double x, double y, double z) {
  for (int i = 0; i < times; i++) s.Compute_aijk();
  return op == 0 ? s.Evaluate(x, y, z) : op == 1 ? s.Evaluate_derivative_x(x, y, z) : op == 2 ? s.Evaluate_derivative_y(x, y, z) : s.Evaluate_derivative_z(x, y, z);
}
VP double ch3(F3 f, int dom, int times, int op, int nx, int ny, int nz, double x0, double x1, double y0, double y1, double z0, double z1, double x, double y, double z) {
  G3 g(f);
  if (dom == 0) { ChebyshevSeries3dClosed<double> s(&g, x0, x1, y0, y1, z0, z1, nx, ny, nz); return e3(s, times, op, x, y, z); }
  if (dom == 1) { ChebyshevSeries3dYZOpenedXClosed<double> s(&g, x0, x1, y0, z0, nx, ny, nz); return e3(s, times, op, x, y, z); }
  ChebyshevSeries3dZOpenedXYClosed<double> s(&g, x0, x1, y0, y1, z0, nx, ny, nz); return e3(s, times, op, x, y, z);
}
// slice k of the converted coefficients
template <class S> static int b3(S& s, int times, int k, double* out) {
  for (int i = 0; i < times; i++) s.Compute_aijk();
  std::vector<MatrixMN<double>> t = s.Compute_bijk();
  const MatrixMN<double>& b = t.at(k);
  int nx = (int)b.rows(), ny = (int)b.cols();
  for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) vp_put2(out, i, j, nx, ny, b(i, j));
  return ((int)t.size() * 1000 + nx) * 1000 + ny;
}
VP int cb3(F3 f, int dom, int times, int nx, int ny, int nz, int k, double x0, double x1, double y0, double y1, double z0, double z1, double* out) {
  G3 g(f);
  if (dom == 0) { ChebyshevSeries3dClosed<double> s(&g, x0, x1, y0, y1, z0, z1, nx, ny, nz); return b3(s, times, k, out); }
  if (dom == 1) { ChebyshevSeries3dYZOpenedXClosed<double> s(&g, x0, x1, y0, z0, nx, ny, nz); return b3(s, times, k, out); }
  ChebyshevSeries3dZOpenedXYClosed<double> s(&g, x0, x1, y0, y1, z0, nx, ny, nz); return b3(s, times, k, out);
}
// Coefficients of a 3D series given directly / read back (m_aijk is protected: a derived class sees it; without such a member the two functions do nothing and the units that need them are not proved)
template <class S> struct H3 : S {
  using S::S;
  template <class Q> static auto at(Q& q, int i, int j, int k, int) -> decltype(&q.m_aijk.at(k)(i, j)) { return &q.m_aijk.at(k)(i, j); }
  template <class Q> static std::nullptr_t at(Q&, int, int, int, long) { return nullptr; }
};
static inline void put3(double* p, double v) { *p = v; } static inline void put3(std::nullptr_t, double) {}
static inline double get3(const double* p) { return *p; } static inline double get3(std::nullptr_t) { return 0; }
template <class S> static double ge3(H3<S>& s, F3 a, int op, int nx, int ny, int nz, double x, double y, double z) {
  for (int k = 0; k <= nz; k++) for (int i = 0; i <= nx; i++) for (int j = 0; j <= ny; j++) put3(H3<S>::at(s, i, j, k, 0), a(i, j, k));
  return op == 0 ? s.Evaluate(x, y, z) : op == 1 ? s.Evaluate_derivative_x(x, y, z) : op == 2 ? s.Evaluate_derivative_y(x, y, z) : s.Evaluate_derivative_z(x, y, z);
}
VP double cg3(F3 a, int dom, int op, int nx, int ny, int nz, double x0, double x1, double y0, double y1, double z0, double z1, double x, double y, double z) {
  if (dom == 0) { H3<ChebyshevSeries3dClosed<double>> s(nullptr, x0, x1, y0, y1, z0, z1, nx, ny, nz); return ge3(s, a, op, nx, ny, nz, x, y, z); }
  if (dom == 1) { H3<ChebyshevSeries3dYZOpenedXClosed<double>> s(nullptr, x0, x1, y0, z0, nx, ny, nz); return ge3(s, a, op, nx, ny, nz, x, y, z); }
  H3<ChebyshevSeries3dZOpenedXYClosed<double>> s(nullptr, x0, x1, y0, y1, z0, nx, ny, nz); return ge3(s, a, op, nx, ny, nz, x, y, z);
}
template <class S> static double gc3(H3<S>& s, int times, int i, int j, int k) {
  for (int t = 0; t < times; t++) s.Compute_aijk();
  return get3(H3<S>::at(s, i, j, k, 0));
}
VP double cc3(F3 f, int dom, int times, int nx, int ny, int nz, int i, int j, int k, double x0, double x1, double y0, double y1, double z0, double z1) {
  G3 g(f);
  if (dom == 0) { H3<ChebyshevSeries3dClosed<double>> s(&g, x0, x1, y0, y1, z0, z1, nx, ny, nz); return gc3(s, times, i, j, k); }
  if (dom == 1) { H3<ChebyshevSeries3dYZOpenedXClosed<double>> s(&g, x0, x1, y0, z0, nx, ny, nz); return gc3(s, times, i, j, k); }
  H3<ChebyshevSeries3dZOpenedXYClosed<double>> s(&g, x0, x1, y0, y1, z0, nx, ny, nz); return gc3(s, times, i, j, k);
}
VP int h3_ok() { return !std::is_null_pointer<decltype(H3<ChebyshevSeries3dClosed<double>>::at(std::declval<H3<ChebyshevSeries3dClosed<double>>&>(), 0, 0, 0, 0))>::value; }
