#include "vp.h"
#include "MathUtils/Polynomial.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
VP double horner(const double* a, int n, double x) { std::vector<double> c(a, a + n); return Horner<double>(c, x); }
VP double horner_d(const double* a, int n, double x) { std::vector<double> c(a, a + n); return Horner_derivative<double>(c, x); }

static VectorN<double> vec(const double* a, int n) { VectorN<double> v(n); for (int i = 0; i < n; i++) v(i) = a[i]; return v; }
static MatrixMN<double> mat(const double* a, int nx, int ny) {
  MatrixMN<double> m(nx, ny);
  for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) m(i, j) = vp_at2(a, i, j, ny);
  return m;
}
static std::vector<MatrixMN<double>> ten(const double* a, int nx, int ny, int nz) {
  std::vector<MatrixMN<double>> t;
  for (int k = 0; k < nz; k++) {
    MatrixMN<double> m(nx, ny);
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) m(i, j) = vp_at3(a, i, j, k, ny, nz);
    t.push_back(m);
  }
  return t;
}
template <class S> static double eval1(const S& s, int op, double x) { return op == 0 ? s.Evaluate(x) : s.Evaluate_derivative_x(x); }
VP double ps1(const double* a, int n, int dom, int op, double x0, double x1, double x) {
  VectorN<double> b = vec(a, n);
  if (dom == 0) { PowerSeries1dClosed<double> s(b, x0, x1); return eval1(s, op, x); }
  PowerSeries1dOpened<double> s(b, x0); return eval1(s, op, x);
}
template <class S> static double eval2(const S& s, int op, double x, double y) {
  return op == 0 ? s.Evaluate(x, y) : op == 1 ? s.Evaluate_derivative_x(x, y) : s.Evaluate_derivative_y(x, y);
}
VP double ps2(const double* a, int nx, int ny, int dom, int op, double x0, double x1, double y0, double y1, double x, double y) {
  MatrixMN<double> b = mat(a, nx, ny);
  if (dom == 0) { PowerSeries2dClosed<double> s(b, x0, x1, y0, y1); return eval2(s, op, x, y); }
  if (dom == 1) { PowerSeries2dOpened<double> s(b, x0, y0); return eval2(s, op, x, y); }
  PowerSeries2dMixed<double> s(b, x0, x1, y0); return eval2(s, op, x, y);
}
template <class S> static void eval3(const S& s, int op, double x, double y, double z, double* out) {
  switch (op) {
    case 0: out[0] = s.Evaluate(x, y, z); break;
    case 1: out[0] = s.Evaluate_derivative_x(x, y, z); break;
    case 2: out[0] = s.Evaluate_derivative_y(x, y, z); break;
    case 3: out[0] = s.Evaluate_derivative_z(x, y, z); break;
    case 4: out[0] = s.Evaluate_zinf(x, y); break;
    case 5: out[0] = s.Evaluate_derivative_x_zinf(x, y); break;
    case 6: out[0] = s.Evaluate_derivative_y_zinf(x, y); break;
    case 7: s.Evaluate_f_dfdx_dfdy(x, y, z, out[0], out[1], out[2]); break;
    case 8: out[0] = s.Evaluate_z_predefined(x, y, s.Compute_cij(z)); break;
    case 9: out[0] = s.Evaluate_derivative_x_z_predefined(x, y, s.Compute_cij(z)); break;
    case 10: out[0] = s.Evaluate_derivative_y_z_predefined(x, y, s.Compute_cij(z)); break;
    case 11: s.Evaluate_f_dfdx_dfdy_z_predefined(x, y, s.Compute_cij(z), out[0], out[1], out[2]); break;
    case 12: out[0] = s.Evaluate_z_predefined(x, y, s.Compute_cij_zinf()); break;
  }
}
VP void ps3(const double* a, int nx, int ny, int nz, int dom, int op, double x0, double x1, double y0, double y1, double z0, double z1,
            double x, double y, double z, double* out) {
  std::vector<MatrixMN<double>> b = ten(a, nx, ny, nz);
  if (dom == 0) { PowerSeries3dClosed<double> s(b, x0, x1, y0, y1, z0, z1); eval3(s, op, x, y, z, out); }
  else if (dom == 1) { PowerSeries3dYZOpenedXClosed<double> s(b, x0, x1, y0, z0); eval3(s, op, x, y, z, out); }
  else { PowerSeries3dZOpenedXYClosed<double> s(b, x0, x1, y0, y1, z0); eval3(s, op, x, y, z, out); }
}
