#include "vp.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
static std::shared_ptr<const std::vector<double>> sh(const double* a, int n) { return std::make_shared<std::vector<double>>(a, a + n); }
using I2 = Interp2d<double>;
// the data as the user passes it: z[ny*i+j]
static double ask(const I2& p, int op, double q, double r) {
  switch (op) { case 0: return p.Eval(q, r); case 1: return p(q, r); case 2: return p.GetXmin(); case 3: return p.GetXmax(); case 4: return p.GetYmin(); default: return p.GetYmax(); }
}
VP double in2(int op, const double* x, int nx, const double* y, int ny, const double* z, int nz, double q, double r) {
  std::unique_ptr<I2> p(I2::MakeInterp2d(LINEAR));
  p->Initialize(sh(x, nx), sh(y, ny), sh(z, nz));
  return ask(*p, op, q, r);
}
VP double in2re(int op, const double* u, int nu, const double* v, int nv, const double* w, int nw, double a, double b,
                const double* x, int nx, const double* y, int ny, const double* z, int nz, double q, double r) {
  std::unique_ptr<I2> p(I2::MakeInterp2d(LINEAR));
  p->Initialize(sh(u, nu), sh(v, nv), sh(w, nw));
  p->Eval(a, b);
  p->Initialize(sh(x, nx), sh(y, ny), sh(z, nz));
  return ask(*p, op, q, r);
}
VP int in2v(int op, const double* x, int nx, const double* y, int ny, const double* z, int nz, const double* q, const double* r, int k, double* out, int cap) {
  std::unique_ptr<I2> p(I2::MakeInterp2d(LINEAR));
  p->Initialize(sh(x, nx), sh(y, ny), sh(z, nz));
  std::vector<std::vector<double>> w;
  for (int i = 0; i < k; i++) { std::vector<double> e(2); e[0] = q[i]; e[1] = r[i]; w.push_back(e); }
  return vp_out(op == 0 ? p->Eval(w) : (*p)(w), out, cap);
}
VP double in2meth(int m, const double* x, int nx, const double* y, int ny, const double* z, int nz, double q, double r) {
  std::unique_ptr<I2> p(I2::MakeInterp2d(m == 1 ? LINEAR_EXTRAPOLATE : m == 2 ? LINEAR_SATURATE : BSPLINE));
  p->Initialize(sh(x, nx), sh(y, ny), sh(z, nz));
  return p->Eval(q, r);
}
