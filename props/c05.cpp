#include "vp.h"
#include <complex>
#include "MathUtils/MathUtils.h"
using namespace mathutils;
template <class T> static std::shared_ptr<const std::vector<T>> sh(const T* a, int n) { return std::make_shared<std::vector<T>>(a, a + n); }
using I1 = Interp1d<double, double>;
static INTERP_METHOD meth(int m) { return m == 0 ? LINEAR : m == 1 ? LINEAR_EXTRAPOLATE : m == 2 ? LINEAR_SATURATE : BSPLINE; }
// op 0: Eval, 1: operator(), 2: GetXmin, 3: GetXmax
static double ask(const I1& p, int op, double q) { return op == 0 ? p.Eval(q) : op == 1 ? p(q) : op == 2 ? p.GetXmin() : p.GetXmax(); }
VP double in1(int m, int op, const double* x, const double* y, int n, double q) {
  std::unique_ptr<I1> p(I1::MakeInterp1d(meth(m)));
  p->Initialize(sh(x, n), sh(y, n));
  return ask(*p, op, q);
}
// a history: data (u, v) of another length first, evaluated there, then (x, y)
VP double in1re(int m, int op, const double* u, const double* v, int k, double r, const double* x, const double* y, int n, double q) {
  std::unique_ptr<I1> p(I1::MakeInterp1d(meth(m)));
  p->Initialize(sh(u, k), sh(v, k));
  p->Eval(r);
  p->Initialize(sh(x, n), sh(y, n));
  return ask(*p, op, q);
}
VP int in1v(int m, int op, const double* x, const double* y, int n, const double* q, int k, double* out, int cap) {
  std::unique_ptr<I1> p(I1::MakeInterp1d(meth(m)));
  p->Initialize(sh(x, n), sh(y, n));
  std::vector<double> w(q, q + k);
  return vp_out(op == 0 ? p->Eval(w) : (*p)(w), out, cap);
}
VP double in1c(int m, int part, const double* x, const double* re, const double* im, int n, double q) {
  std::unique_ptr<Interp1d<double, std::complex<double>>> p(Interp1d<double, std::complex<double>>::MakeInterp1d(meth(m)));
  auto y = std::make_shared<std::vector<std::complex<double>>>(n);
  for (int i = 0; i < n; i++) (*y)[i] = std::complex<double>(re[i], im[i]);
  p->Initialize(sh(x, n), y);
  std::complex<double> z = p->Eval(q);
  return part == 0 ? z.real() : z.imag();
}
// lengths that differ
VP double in1bad(int m, const double* x, int n, const double* y, int k, double q) {
  std::unique_ptr<I1> p(I1::MakeInterp1d(meth(m)));
  p->Initialize(sh(x, n), sh(y, k));
  return p->Eval(q);
}
