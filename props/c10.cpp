#include "vp.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
using F1 = double (*)(double);
VP double tz(const double* y, int n, double dx) { std::vector<double> v(y, y + n); return Trapz(v, dx); }
VP double tzx(const double* x, const double* y, int n) { return Trapz(std::vector<double>(x, x + n), std::vector<double>(y, y + n)); }
// history: each step of ops is 0 Get, 1 SetXmin, 2 SetXmax, 3 SetIntegrationMethod(TRAPEZOIDAL), 4 copy the object
static double run(Integrate1d<double> g, const int* ops, const double* v, int k, int last) {
  for (int i = 0; i < k; i++) {
    if (ops[i] == 0) g.Get();
    else if (ops[i] == 1) g.SetXmin(v[i]);
    else if (ops[i] == 2) g.SetXmax(v[i]);
    else if (ops[i] == 3) g.SetIntegrationMethod(TRAPEZOIDAL);
    else { Integrate1d<double> h(g); g = h; }
  }
  if (last == 1) return g.GetXmin();
  if (last == 2) return g.GetXmax();
  if (last == 3) { g.SetIntegrationMethod(NEWTON_COTES); return g.Get(); }
  return g.Get();
}
VP double itf(F1 f, double a, double b, int n, const int* ops, const double* v, int k, int last) { return run(Integrate1d<double>(f, a, b, n), ops, v, k, last); }
VP double itv(const double* y, double a, double b, int n, const int* ops, const double* v, int k, int last) { return run(Integrate1d<double>(std::vector<double>(y, y + n), a, b, n), ops, v, k, last); }
// the signal arrives in a ring buffer of capacity m that was full when the last e samples were written
VP double cv(const double* ker, int n, const double* sig, int m, int e, double dt, int rev) {
  boost::circular_buffer<double> s(sig, sig + m);
  for (int i = 0; i < e; i++) s.push_back(sig[m + i]);
  return NaiveConvolution(std::vector<double>(ker, ker + n), s, dt, rev != 0);
}
