#include "vp.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using V = std::vector<double>;
VP int linsp(double a, double b, unsigned n, double* out, int cap) { return vp_out(linspace<double>(a, b, n), out, cap); }
VP int logsp(double a, double b, unsigned n, double base, double* out, int cap) { return vp_out(logspace<double>(a, b, n, base), out, cap); }
VP int logsp10(double a, double b, unsigned n, double* out, int cap) { return vp_out(logspace<double>(a, b, n), out, cap); }
VP int arng(double a, double b, double step, double* out, int cap) { return vp_out(arange<double>(a, b, step), out, cap); }
VP int arng1(double a, double b, double* out, int cap) { return vp_out(arange<double>(a, b), out, cap); }
VP int bin(int op, const double* a, int n, const double* b, int m, double* out, int cap) {
  V x(a, a + n), y(b, b + m);
  switch (op) {
    case 0: return vp_out(Add<double>(x, y), out, cap);
    case 1: return vp_out(Minus<double>(x, y), out, cap);
    case 2: return vp_out(Mult<double>(x, y), out, cap);
    default: return vp_out(Divide<double>(x, y), out, cap);
  }
}
VP int una(int op, const double* a, int n, double s, double* out, int cap) {
  V x(a, a + n);
  switch (op) {
    case 0: return vp_out(AddScalar<double>(x, s), out, cap);
    case 1: Scale<double>(x, s); return vp_out(x, out, cap);
    case 2: Pow<double>(x, s); return vp_out(x, out, cap);
    default: Negate<double>(x); return vp_out(x, out, cap);
  }
}
VP double sumv(const double* a, int n) { V x(a, a + n); return Sum<double>(x); }
VP int sinc(const double* a, int n, double* out, int cap) { V x(a, a + n); return vp_out(Sinc<double>(x), out, cap); }
VP int sincr(double a, double b, unsigned n, double* out, int cap) { return vp_out(Sinc<double>(a, b, n), out, cap); }
VP int shape(int op, const double* a, int n, double p, double q, double r, double s, double* out, int cap) {
  V x(a, a + n);
  switch (op) {
    case 0: return vp_out(Heaviside<double>(x, p), out, cap);
    case 1: return vp_out(Door<double>(x, p, q, r), out, cap);
    case 2: return vp_out(Door<double>(x, p, q), out, cap);
    case 3: return vp_out(Dirac<double>(x, p, r), out, cap);
    case 4: return vp_out(Dirac<double>(x, p), out, cap);
    default: return vp_out(Ramp<double>(x, p, q, r, s), out, cap);
  }
}
VP int cplx(int op, const double* re, const double* im, int n, double* out, int cap) {
  std::vector<std::complex<double>> z(n);
  for (int i = 0; i < n; i++) z[i] = std::complex<double>(re[i], im[i]);
  switch (op) {
    case 0: return vp_out(Real<double>(z), out, cap);
    case 1: return vp_out(Imag<double>(z), out, cap);
    case 2: return vp_out(Amplitude<double>(z), out, cap);
    case 3: return vp_out(Phase<double>(z), out, cap);
    case 4: return vp_out(Phase<double>(z, RAD), out, cap);
    default: return vp_out(Phase<double>(z, DEG), out, cap);
  }
}
VP int sgnd(double x) { return sgn<double>(x); }
VP int sgni(int x) { return sgn<int>(x); }
VP double sat(double x, double a, double b) { return Saturate<double>(x, a, b); }
VP double sgsq(double x) { return SgnSqrt<double>(x); }
VP int close4(double a, double b, double r, double t) { return IsClose<double>(a, b, r, t); }
VP int close2(double a, double b) { return IsClose<double>(a, b); }
VP int closev(const double* a, int n, const double* b, int m, double r, double t) { V x(a, a + n), y(b, b + m); return IsClose<double>(x, y, r, t); }
VP int closev2(const double* a, int n, const double* b, int m) { V x(a, a + n), y(b, b + m); return IsClose<double>(x, y); }
VP void asscl(int op, double a, double b, double r, double t) { if (op) AssertIsClose<double>(a, b, r, t); else AssertIsClose<double>(a, b); }
VP void assclv(const double* a, int n, const double* b, int m, double r, double t) { V x(a, a + n), y(b, b + m); AssertIsClose<double>(x, y, r, t); }
VP int oddi(int x) { return is_odd<int>(x); }
VP int eveni(int x) { return is_even<int>(x); }
VP int oddu(unsigned x) { return is_odd<unsigned>(x); }
VP int evenu(unsigned x) { return is_even<unsigned>(x); }
