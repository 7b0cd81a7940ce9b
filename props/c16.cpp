#include "vp.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
// orders of integer and floating-point type
template <class N> double besT(int which, N n, double x) {
  switch (which) {
    case 0: return Cyl_Bessel_first_kind<N, double, double>(n, x);
    case 1: return Cyl_Bessel_second_kind<N, double, double>(n, x);
    case 2: return Cyl_modified_Bessel_first_kind<N, double, double>(n, x);
    case 3: return Cyl_modified_Bessel_second_kind<N, double, double>(n, x);
    case 4: return Cyl_Bessel_first_kind_derivative<N, double, double>(n, x);
    case 5: return Cyl_Bessel_second_kind_derivative<N, double, double>(n, x);
    case 6: return Cyl_modified_Bessel_first_kind_derivative<N, double, double>(n, x);
    default: return Cyl_modified_Bessel_second_kind_derivative<N, double, double>(n, x);
  }
}
VP double bes(int which, int n, double x) { return besT<int>(which, n, x); }
VP double besr(int which, double n, double x) { return besT<double>(which, n, x); }
template <class N> double hanT(int which, int part, N n, double x) {
  std::complex<double> z = which == 0 ? Cyl_Hankel_first_kind<N, double>(n, x) : Cyl_Hankel_first_kind_derivative<N, double>(n, x);
  return part == 0 ? z.real() : z.imag();
}
VP double han(int which, int part, int n, double x) { return hanT<int>(which, part, n, x); }
VP double hanr(int which, int part, double n, double x) { return hanT<double>(which, part, n, x); }
VP double pol(int which, int n, double x) {
  switch (which) {
    case 0: return Legendre_polynomial<int, double>(n, x);
    case 1: return Legendre_polynomial_derivative<int, double>(n, x);
    case 2: return Chebyshev_polynomial<int, double>(n, x);
    case 3: return Chebyshev_polynomial_derivative<int, double>(n, x);
    case 4: return Chebyshev_polynomial_shifted<int, double>(n, x);
    default: return Factorial<int, double>(n);
  }
}
VP double next(double x, double a, double b) { return Chebyshev_polynomial_next<double>(x, a, b); }
VP double one(int which, double x) {
  switch (which) {
    case 0: return Gamma<double>(x);
    case 1: return Ei<double>(x);
    case 2: return E1<double>(x);
    case 3: return Struve_zero_order<double>(x);
    case 4: return Struve_first_order<double>(x);
    case 5: return Struve_zero_order_derivative<double>(x);
    case 6: return Ei_approximation<double>(x);
    case 7: return E1_approximation<double>(x);
    default: return expEi<double>(x);
  }
}
