#include "vp.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
typedef Eigen::Matrix<double, Eigen::Dynamic, 1> EV;
static EV mkv(const double* a, int n) { EV r(n); for (int i = 0; i < n; i++) r(i) = a[i]; return r; }
static std::vector<double> stdv(const double* a, int n) { std::vector<double> r(n); for (int i = 0; i < n; i++) r[i] = a[i]; return r; }
template <int D> static double e_at(const double* x, const double* y, int n, double t) { const EV X = mkv(x, n), Y = mkv(y, n); const Spline<double, 1, D> s(X, Y); return s(t); }
template <int D> static double s_at(const double* x, const double* y, int n, double t) { std::vector<double> X = stdv(x, n), Y = stdv(y, n); const Spline<double, 1, D> s(X, Y); return s(t); }
VP double e3(const double* x, const double* y, int n, double t) { return e_at<3>(x, y, n, t); }
VP double ea3(const double* x, double al, double be, int n, double t) { double* y = new double[n]; for (int i = 0; i < n; i++) y[i] = al + be * x[i]; const double r = e_at<3>(x, y, n, t); delete[] y; return r; }
VP double e2(const double* x, const double* y, int n, double t) { return e_at<2>(x, y, n, t); }
VP double ea2(const double* x, double al, double be, int n, double t) { double* y = new double[n]; for (int i = 0; i < n; i++) y[i] = al + be * x[i]; const double r = e_at<2>(x, y, n, t); delete[] y; return r; }
VP double e1(const double* x, const double* y, int n, double t) { return e_at<1>(x, y, n, t); }
VP double ea1(const double* x, double al, double be, int n, double t) { double* y = new double[n]; for (int i = 0; i < n; i++) y[i] = al + be * x[i]; const double r = e_at<1>(x, y, n, t); delete[] y; return r; }
VP double s3(const double* x, const double* y, int n, double t) { return s_at<3>(x, y, n, t); }
VP double sa3(const double* x, double al, double be, int n, double t) { double* y = new double[n]; for (int i = 0; i < n; i++) y[i] = al + be * x[i]; const double r = s_at<3>(x, y, n, t); delete[] y; return r; }
VP double s2(const double* x, const double* y, int n, double t) { return s_at<2>(x, y, n, t); }
VP double sa2(const double* x, double al, double be, int n, double t) { double* y = new double[n]; for (int i = 0; i < n; i++) y[i] = al + be * x[i]; const double r = s_at<2>(x, y, n, t); delete[] y; return r; }
VP double s1(const double* x, const double* y, int n, double t) { return s_at<1>(x, y, n, t); }
VP double sa1(const double* x, double al, double be, int n, double t) { double* y = new double[n]; for (int i = 0; i < n; i++) y[i] = al + be * x[i]; const double r = s_at<1>(x, y, n, t); delete[] y; return r; }
// a copy, and the object it was copied from, evaluated after each other
VP double copied(const double* x, const double* y, int n, double t) { const EV X = mkv(x, n), Y = mkv(y, n); const Spline<double, 1, 3> s(X, Y); const Spline<double, 1, 3> c = s; const double a = c(t); return s(t) == a ? a : a + 1e30; }
