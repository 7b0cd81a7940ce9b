#include "vp.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
typedef double (*F3)(double, double, double);
struct I3 : Integrand<double> {
  F3 f; I3(F3 f) : f(f) {}
  double Evaluate(const Vector3d<double>& x) const override { return f(x[0], x[1], x[2]); }
};
VP double tri(F3 f, int order, double ax, double ay, double az, double bx, double by, double bz, double cx, double cy, double cz) {
  I3 g(f);
  Integration2dTriangle<double> q(&g, order);
  return q.Compute(Vector3d<double>(ax, ay, az), Vector3d<double>(bx, by, bz), Vector3d<double>(cx, cy, cz));
}
// the same object integrates a second triangle, its result is that of a fresh one
VP double tri2(F3 f, int order, double ax, double ay, double az, double bx, double by, double bz, double cx, double cy, double cz) {
  I3 g(f);
  Integration2dTriangle<double> q(&g, order);
  q.Compute(Vector3d<double>(bx, cy, az), Vector3d<double>(cx, by, bz), Vector3d<double>(ax, ay, cz));
  return q.Compute(Vector3d<double>(ax, ay, az), Vector3d<double>(bx, by, bz), Vector3d<double>(cx, cy, cz));
}
// vector-valued integrand (f, 2 f + 1): component k
struct IV : Integrand<VectorN<double>> {
  F3 f; IV(F3 f) : f(f) {}
  VectorN<double> Evaluate(const Vector3d<double>& x) const override { VectorN<double> r(2); double v = f(x[0], x[1], x[2]); r(0) = v; r(1) = 2. * v + 1.; return r; }
};
VP double triv(F3 f, int order, int k, double ax, double ay, double az, double bx, double by, double bz, double cx, double cy, double cz) {
  IV g(f);
  Integration2dTriangle<VectorN<double>> q(&g, order);
  VectorN<double> r = q.Compute(Vector3d<double>(ax, ay, az), Vector3d<double>(bx, by, bz), Vector3d<double>(cx, cy, cz));
  return r(k);
}
