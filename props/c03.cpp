#include "vp.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
typedef Vector2d<double> V;
#define A (ANGLE_UNIT)
#define PUT(v) do { out[0] = (v)[0]; out[1] = (v)[1]; } while (0)
// f: 0 in place, 1 into another, 2 free function
VP void l2n(int f, double x, double y, double a, int u, double* out, double* src) {
  V v(x, y); V o(7, 9);
  if (f == 0) { v.ProjectLocalOnNED(a, A u); PUT(v); } else if (f == 1) { v.ProjectLocalOnNED(o, a, A u); PUT(o); src[0] = v[0]; src[1] = v[1]; }
  else if (f == 2) { o = ProjectLocalOnNED(v, a, A u); PUT(o); src[0] = v[0]; src[1] = v[1]; } else { o.SetNEDFromLocal(x, y, a, A u); PUT(o); }
}
VP void n2l(int f, double x, double y, double a, int u, double* out, double* src) {
  V v(x, y); V o(7, 9);
  if (f == 0) { v.ProjectNEDOnLocal(a, A u); PUT(v); } else if (f == 1) { v.ProjectNEDOnLocal(o, a, A u); PUT(o); src[0] = v[0]; src[1] = v[1]; }
  else { o = ProjectNEDOnLocal(v, a, A u); PUT(o); src[0] = v[0]; src[1] = v[1]; }
}
VP void l2n_def(double x, double y, double a, double* out) {
  V v(x, y), o, w(x, y), s; v.ProjectLocalOnNED(a); out[0] = v[0]; out[1] = v[1];
  w.ProjectNEDOnLocal(a); out[2] = w[0]; out[3] = w[1];
  V z(x, y); out[4] = z.ProjectOnNorthAxis(a); out[5] = z.ProjectOnEastAxis(a); out[6] = z.ProjectOnLocalXAxis(a); out[7] = z.ProjectOnLocalYAxis(a);
  s.SetNEDFromLocal(x, y, a); out[8] = s[0]; out[9] = s[1];
}
VP void roundtrip(int f, double x, double y, double a, int u, double* out) {
  V v(x, y);
  if (f == 0) { v.ProjectLocalOnNED(a, A u); out[2] = v[0] * v[0] + v[1] * v[1]; v.ProjectNEDOnLocal(a, A u); PUT(v); }
  else { v.ProjectNEDOnLocal(a, A u); out[2] = v[0] * v[0] + v[1] * v[1]; v.ProjectLocalOnNED(a, A u); PUT(v); }
}
VP double axis(int f, int k, double x, double y, double a, int u) {
  V v(x, y);
  if (f) switch (k) { case 0: return ProjectOnNorthAxis(v, a, A u); case 1: return ProjectOnEastAxis(v, a, A u); case 2: return ProjectOnLocalXAxis(v, a, A u); default: return ProjectOnLocalYAxis(v, a, A u); }
  switch (k) { case 0: return v.ProjectOnNorthAxis(a, A u); case 1: return v.ProjectOnEastAxis(a, A u); case 2: return v.ProjectOnLocalXAxis(a, A u); default: return v.ProjectOnLocalYAxis(a, A u); }
}
VP void transport(int f, double x, double y, double px, double py, double w, int u, double* out) {
  V v(x, y), p(px, py), o(7, 9);
  if (f == 0) { v.TransportAtPoint(p, w, (FREQUENCY_UNIT)u); PUT(v); } else if (f == 1) { v.TransportAtPoint(o, p, w, (FREQUENCY_UNIT)u); PUT(o); }
  else if (f == 2) { o = TransportAtPoint(v, p, w, (FREQUENCY_UNIT)u); PUT(o); } else { v.TransportAtPoint(p, w); PUT(v); }
}
VP void nedvel(double x, double y, double a, int u, int ui, int uo, double* out) { V o = GetNEDVelocityVector<double>(x, y, a, A u, (SPEED_UNIT)ui, (SPEED_UNIT)uo); PUT(o); }
VP void nedvel_def(double x, double y, double a, double* out) { V o = GetNEDVelocityVector<double>(x, y, a); PUT(o); }
VP double infnorm2(double x, double y) { V v(x, y); return v.infNorm(); }
VP void basics(double x, double y, double* out) {
  V v(x, y); out[0] = v.at(0); out[1] = v.at(1); V z; out[2] = z[0]; out[3] = z[1]; v.SetNull(); out[4] = v[0]; out[5] = v[1];
  v.Set(y, x); out[6] = v[0]; out[7] = v[1]; v.at(0) = 5; out[8] = v[0]; out[9] = v[1]; V e(x + y, x - y); V w = e + V(x, y); out[10] = w[0]; out[11] = w[1]; w = e * 2.; out[12] = w[0]; out[13] = w[1];
}
VP void trigo(double a, int u, double* out) { _GetTrigo(a, out[0], out[1], A u); }
