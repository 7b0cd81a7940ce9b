#include "vp.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
VP double cvel(double v, int a, int b) { return convert_velocity_unit<double>(v, (SPEED_UNIT)a, (SPEED_UNIT)b); }
VP double cvel_ms(double v, int a) { return convert_velocity_unit<double>(v, (SPEED_UNIT)a); }
VP double cvel_chain(double v, int a, int b, int c) { return convert_velocity_unit<double>(convert_velocity_unit<double>(v, (SPEED_UNIT)a, (SPEED_UNIT)b), (SPEED_UNIT)b, (SPEED_UNIT)c); }
VP double cfreq(double v, int a, int b) { return convert_frequency<double>(v, (FREQUENCY_UNIT)a, (FREQUENCY_UNIT)b); }
VP double cfreq_chain(double v, int a, int b, int c) { return convert_frequency<double>(convert_frequency<double>(v, (FREQUENCY_UNIT)a, (FREQUENCY_UNIT)b), (FREQUENCY_UNIT)b, (FREQUENCY_UNIT)c); }
VP double f_KNOT2MS(double v) { return KNOT2MS(v); }
VP double f_MS2KNOT(double v) { return MS2KNOT(v); }
VP double f_KMH2MS(double v) { return KMH2MS(v); }
VP double f_MS2KMH(double v) { return MS2KMH(v); }
VP double f_KMH2KNOT(double v) { return KMH2KNOT(v); }
VP double f_KNOT2KMH(double v) { return KNOT2KMH(v); }
VP double f_DEGS2RADS(double v) { return DEGS2RADS(v); }
VP double f_RADS2DEGS(double v) { return RADS2DEGS(v); }
VP double f_HZ2RADS(double v) { return HZ2RADS(v); }
VP double f_RADS2HZ(double v) { return RADS2HZ(v); }
VP double f_HZ2S(double v) { return HZ2S(v); }
VP double f_S2HZ(double v) { return S2HZ(v); }
VP double f_RADS2S(double v) { return RADS2S(v); }
VP double f_S2RADS(double v) { return S2RADS(v); }
VP double f_RPM2RADS(double v) { return RPM2RADS(v); }
VP double f_RADS2RPM(double v) { return RADS2RPM(v); }
VP double f_DEGM2RADS(double v) { return DEGM2RADS(v); }
VP double f_RADS2DEGM(double v) { return RADS2DEGM(v); }
// op: 0 deg2rad, 1 rad2deg, 2 kt2ms; copy: into another vector (of length m before the call)
VP int vconv(int op, int copy, const double* a, int n, int m, double* out, double* src) {
  std::vector<double> v(a, a + n), o(m);
  if (copy) {
    const std::vector<double>& c = v;
    if (op == 0) deg2rad(c, o); else if (op == 1) rad2deg(c, o); else kt2ms(c, o);
    vp_out(v, src, n);
    return vp_out(o, out, n);
  }
  if (op == 0) deg2rad(v); else if (op == 1) rad2deg(v); else kt2ms(v);
  return vp_out(v, out, n);
}
