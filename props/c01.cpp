#include "vp.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
VP double n0360(double a) { return Normalize_0_360(a); }
VP double n180(double a) { return Normalize__180_180(a); }
VP double n02pi(double a) { return Normalize_0_2PI(a); }
VP double npi(double a) { return Normalize__PI_PI(a); }
VP double m360(double a) { return modulo360(a); }
VP double m2pi(double a) { return modulo2pi(a); }
VP double gtcos(double a, int deg) { double c = 0, s = 0; _GetTrigo(a, c, s, deg ? DEG : RAD); return c; }
VP double gtsin(double a, int deg) { double c = 0, s = 0; _GetTrigo(a, c, s, deg ? DEG : RAD); return s; }
VP double gtcosr(double a) { double c = 0, s = 0; _GetTrigo(a, c, s); return c; }
VP int s2a(int which) {
  const char *w[] = {"DEG", "RAD", "deg", "", "RADIAN"};
  return STRING2ANGLE(w[which]) == DEG ? 1 : 0;
}
