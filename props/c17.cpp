#include "vp.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using F = FFT<double>;
static FREQUENCY_UNIT unit(int u) { return u == 0 ? HERTZ : u == 1 ? RADS : u == 2 ? DEGS : u == 3 ? DEGM : u == 4 ? S : RPM; }
// a history of up to four switches: 1 half spectrum on, 2 off, 3 scaling on, 4 off
static void flag(F& f, int h) { if (h == 1) f.HalfSpectrumON(); if (h == 2) f.HalfSpectrumOFF(); if (h == 3) f.ScalingON(); if (h == 4) f.ScalingOFF(); }
#define H int h1, int h2, int h3, int h4
#define FLAGS F f; flag(f, h1); flag(f, h2); flag(f, h3); flag(f, h4)
VP int fv(H, int u, int n, double fs, double* out, int cap) { FLAGS; return vp_out(f.GetFrequencyVector(n, fs, unit(u)), out, cap); }
VP int fvh(H, int n, double fs, double* out, int cap) { FLAGS; return vp_out(f.GetFrequencyVector(n, fs), out, cap); }
// transform of a signal: part 0 real parts, 1 imaginary parts, 2 frequencies (with axis), 3 and 4: parts of the transform that comes with the axis
VP int ft(H, int part, int u, const double* x, int n, double fs, double* out, int cap) {
  FLAGS; std::vector<double> s(x, x + n), fr; std::vector<std::complex<double>> z;
  if (part < 2) f.fft(z, s); else if (u < 0) f.fft(z, fr, s, fs); else f.fft(z, fr, s, fs, unit(u));
  if (part == 2) return vp_out(fr, out, cap);
  int k = (int)z.size();
  for (int i = 0; i < k; i++) if (i < cap) out[i] = part % 2 == (part > 2) ? z[i].real() : z[i].imag();
  return k; }
// there and back; switches in between
VP int rt(H, int g1, int g2, const double* x, int n, double* out, int cap) {
  FLAGS; std::vector<double> s(x, x + n), r; std::vector<std::complex<double>> z; f.fft(z, s); flag(f, g1); flag(f, g2); f.ifft(r, z); return vp_out(r, out, cap); }
VP unsigned pw2(unsigned p) { return Pow2(p); }
