// common part of every harness: plain C interface to the real code, so that the verifier and the compiled
// library run the same wrapper
#pragma once
#include <cstddef>
#include <vector>
#include <string>
#define VP extern "C" __attribute__((noinline, used))
#ifdef VP_LIB
#include <exception>
#include <unistd.h>
namespace { struct VpTerm { VpTerm() { std::set_terminate([] { _exit(77); }); } } vp_term; }
#endif
// number of elements written is what fits; the caller compares the returned size with the expected one
template <class V> static inline int vp_out(const V& v, double* out, int cap) {
  int n = (int)v.size();
  int m = n < cap ? n : cap;
  for (int i = 0; i < m; i++) out[i] = v[i];
  return n;
}

// tensors passed as flat arrays (row major); the verifier sees (i, j[, k]) as separate indices
extern "C" __attribute__((noinline, weak)) double vp_at2(const double* a, int i, int j, int ny) { return a[i * ny + j]; }
extern "C" __attribute__((noinline, weak)) double vp_at3(const double* a, int i, int j, int k, int ny, int nz) { return a[(i * ny + j) * nz + k]; }
extern "C" __attribute__((noinline, weak)) void vp_put2(double* a, int i, int j, int nx, int ny, double v) { if (i < nx && j < ny) a[i * ny + j] = v; }
