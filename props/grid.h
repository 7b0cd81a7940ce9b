// grids and N-dimensional data from flat arrays
#pragma once
#include <array>
template <class A> static void fill1(A& a, const double* d, int n) {
  std::vector<size_t> ex(1); ex[0] = n; a.resize(ex);
  for (int i = 0; i < n; i++) { std::array<size_t, 1> k; k[0] = i; a(k) = d[i]; }
}
template <class A> static void fill2(A& a, const double* d, int n, int m) {
  std::vector<size_t> ex(2); ex[0] = n; ex[1] = m; a.resize(ex);
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { std::array<size_t, 2> k; k[0] = i; k[1] = j; a(k) = vp_at2(d, i, j, m); }
}
template <class A> static void fill3(A& a, const double* d, int n, int m, int l) {
  std::vector<size_t> ex(3); ex[0] = n; ex[1] = m; ex[2] = l; a.resize(ex);
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int q = 0; q < l; q++) { std::array<size_t, 3> k; k[0] = i; k[1] = j; k[2] = q; a(k) = vp_at3(d, i, j, q, m, l); }
}
static std::vector<double> vec(const double* x, int n) { return std::vector<double>(x, x + n); }
