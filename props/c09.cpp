#include "vp.h"
#include "MathUtils/MathUtilsBoost.h"
#include "grid.h"
using namespace mathutils;
template <int N> using R = RegularGridNearest<double, N>;
template <int N> using MA = boost::multi_array<double, N>;
static void make(R<1>& r, const double* x, int nx, const double* d) { MA<1> a; fill1(a, d, nx); r.AddCoord(vec(x, nx)); r.AddVar(a); }
static void make(R<2>& r, const double* x, int nx, const double* y, int ny, const double* d) { MA<2> a; fill2(a, d, nx, ny); r.AddCoord(vec(x, nx)); r.AddCoord(vec(y, ny)); r.AddVar(a); }
static void make(R<3>& r, const double* x, int nx, const double* y, int ny, const double* z, int nz, const double* d) {
  MA<3> a; fill3(a, d, nx, ny, nz); r.AddCoord(vec(x, nx)); r.AddCoord(vec(y, ny)); r.AddCoord(vec(z, nz)); r.AddVar(a); }
template <int N> static void put(const GridNode<double, N>& g, double* o) {
  std::array<size_t, N> i = g.indices(); std::array<double, N> c = g.coords();
  for (int k = 0; k < N; k++) { o[k] = (double)i[k]; o[N + k] = c[k]; }
  o[2 * N] = g.val();
}
// what 0: nearest node and nearest data, 1: surrounding nodes
template <int N> static int ask(const R<N>& r, int what, const std::array<double, N>& w, double* out) {
  if (what == 0) { put<N>(r.Nearest(w), out); out[2 * N + 1] = r.GetData(w); return 1; }
  std::vector<GridNode<double, N>> v = r.GetSurroundingGridNodes(w); int n = (int)v.size();
  if (n == (1 << N)) for (int k = 0; k < (1 << N); k++) put<N>(v[k], out + k * (2 * N + 1));
  return n;
}
VP int gn1(int what, const double* x, int nx, const double* d, double p, double* out) { R<1> r; make(r, x, nx, d); std::array<double, 1> w; w[0] = p; return ask<1>(r, what, w, out); }
VP int gn2(int what, const double* x, int nx, const double* y, int ny, const double* d, double p, double q, double* out) {
  R<2> r; make(r, x, nx, y, ny, d); std::array<double, 2> w; w[0] = p; w[1] = q; return ask<2>(r, what, w, out); }
VP int gn3(int what, const double* x, int nx, const double* y, int ny, const double* z, int nz, const double* d, double p, double q, double s, double* out) {
  R<3> r; make(r, x, nx, y, ny, z, nz, d); std::array<double, 3> w; w[0] = p; w[1] = q; w[2] = s; return ask<3>(r, what, w, out); }
// copies: how 0 constructed, 1 assigned to an empty one, 2 assigned to a filled one; the original is refilled with e and then dropped
VP int gc1(int how, int what, const double* x, int nx, const double* d, const double* e, double p, double* out) {
  R<1>* o = new R<1>; make(*o, x, nx, d); R<1> t;
  if (how == 2) { double z[2] = {0., 1.}; make(t, z, 2, z); }
  R<1> c(how == 0 ? *o : t);
  if (how) { c = *o; }
  MA<1> a; fill1(a, e, nx); o->AddVar(a); delete o;
  std::array<double, 1> q; q[0] = p; return ask<1>(c, what, q, out); }
VP int gc2(int how, int what, const double* x, int nx, const double* y, int ny, const double* d, const double* e, double p, double q, double* out) {
  R<2>* o = new R<2>; make(*o, x, nx, y, ny, d); R<2> t;
  if (how == 2) { double z[2] = {0., 1.}, w[4] = {1., 2., 3., 4.}; MA<2> b; std::vector<size_t> ex(2); ex[0] = 2; ex[1] = 2; b.resize(ex);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { std::array<size_t, 2> k; k[0] = i; k[1] = j; b(k) = w[2 * i + j]; }
    t.AddCoord(vec(z, 2)); t.AddCoord(vec(z, 2)); t.AddVar(b); }
  R<2> c(how == 0 ? *o : t);
  if (how) { c = *o; }
  MA<2> a; fill2(a, e, nx, ny); o->AddVar(a); delete o;
  std::array<double, 2> w; w[0] = p; w[1] = q; return ask<2>(c, what, w, out); }
// getters: 0 min, 1 max, 2 dimension
VP double gg2(int op, int idx, int copy, const double* x, int nx, const double* y, int ny, const double* d) {
  R<2> r; make(r, x, nx, y, ny, d); R<2> t; if (copy) t = r; R<2>& s = copy ? t : r;
  return op == 0 ? s.GetCoordMinVal(idx) : op == 1 ? s.GetCoordMaxVal(idx) : (double)s.GetDimension(); }
VP int gv2(int idx, int copy, const double* x, int nx, const double* y, int ny, const double* d, double* out, int cap) {
  R<2> r; make(r, x, nx, y, ny, d); R<2> t; if (copy) t = r;
  return vp_out(copy ? t.GetCoord(idx) : r.GetCoord(idx), out, cap); }
// refusals: 0 a coordinate too many, 1 data before all coordinates
VP int gr2(int op, const double* x, int nx, const double* d) {
  R<2> r; r.AddCoord(vec(x, nx)); if (op == 1) { MA<2> a; fill2(a, d, nx, nx); r.AddVar(a); return 1; }
  r.AddCoord(vec(x, nx)); r.AddCoord(vec(x, nx)); return 1; }
