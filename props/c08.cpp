#include "vp.h"
#include "MathUtils/MathUtilsBoost.h"
#include "grid.h"
using namespace mathutils;
using R1 = RegularGridInterpolator<double, 1>;
using R2 = RegularGridInterpolator<double, 2>;
using R3 = RegularGridInterpolator<double, 3>;
template <int N> using MA = boost::multi_array<double, N>;
static void make(R1& r, const double* x, int nx, const double* d) { MA<1> a; fill1(a, d, nx); r.AddCoord(vec(x, nx)); r.AddVar(a); }
static void make(R2& r, const double* x, int nx, const double* y, int ny, const double* d) { MA<2> a; fill2(a, d, nx, ny); r.AddCoord(vec(x, nx)); r.AddCoord(vec(y, ny)); r.AddVar(a); }
static void make(R3& r, const double* x, int nx, const double* y, int ny, const double* z, int nz, const double* d) {
  MA<3> a; fill3(a, d, nx, ny, nz); r.AddCoord(vec(x, nx)); r.AddCoord(vec(y, ny)); r.AddCoord(vec(z, nz)); r.AddVar(a); }
// op 0: interpolate, 1: with bound check
VP double gi1(int op, const double* x, int nx, const double* d, double p) { R1 r; make(r, x, nx, d); std::array<double, 1> q; q[0] = p; return op ? r.Interp(q, true) : r.Interp(q); }
VP double gi2(int op, const double* x, int nx, const double* y, int ny, const double* d, double p, double q) {
  R2 r; make(r, x, nx, y, ny, d); std::array<double, 2> w; w[0] = p; w[1] = q; return op ? r.Interp(w, true) : r.Interp(w); }
VP double gi3(int op, const double* x, int nx, const double* y, int ny, const double* z, int nz, const double* d, double p, double q, double s) {
  R3 r; make(r, x, nx, y, ny, z, nz, d); std::array<double, 3> w; w[0] = p; w[1] = q; w[2] = s; return op ? r.Interp(w, true) : r.Interp(w); }
// stored values
VP double ga1(const double* x, int nx, const double* d, int i) { R1 r; make(r, x, nx, d); std::array<size_t, 1> k; k[0] = i; return r.EvalAtIndice(k); }
VP double ga2(const double* x, int nx, const double* y, int ny, const double* d, int i, int j) { R2 r; make(r, x, nx, y, ny, d); std::array<size_t, 2> k; k[0] = i; k[1] = j; return r.EvalAtIndice(k); }
VP double ga3(const double* x, int nx, const double* y, int ny, const double* z, int nz, const double* d, int i, int j, int q) {
  R3 r; make(r, x, nx, y, ny, z, nz, d); std::array<size_t, 3> k; k[0] = i; k[1] = j; k[2] = q; return r.EvalAtIndice(k); }
// copies: how 0 constructed, 1 assigned to an empty one, 2 assigned to a filled one; the original is refilled with e and then dropped
VP double gc1(int how, int op, const double* x, int nx, const double* d, const double* e, double p) {
  R1* o = new R1; make(*o, x, nx, d); R1 t;
  if (how == 2) { double z[2] = {0., 1.}; make(t, z, 2, z); }
  R1 c(how == 0 ? *o : t);
  if (how) { c = *o; }
  MA<1> a; fill1(a, e, nx); o->AddVar(a); delete o;
  std::array<double, 1> q; q[0] = p; return op ? c.Interp(q, true) : c.Interp(q); }
VP double gc2(int how, int op, const double* x, int nx, const double* y, int ny, const double* d, const double* e, double p, double q) {
  R2* o = new R2; make(*o, x, nx, y, ny, d); R2 t;
  if (how == 2) { double z[2] = {0., 1.}, w[4] = {1., 2., 3., 4.}; MA<2> b; std::vector<size_t> ex(2); ex[0] = 2; ex[1] = 2; b.resize(ex);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { std::array<size_t, 2> k; k[0] = i; k[1] = j; b(k) = w[2 * i + j]; }
    t.AddCoord(vec(z, 2)); t.AddCoord(vec(z, 2)); t.AddVar(b); }
  R2 c(how == 0 ? *o : t);
  if (how) { c = *o; }
  MA<2> a; fill2(a, e, nx, ny); o->AddVar(a); delete o;
  std::array<double, 2> w; w[0] = p; w[1] = q; return op ? c.Interp(w, true) : c.Interp(w); }
// a copy of an interpolator that has only its coordinates can be completed
VP double gp1(const double* x, int nx, const double* d, double p) {
  R1 o; o.AddCoord(vec(x, nx)); R1 c(o); MA<1> a; fill1(a, d, nx); c.AddVar(a);
  std::array<double, 1> q; q[0] = p; return c.Interp(q); }
VP double gp2(const double* x, int nx, const double* y, int ny, const double* d, double p, double q) {
  R2 o; o.AddCoord(vec(x, nx)); R2 c; c = o; c.AddCoord(vec(y, ny)); MA<2> a; fill2(a, d, nx, ny); c.AddVar(a);
  std::array<double, 2> w; w[0] = p; w[1] = q; return c.Interp(w); }
// getters: 0 min, 1 max, 2 dimension, 3 valid
VP double gg2(int op, int idx, int copy, const double* x, int nx, const double* y, int ny, const double* d) {
  R2 r; if (op == 3 && copy == 2) return r.IsValid(); make(r, x, nx, y, ny, d); R2 t; if (copy) t = r; R2& s = copy ? t : r;
  return op == 0 ? s.GetCoordMinVal(idx) : op == 1 ? s.GetCoordMaxVal(idx) : op == 2 ? (double)s.GetDimension() : (double)s.IsValid(); }
// the same before any values are given
VP double gib2(int op, int idx, int copy, const double* x, int nx, const double* y, int ny) {
  R2 r; r.AddCoord(vec(x, nx)); r.AddCoord(vec(y, ny)); R2 t; if (copy) t = r; R2& s = copy ? t : r;
  return op == 0 ? s.GetCoordMinVal(idx) : op == 1 ? s.GetCoordMaxVal(idx) : (double)s.IsValid(); }
VP int gv2(int idx, int copy, const double* x, int nx, const double* y, int ny, const double* d, double* out, int cap) {
  R2 r; make(r, x, nx, y, ny, d); R2 t; if (copy) t = r;
  return vp_out(copy ? t.GetCoord(idx) : r.GetCoord(idx), out, cap); }
// refusal of a coordinate vector: 0 accepted
VP int gr(const double* x, int nx) { R1 r; r.AddCoord(vec(x, nx)); return 0; }
VP int gr2(const double* x, int nx, const double* y, int ny) { R2 r; r.AddCoord(vec(x, nx)); r.AddCoord(vec(y, ny)); return 0; }
