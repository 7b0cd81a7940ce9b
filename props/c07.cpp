#include "vp.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using T1 = LookupTable1D<double, double>;
using T2 = LookupTable2d<double>;
static INTERP_METHOD meth(int m) { return m == 0 ? LINEAR : m == 1 ? LINEAR_EXTRAPOLATE : LINEAR_SATURATE; }
static std::string nm(int k) { return k == 0 ? "alpha" : k == 1 ? "alph" : k == 2 ? "" : k == 3 ? "Alpha" : "alpha "; }
static std::vector<double> vec(const double* x, int n) { return std::vector<double>(x, x + n); }
struct S1 { T1* t; int code; };
// mv 1: move construction after the add, 2: move assignment to an empty table of another method, 3: to a filled one
static void move_(S1& s, int mv, int m) {
  if (mv == 1) { T1* u = new T1(std::move(*s.t)); delete s.t; s.t = u; }
  if (mv == 2 || mv == 3) {
    T1* u = new T1(meth(m == 2 ? 0 : 2));
    if (mv == 3) { double z[2] = {0., 1.}, w[2] = {5., 7.}; u->SetX(vec(z, 2)); u->AddY(nm(4), vec(w, 2)); u->AddY(nm(1), vec(z, 2)); }
    *u = std::move(*s.t); delete s.t; s.t = u; }
}
static void build(S1& s, int m, int a, int b, int c, int ma, int mb, int mc, const double* x, int n, const double* y, const double* z, const double* w) {
  s.t = new T1(meth(m)); s.code = 0; s.t->SetX(vec(x, n));
  if (a >= 0) { if (s.t->AddY(nm(a), vec(y, n))) s.code += 1; } move_(s, ma, m);
  if (b >= 0) { if (s.t->AddY(nm(b), vec(z, n))) s.code += 2; } move_(s, mb, m);
  if (c >= 0) { if (s.t->AddY(nm(c), vec(w, n))) s.code += 4; } move_(s, mc, m);
}
#define H int m, int a, int b, int c, int ma, int mb, int mc, const double *x, int n, const double *y, const double *z, const double *w
// op 0 value, 1 least abscissa, 2 greatest, 3 the value among all series
VP double l1(int op, int ask, double q, H) {
  S1 s; build(s, m, a, b, c, ma, mb, mc, x, n, y, z, w);
  double r = op == 0 ? s.t->Eval(nm(ask), q) : op == 1 ? s.t->GetXmin(nm(ask)) : op == 2 ? s.t->GetXmax(nm(ask)) : s.t->Eval<double, double>(q).at(nm(ask));
  delete s.t; return r; }
// counts: 0 what the additions returned, 1 number of series, 2 number of samples, 3 number of answers for all series
VP int l1n(int op, double q, H) {
  S1 s; build(s, m, a, b, c, ma, mb, mc, x, n, y, z, w);
  int r = op == 0 ? s.code : op == 1 ? (int)s.t->GetNbSeries() : op == 2 ? (int)s.t->GetNbSample() : (int)s.t->Eval<double, double>(q).size();
  delete s.t; return r; }
VP int l1v(int op, int ask, const double* q, int k, double* out, int cap, H) {
  S1 s; build(s, m, a, b, c, ma, mb, mc, x, n, y, z, w);
  int r = vp_out(op == 0 ? s.t->Eval(nm(ask), vec(q, k)) : s.t->GetX(), out, cap); delete s.t; return r; }
// 2D (its tables cannot be moved)
struct S2 { T2* t; int code; };
static void build(S2& s, int a, int b, int c, const double* x, int nx, const double* y, int ny, const double* d, const double* e, const double* f) {
  s.t = new T2; s.code = 0; s.t->SetInterpolationMethod(LINEAR); s.t->SetX(vec(x, nx)); s.t->SetY(vec(y, ny));
  if (a >= 0) { if (s.t->AddData(nm(a), vec(d, nx * ny))) s.code += 1; } 
  if (b >= 0) { if (s.t->AddData(nm(b), vec(e, nx * ny))) s.code += 2; }
  if (c >= 0) { if (s.t->AddData(nm(c), vec(f, nx * ny))) s.code += 4; }
}
#define H2 int a, int b, int c, const double *x, int nx, const double *y, int ny, const double *d, const double *e, const double *f
// op 0 at (p, q), 1 at {p, q}, 2 at a list of one point
VP double l2(int op, int ask, double p, double q, H2) {
  S2 s; build(s, a, b, c, x, nx, y, ny, d, e, f);
  std::vector<double> w(2); w[0] = p; w[1] = q; std::vector<std::vector<double>> v; v.push_back(w);
  double r = op == 0 ? s.t->Eval(nm(ask), p, q) : op == 1 ? s.t->Eval(nm(ask), w) : s.t->Eval(nm(ask), v)[0];
  delete s.t; return r; }
// 0 what the additions returned, 1 number of series, 2 number of samples, 3 membership
VP int l2n(int op, int ask, H2) {
  S2 s; build(s, a, b, c, x, nx, y, ny, d, e, f);
  int r = op == 0 ? s.code : op == 1 ? (int)s.t->GetNbSeries() : op == 2 ? (int)s.t->GetNbSample() : (int)s.t->HasSerie(nm(ask));
  delete s.t; return r; }
VP int l2v(int op, double* out, int cap, H2) {
  S2 s; build(s, a, b, c, x, nx, y, ny, d, e, f);
  int r = vp_out(op == 0 ? s.t->GetX() : s.t->GetY(), out, cap); delete s.t; return r; }
