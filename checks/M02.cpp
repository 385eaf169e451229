// MC-BUILD: san=none
// M02: interval and Taylor-model arithmetic encloses the exact values.
#include <functional>
#include <array>
#include "mc.h"
#include "fcl/math/motion/taylor_model/taylor_matrix.h"
#include "fcl/math/motion/taylor_model/interval_matrix.h"
using mc::fmt; using namespace fcl;
typedef Interval<double> I; typedef TaylorModel<double> T; typedef Vector3<double> V; typedef Matrix3<double> M; typedef IVector3<double> IV; typedef IMatrix3<double> IM; typedef TVector3<double> TV; typedef TMatrix3<double> TM;
static const double E = 1e-12;
static void in(mc::C& c, const std::string& k, const I& r, double x) { double e = E * (1 + std::abs(x)); if (!(r[0] <= x + e && r[1] >= x - e)) c.fail(k, fmt("[%.17g, %.17g] does not hold %.17g", r[0], r[1], x)); }
static void is(mc::C& c, const std::string& k, const I& r, double lo, double hi) { double e = E * (1 + std::abs(lo) + std::abs(hi)); if (!(std::abs(r[0] - lo) <= e && std::abs(r[1] - hi) <= e)) c.fail(k, fmt("[%.17g, %.17g] instead of [%.17g, %.17g]", r[0], r[1], lo, hi)); }
static std::vector<I> pool() { static const double p[] = {-3, -1, -0.5, 0, 0.25, 1, 2}; std::vector<I> r; for (double a : p) for (double b : p) if (a <= b) r.push_back(I(a, b)); return r; }
static std::vector<double> pts(const I& i) { std::vector<double> r = {i[0], i[1], 0.5 * (i[0] + i[1])}; if (i[0] <= 0 && i[1] >= 0) r.push_back(0); return r; }
static std::string is_(const I& i) { return fmt("[%g,%g]", i[0], i[1]); }

static void intervals(mc::C& c) {
  auto P = pool(); I a = P[c.choose((int)P.size())], b = P[c.choose((int)P.size())]; c.context(is_(a) + is_(b)); c.count(0);
  auto hull = [&](std::function<double(double, double)> f) { double lo = 1e300, hi = -1e300; for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) { double v = f(a[x], b[y]); lo = std::min(lo, v); hi = std::max(hi, v); } return std::make_pair(lo, hi); };
  auto two = [&](const char* k, I r, I r2, std::function<double(double, double)> f) { auto h = hull(f); std::string w = is_(a) + " " + k + " " + is_(b); is(c, fmt("interval/%s", k), r, h.first, h.second); is(c, fmt("interval/%s=", k), r2, h.first, h.second); };
  { I x = a; x += b; two("+", a + b, x, [](double p, double q) { return p + q; }); } { I x = a; x -= b; two("-", a - b, x, [](double p, double q) { return p - q; }); } { I x = a; x *= b; two("*", a * b, x, [](double p, double q) { return p * q; }); }
  if (b[0] > 0 || b[1] < 0) { I x = a; x /= b; two("/", a / b, x, [](double p, double q) { return p / q; }); }
  for (double d : {-2.0, -0.5, 0.0, 0.75, 3.0}) { I x = a; x *= d; is(c, "interval/scale", a * d, std::min(a[0] * d, a[1] * d), std::max(a[0] * d, a[1] * d)); is(c, "interval/scale=", x, std::min(a[0] * d, a[1] * d), std::max(a[0] * d, a[1] * d));
    if (a.contains(d) != (d >= a[0] && d <= a[1])) c.fail("interval/contains", fmt("%g in %s", d, is_(a).c_str())); I y = a; y.bound(d); is(c, "interval/bound", y, std::min(a[0], d), std::max(a[1], d)); is(c, "interval/bound", bound(a, d), std::min(a[0], d), std::max(a[1], d)); }
  is(c, "interval/negative", -a, -a[1], -a[0]);
  bool ov = std::max(a[0], b[0]) <= std::min(a[1], b[1]); if (a.overlap(b) != ov) c.fail("interval/overlap", is_(a) + is_(b));
  { I x = a; bool r = x.intersect(b); if (r != ov) c.fail("interval/intersect", is_(a) + is_(b)); if (ov) is(c, "interval/intersect", x, std::max(a[0], b[0]), std::min(a[1], b[1])); else if (!(x == a)) c.fail("interval/intersect", "a failed intersection changed the interval"); }
  { I x = a; x.bound(b); is(c, "interval/join", x, std::min(a[0], b[0]), std::max(a[1], b[1])); is(c, "interval/join", bound(a, b), std::min(a[0], b[0]), std::max(a[1], b[1])); }
  double al = a[0] <= 0 && a[1] >= 0 ? 0 : std::min(std::abs(a[0]), std::abs(a[1])), au = std::max(std::abs(a[0]), std::abs(a[1]));
  if (a.getAbsLower() != al) c.fail("interval/abs-lower", fmt("%s gives %g", is_(a).c_str(), a.getAbsLower())); if (a.getAbsUpper() != au) c.fail("interval/abs-upper", fmt("the largest absolute value of %s is given as %g", is_(a).c_str(), a.getAbsUpper()));
  if (a.center() != 0.5 * (a[0] + a[1]) || a.diameter() != a[1] - a[0]) c.fail("interval/center", is_(a));
}
// vectors and matrices of intervals
static void ivectors(mc::C& c) {
  auto P = pool(); int n = (int)P.size(); int s = c.choose(n), q = c.choose(n), st = c.choose(3); auto at = [&](int k) { return P[(s + k * (2 * st + 1)) % n]; }; auto bt = [&](int k) { return P[(q + k * (3 * st + 2)) % n]; };
  IV a(at(0), at(1), at(2)), b(bt(0), bt(1), bt(2)); IM A(IV(at(0), at(1), at(2)), IV(at(3), at(4), at(5)), IV(at(6), at(7), at(8))), B(IV(bt(0), bt(1), bt(2)), IV(bt(3), bt(4), bt(5)), IV(bt(6), bt(7), bt(8))); c.count(1); c.context(fmt("%d,%d,%d", s, q, st));
  // members: every component from the low, high or middle end, driven by a pattern
  for (int pat = 0; pat < 27; ++pat) {
    auto pick = [&](const I& i, int k) { int d = (pat / (k % 3 == 0 ? 1 : k % 3 == 1 ? 3 : 9) + k / 3) % 3; return d == 0 ? i[0] : d == 1 ? i[1] : 0.5 * (i[0] + i[1]); };
    V x(pick(a[0], 0), pick(a[1], 1), pick(a[2], 2)), y(pick(b[0], 2), pick(b[1], 0), pick(b[2], 1)); M X, Y; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { X(i, j) = pick(A(i, j), i * 3 + j); Y(i, j) = pick(B(i, j), i + j * 3); }
    auto vin = [&](const char* k, const IV& r, const V& v) { for (int i = 0; i < 3; ++i) in(c, k, r[i], v[i]); }; auto min_ = [&](const char* k, const IM& r, const M& v) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) in(c, k, r(i, j), v(i, j)); };
    vin("ivector/+", a + b, x + y); vin("ivector/-", a - b, x - y); { IV t = a; t += b; vin("ivector/+=", t, x + y); } { IV t = a; t -= b; vin("ivector/-=", t, x - y); }
    in(c, "ivector/dot", a.dot(b), x.dot(y)); in(c, "ivector/dot", a.dot(y), x.dot(y)); vin("ivector/cross", a.cross(b), x.cross(y)); vin("ivector/cross", a.cross(y), x.cross(y));
    vin("ivector/bound", bound(a, b), x); vin("ivector/bound", bound(a, b), y); { IV t = a; t.bound(b); vin("ivector/bound", t, x); vin("ivector/bound", t, y); } { IV t = a; t.bound(y); vin("ivector/bound", t, x); vin("ivector/bound", t, y); } vin("ivector/bound", bound(a, y), y);
    min_("imatrix/+", A + B, X + Y); min_("imatrix/-", A - B, X - Y); { IM t = A; t += B; min_("imatrix/+=", t, X + Y); } { IM t = A; t -= B; min_("imatrix/-=", t, X - Y); }
    vin("imatrix/*v", A * y, X * y); vin("imatrix/*v", A * b, X * y); min_("imatrix/*", A * B, X * Y); min_("imatrix/*", A * Y, X * Y); { IM t = A; t *= B; min_("imatrix/*=", t, X * Y); } { IM t = A; t *= Y; min_("imatrix/*=", t, X * Y); }
    for (int i = 0; i < 3; ++i) { vin("imatrix/column", A.getColumn(i), X.col(i)); vin("imatrix/row", A.getRow(i), X.row(i).transpose()); }
    if (pat == 0) { bool ov = true, co = true; for (int i = 0; i < 3; ++i) { if (!a[i].overlap(b[i])) ov = false; if (!(a[i][0] <= b[i][0] && a[i][1] >= b[i][1])) co = false; } if (a.overlap(b) != ov) c.fail("ivector/overlap", "wrong"); if (a.contain(b) != co) c.fail("ivector/contain", "wrong");
      for (int i = 0; i < 3; ++i) { if (a.getLow()[i] != a[i][0] || a.getHigh()[i] != a[i][1]) c.fail("ivector/ends", "wrong"); for (int j = 0; j < 3; ++j) if (A.getLow()(i, j) != A(i, j)[0] || A.getHigh()(i, j) != A(i, j)[1] || A.getColumnLow(j)[i] != A(i, j)[0] || A.getColumnHigh(j)[i] != A(i, j)[1] || A.getRowLow(i)[j] != A(i, j)[0] || A.getRowHigh(i)[j] != A(i, j)[1]) c.fail("imatrix/ends", "wrong"); } }
  }
}
struct F { T t; std::function<double(double)> f; std::string n; };
typedef std::shared_ptr<TimeInterval<double>> TI;
static TI ti(int k) { static const double p[][2] = {{0, 1}, {0.25, 0.75}, {0, 0.5}, {0.5, 2}}; return std::make_shared<TimeInterval<double>>(p[k][0], p[k][1]); }
static int nleaf(bool th) { return th ? 68 : 44; }
static F leaf(int k, const TI& t) {
  static const double w[] = {1, 0.5, 3, -2, 7, 0}, q[] = {0, 0.5, -1, M_PI / 2}; static const double l[][2] = {{1, 0}, {0, 1}, {-0.5, 2}, {2, -3}, {0, 0}};
  F r; if (k < 5) { r.t = T(t); double p = l[k][0], v = l[k][1]; generateTaylorModelForLinearFunc(r.t, p, v); r.f = [=](double x) { return p + v * x; }; r.n = fmt("%g%+gt", p, v); return r; }
  if (k < 8) { static const double cc[3][4] = {{0.5, -1, 2, 0}, {0, 1, -3, 2}, {1, 0, 0, -1}}; const double* x = cc[k - 5]; r.t = T(x[0], x[1], x[2], x[3], I(-0.125, 0.25), t); int z = k; r.f = [=](double s) { double y = x[0] + s * (x[1] + s * (x[2] + s * x[3])); return y + (z == 5 ? -0.125 : z == 6 ? 0.25 : 0.25 * s * 0.5); }; r.n = fmt("p%d", k - 5); return r; }
  k -= 8; if (k >= 48) { k -= 48; double W = 0.1 * (k + 1) * 4, Q = 0.3 * k; r.t = T(t); if (k & 1) { generateTaylorModelForSinFunc(r.t, W, Q); r.f = [=](double x) { return std::sin(W * x + Q); }; } else { generateTaylorModelForCosFunc(r.t, W, Q); r.f = [=](double x) { return std::cos(W * x + Q); }; } r.n = fmt("trig(%gt+%g)", W, Q); return r; }
  double W = w[k / 8 % 6], Q = q[k / 2 % 4]; r.t = T(1, 2, 3, 4, I(5, 6), t); /* whatever was there is replaced */ r.n = fmt("%s(%gt%+g)", k & 1 ? "sin" : "cos", W, Q);
  if (k & 1) { generateTaylorModelForSinFunc(r.t, W, Q); r.f = [=](double x) { return std::sin(W * x + Q); }; } else { generateTaylorModelForCosFunc(r.t, W, Q); r.f = [=](double x) { return std::cos(W * x + Q); }; }
  return r;
}
static void judge(mc::C& c, const std::string& k, const T& m, const std::function<double(double)>& f, const TI& t, const std::string& n, bool poly = false) {
  double a = t->t_[0], b = t->t_[1]; I g = m.getBound(), tg = m.getTightBound(), g2 = m.getBound(a, b); double mid = a + 0.3 * (b - a), up = a + 0.8 * (b - a); I s = m.getBound(mid, up), ts = m.getTightBound(mid, up);
  c.context(n);
  for (int i = 0; i <= 24; ++i) { double x = a + (b - a) * i / 24, v = f(x); in(c, k + "/point", m.getBound(x), v); in(c, k + "/bound", g, v); in(c, k + "/bound-interval", g2, v); in(c, k + "/tight", tg, v); if (x >= mid && x <= up) { in(c, k + "/bound-interval", s, v); in(c, k + "/tight-interval", ts, v); } }
  // the tight bound is the exact range of the polynomial plus the remainder
  double lo = 1e300, hi = -1e300; for (int i = 0; i <= 400; ++i) { double x = a + (b - a) * i / 400, v = m.coeff(0) + x * (m.coeff(1) + x * (m.coeff(2) + x * m.coeff(3))); lo = std::min(lo, v); hi = std::max(hi, v); }
  double e = 1e-4 * (1 + hi - lo); if (!(tg[0] > lo + m.remainder()[0] - e && tg[1] < hi + m.remainder()[1] + e)) c.fail(k + "/loose", fmt("tight bound [%.9g, %.9g] of a range [%.9g, %.9g] with remainder [%.3g, %.3g]", tg[0], tg[1], lo, hi, m.remainder()[0], m.remainder()[1]));
  (void)poly;
}
static F bin(int op, const F& a, const F& b) {
  F r; auto f = a.f, g = b.f; 
  if (op == 0) { r.t = a.t + b.t; r.f = [=](double x) { return f(x) + g(x); }; r.n = "(" + a.n + "+" + b.n + ")"; } else if (op == 1) { r.t = a.t - b.t; r.f = [=](double x) { return f(x) - g(x); }; r.n = "(" + a.n + "-" + b.n + ")"; } else if (op == 2) { r.t = a.t * b.t; r.f = [=](double x) { return f(x) * g(x); }; r.n = "(" + a.n + "*" + b.n + ")"; }
  else if (op == 3) { r.t = a.t; r.t += b.t; r.f = [=](double x) { return f(x) + g(x); }; r.n = "(" + a.n + "+=" + b.n + ")"; } else if (op == 4) { r.t = a.t; r.t -= b.t; r.f = [=](double x) { return f(x) - g(x); }; r.n = "(" + a.n + "-=" + b.n + ")"; } else { r.t = a.t; r.t *= b.t; r.f = [=](double x) { return f(x) * g(x); }; r.n = "(" + a.n + "*=" + b.n + ")"; }
  return r;
}
static const char* OPN[] = {"+", "-", "*", "+=", "-=", "*="};
static void taylor(mc::C& c) {
  bool th = c.thorough(); TI t = ti(c.choose(4)); int n = nleaf(th); F a = leaf(c.choose(n), t); c.count(2);
  int op = c.choose(9);
  if (op == 8) { judge(c, "taylor/leaf", a.t, a.f, t, a.n); return; }
  if (op == 7 || op == 6) { auto f = a.f; for (double d : {-2.0, 0.5, 0.0}) {
      if (op == 6) { judge(c, "taylor/scale", a.t * d, [=](double x) { return f(x) * d; }, t, a.n); judge(c, "taylor/scale", d * a.t, [=](double x) { return f(x) * d; }, t, a.n); T u = a.t; u *= d; judge(c, "taylor/scale=", u, [=](double x) { return f(x) * d; }, t, a.n); judge(c, "taylor/negative", -a.t, [=](double x) { return -f(x); }, t, a.n); }
      else { judge(c, "taylor/shift", a.t + d, [=](double x) { return f(x) + d; }, t, a.n); judge(c, "taylor/shift", d + a.t, [=](double x) { return f(x) + d; }, t, a.n); judge(c, "taylor/shift", a.t - d, [=](double x) { return f(x) - d; }, t, a.n); judge(c, "taylor/shift", d - a.t, [=](double x) { return d - f(x); }, t, a.n); T u = a.t; u += d; judge(c, "taylor/shift=", u, [=](double x) { return f(x) + d; }, t, a.n); u = a.t; u -= d; judge(c, "taylor/shift=", u, [=](double x) { return f(x) - d; }, t, a.n); } }
    return; }
  F b = leaf(c.choose(n), t); F r = bin(op, a, b); c.state(mc::hbits(r.t.coeff(0)) ^ mc::hbits(r.t.coeff(3))); judge(c, fmt("taylor/%s", OPN[op]), r.t, r.f, t, r.n);
  if (c.flag()) { int m = th ? 24 : 8; F d = leaf(c.choose(m) * (n / m), t); int o2 = c.choose(3); F q = bin(o2, r, d); judge(c, fmt("taylor/nested%s", OPN[o2]), q.t, q.f, t, q.n); }
}
// vectors and matrices of Taylor models
struct FV { TV t; std::array<std::function<double(double)>, 3> f; }; struct FM { TM t; std::array<std::function<double(double)>, 9> f; };
static void tvectors(mc::C& c) {
  bool th = c.thorough(); TI t = ti(c.choose(3)); int n = nleaf(false); int s = c.choose(n), q = c.choose(th ? n : n / 4), st = c.choose(2) ? 5 : 3; c.count(3); c.context(fmt("s%d q%d st%d", s, q, st));
  auto at = [&](int k) { return leaf((s + k * st) % n, t); }; auto bt = [&](int k) { return leaf((q * 4 + k * (st + 4) + 1) % n, t); };
  std::vector<F> x, y; for (int i = 0; i < 9; ++i) { x.push_back(at(i)); y.push_back(bt(i)); }
  TV a(x[0].t, x[1].t, x[2].t), b(y[0].t, y[1].t, y[2].t); TM A(TV(x[0].t, x[1].t, x[2].t), TV(x[3].t, x[4].t, x[5].t), TV(x[6].t, x[7].t, x[8].t)), B(TV(y[0].t, y[1].t, y[2].t), TV(y[3].t, y[4].t, y[5].t), TV(y[6].t, y[7].t, y[8].t)); T sc = y[4].t;
  V v(0.5, -2, 0.25); M K; K << 1, -0.5, 0, 2, 0.25, -1, 0.75, 0, -3;
  struct RV { const char* k; TV r; std::function<V(const V&, const V&, const M&, const M&, double)> f; }; struct RM { const char* k; TM r; std::function<M(const M&, const M&, double)> f; };
  auto as = [](auto x, auto g) { g(x); return x; };
#define VF [=](const V& x, const V& y, const M& X, const M& Y, double z) -> V
#define MF [=](const M& X, const M& Y, double z) -> M
  int part = c.choose(2);
  if (part == 0) {
    std::vector<RV> rv = {{"tvector/+", a + b, VF{ return x + y; }}, {"tvector/-", a - b, VF{ return x - y; }}, {"tvector/+v", a + v, VF{ return x + v; }}, {"tvector/-v", a - v, VF{ return x - v; }}, {"tvector/v+", v + a, VF{ return x + v; }}, {"tvector/v-", v - a, VF{ return v - x; }}, {"tvector/negative", -a, VF{ return -x; }},
      {"tvector/*", a * sc, VF{ return x * z; }}, {"tvector/*d", a * -1.5, VF{ return x * -1.5; }}, {"tvector/v*", v * sc, VF{ return v * z; }}, {"tvector/cross", a.cross(b), VF{ return x.cross(y); }}, {"tvector/crossv", a.cross(v), VF{ return x.cross(v); }},
      {"tvector/+=", as(a, [&](TV& u) { u += b; }), VF{ return x + y; }}, {"tvector/-=", as(a, [&](TV& u) { u -= b; }), VF{ return x - y; }}, {"tvector/+=v", as(a, [&](TV& u) { u += v; }), VF{ return x + v; }}, {"tvector/-=v", as(a, [&](TV& u) { u -= v; }), VF{ return x - v; }}, {"tvector/*=", as(a, [&](TV& u) { u *= sc; }), VF{ return x * z; }}, {"tvector/*=d", as(a, [&](TV& u) { u *= 2.5; }), VF{ return x * 2.5; }},
      {"tmatrix/*v", A * v, VF{ return X * v; }}, {"tmatrix/*tv", A * b, VF{ return X * y; }}, {"tmatrix/row", A.getRow(1), VF{ return X.row(1).transpose(); }}, {"tmatrix/column", A.getColumn(2), VF{ return X.col(2); }}};
    for (auto& r : rv) { IV g = r.r.getBound(), tg = r.r.getTightBound(), g2 = r.r.getBound(t->t_[0], t->t_[1]), t2 = r.r.getTightBound(t->t_[0], t->t_[1]);
      for (int i = 0; i <= 8; ++i) { double u = t->t_[0] + (t->t_[1] - t->t_[0]) * i / 8; M X, Y; for (int p = 0; p < 9; ++p) { X(p / 3, p % 3) = x[p].f(u); Y(p / 3, p % 3) = y[p].f(u); } V want = r.f(X.row(0).transpose(), Y.row(0).transpose(), X, Y, y[4].f(u)); IV pt = r.r.getBound(u); for (int p = 0; p < 3; ++p) { in(c, std::string(r.k) + "/point", pt[p], want[p]); in(c, std::string(r.k) + "/bound", g[p], want[p]); in(c, std::string(r.k) + "/tight", tg[p], want[p]); in(c, std::string(r.k) + "/bound-interval", g2[p], want[p]); in(c, std::string(r.k) + "/tight-interval", t2[p], want[p]); } } }
    for (int i = 0; i <= 8; ++i) { double u = t->t_[0] + (t->t_[1] - t->t_[0]) * i / 8; V X(x[0].f(u), x[1].f(u), x[2].f(u)), Y(y[0].f(u), y[1].f(u), y[2].f(u)); in(c, "tvector/dot", a.dot(b).getBound(u), X.dot(Y)); in(c, "tvector/dotv", a.dot(v).getBound(u), X.dot(v)); in(c, "tvector/square", a.squareLength().getBound(u), X.dot(X)); }
    { TV z = a; z.setZero(); I g = z[1].getBound(); is(c, "tvector/zero", g, 0, 0); TV lin(t); generateTVector3ForLinearFunc(lin, v, V(1, -2, 3)); for (double u : {t->t_[0], t->t_[1]}) for (int p = 0; p < 3; ++p) in(c, "tvector/linear", lin.getBound(u)[p], v[p] + u * V(1, -2, 3)[p]); TV k(v, t); for (int p = 0; p < 3; ++p) is(c, "tvector/constant", k.getBound()[p], v[p], v[p]); }
  } else {
    TM KT(K, t);
    std::vector<RM> rm = {{"tmatrix/+", A + B, MF{ return X + Y; }}, {"tmatrix/-", A - B, MF{ return X - Y; }}, {"tmatrix/*", A * B, MF{ return X * Y; }}, {"tmatrix/*m", A * K, MF{ return X * K; }}, {"tmatrix/*t", A * sc, MF{ return X * z; }}, {"tmatrix/t*", sc * A, MF{ return X * z; }}, {"tmatrix/*d", A * -0.5, MF{ return X * -0.5; }}, {"tmatrix/d*", 3.0 * A, MF{ return X * 3; }}, {"tmatrix/m*t", K * sc, MF{ return K * z; }}, {"tmatrix/t*m", sc * K, MF{ return K * z; }},
      {"tmatrix/+m", A + K, MF{ return X + K; }}, {"tmatrix/-m", A - K, MF{ return X - K; }}, {"tmatrix/m+", K + A, MF{ return X + K; }}, {"tmatrix/m-", K - A, MF{ return K - X; }}, {"tmatrix/negative", -A, MF{ return -X; }}, {"tmatrix/constant", KT, MF{ return K; }}, {"tmatrix/identity", as(A, [&](TM& u) { u.setIdentity(); }), MF{ return M::Identity(); }}, {"tmatrix/zero", as(A, [&](TM& u) { u.setZero(); }), MF{ return M::Zero(); }},
      {"tmatrix/+=", as(A, [&](TM& u) { u += B; }), MF{ return X + Y; }}, {"tmatrix/-=", as(A, [&](TM& u) { u -= B; }), MF{ return X - Y; }}, {"tmatrix/*=", as(A, [&](TM& u) { u *= B; }), MF{ return X * Y; }}, {"tmatrix/*=m", as(A, [&](TM& u) { u *= K; }), MF{ return X * K; }}, {"tmatrix/*=t", as(A, [&](TM& u) { u *= sc; }), MF{ return X * z; }}, {"tmatrix/*=d", as(A, [&](TM& u) { u *= -2.0; }), MF{ return X * -2; }}, {"tmatrix/+=m", as(A, [&](TM& u) { u += K; }), MF{ return X + K; }}, {"tmatrix/-=m", as(A, [&](TM& u) { u -= K; }), MF{ return X - K; }}};
    for (auto& r : rm) { IM g = r.r.getBound(), tg = r.r.getTightBound(), g2 = r.r.getBound(t->t_[0], t->t_[1]), t2 = r.r.getTightBound(t->t_[0], t->t_[1]);
      for (int i = 0; i <= 8; ++i) { double u = t->t_[0] + (t->t_[1] - t->t_[0]) * i / 8; M X, Y; for (int p = 0; p < 9; ++p) { X(p / 3, p % 3) = x[p].f(u); Y(p / 3, p % 3) = y[p].f(u); } M want = r.f(X, Y, y[4].f(u)); IM pt = r.r.getBound(u); for (int p = 0; p < 9; ++p) { int k = p / 3, l = p % 3; in(c, std::string(r.k) + "/point", pt(k, l), want(k, l)); in(c, std::string(r.k) + "/bound", g(k, l), want(k, l)); in(c, std::string(r.k) + "/tight", tg(k, l), want(k, l)); in(c, std::string(r.k) + "/bound-interval", g2(k, l), want(k, l)); in(c, std::string(r.k) + "/tight-interval", t2(k, l), want(k, l)); } } }
  }
}
static void body(mc::C& c) { switch (c.choose(4)) { case 0: intervals(c); break; case 1: ivectors(c); break; case 2: taylor(c); break; default: tvectors(c); } }
int main(int argc, char** argv) {
  mc::Spec s; s.property = "M02"; s.body = body; s.shard_depth = 3;
  s.explanation = "every pair of intervals over 7 end points and every interval operation (results must be the exact hull); vectors and matrices of such intervals against 27 member patterns; every expression of one or two operations over a pool of Taylor models (constants, lines, polynomials with remainder, sines and cosines over many frequencies and phases) on 4 time intervals, and all vector and matrix operations: the exact function values at 25 instants must lie in the point, interval and tight bounds, and the tight bound must be tight";
  s.assumptions = {"time intervals do not contain negative times", "enclosure is judged up to 1e-12 relative: the library does not round outwards"};
  s.counter_names = {"interval_pairs", "interval_vectors", "taylor_expressions", "taylor_vectors"};
  return mc::run(argc, argv, s);
}
