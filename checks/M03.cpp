// MC-BUILD: san=none
// M03: polynomial roots, projections onto simplices, eigen-decompositions and frames.
#include <algorithm>
#include <set>
#include "mc.h"
#include "fcl/math/detail/polysolver.h"
#include "fcl/math/detail/project.h"
#include "fcl/math/geometry.h"
#include "fcl/math/variance3.h"
using mc::fmt; using namespace fcl; typedef Vector3<double> V; typedef Matrix3<double> M; typedef detail::PolySolver<double> PS; typedef detail::Project<double> PR;
static double eval(const double* c, int deg, double x) { double r = 0; for (int i = deg; i >= 0; --i) r = r * x + c[i]; return r; }
static void polys(mc::C& c) {
  bool th = c.thorough(); static const double R[] = {-3, -2, -1.25, -1, -0.5, 0, 0.25, 0.5, 1, 1.75, 2, 3, 7}; int n = th ? 13 : 12; static const double L[] = {1, -2, 0.5, 3, -0.25, 10}; double lead = L[c.choose(6)];
  int kind = c.choose(6); double co[4] = {0, 0, 0, 0}, s[3] = {99, 99, 99}; std::vector<double> want; int got = 0, deg = 0; c.count(0);
  auto root = [&]() { return R[c.choose(n)]; };
  if (kind == 0) { double a = root(); co[0] = -lead * a; co[1] = lead; deg = 1; want = {a}; got = PS::solveLinear(co, s); }
  else if (kind == 1) { double a = root(), b = root(); co[0] = lead * a * b; co[1] = -lead * (a + b); co[2] = lead; deg = 2; want = {a, b}; got = PS::solveQuadric(co, s); }
  else if (kind == 2) { double a = root(), b = root(), d = root(); co[0] = -lead * a * b * d; co[1] = lead * (a * b + a * d + b * d); co[2] = -lead * (a + b + d); co[3] = lead; deg = 3; want = {a, b, d}; got = PS::solveCubic(co, s); }
  else if (kind == 3) { static const double IM[] = {0.25, 1, 3}; double a = root(), re = root(), im = IM[c.choose(3)], q = re * re + im * im; co[0] = -lead * a * q; co[1] = lead * (q + 2 * re * a); co[2] = -lead * (a + 2 * re); co[3] = lead; deg = 3; want = {a}; got = PS::solveCubic(co, s); }
  else if (kind == 4) { static const double IM[] = {0.25, 1, 3}; double re = root(), im = IM[c.choose(3)]; co[0] = lead * (re * re + im * im); co[1] = -2 * lead * re; co[2] = lead; deg = 2; got = c.flag() ? PS::solveQuadric(co, s) : PS::solveCubic(co, s); }
  else { int d = c.choose(3); double a = root(), b = root(); if (d == 0) { co[0] = lead; got = PS::solveCubic(co, s); } else if (d == 1) { co[0] = -lead * a; co[1] = lead; want = {a}; deg = 1; got = c.flag() ? PS::solveCubic(co, s) : PS::solveQuadric(co, s); } else { co[0] = lead * a * b; co[1] = -lead * (a + b); co[2] = lead; deg = 2; want = {a, b}; got = PS::solveCubic(co, s); } }
  std::string p = fmt("%g%+gx%+gx^2%+gx^3", co[0], co[1], co[2], co[3]); c.context(p); c.state(mc::hbits(co[0]) ^ mc::hbits(co[1]) * 3 ^ mc::hbits(co[2]) * 5 ^ mc::hbits(co[3]) * 7);
  if (got < 0 || got > 3) c.fail("poly/count", fmt("%d roots", got));
  std::set<double> u(want.begin(), want.end()); const double tol = 2e-4;
  for (double w : u) { bool f = false; for (int i = 0; i < got; ++i) if (std::abs(s[i] - w) < tol) f = true; if (!f) c.fail(fmt("poly/missing/deg%d", deg), fmt("the root %g of %s is not found (%d roots: %.9g %.9g %.9g)", w, p.c_str(), got, s[0], s[1], s[2])); }
  for (int i = 0; i < got; ++i) { bool f = false; for (double w : u) if (std::abs(s[i] - w) < tol) f = true; if (!f) c.fail(fmt("poly/spurious/deg%d", deg), fmt("%.9g is given as a root of %s", s[i], p.c_str())); }
  (void)eval;
}
// exact squared distance to a simplex by enumeration of its faces
static double dist2(const std::vector<V>& v, const V& p) {
  double best = 1e300; int n = (int)v.size();
  for (int m = 1; m < (1 << n); ++m) { std::vector<V> q; for (int i = 0; i < n; ++i) if (m >> i & 1) q.push_back(v[i]); int k = (int)q.size() - 1;
    if (k == 0) { best = std::min(best, (q[0] - p).squaredNorm()); continue; }
    Eigen::MatrixXd A(3, k); for (int i = 0; i < k; ++i) A.col(i) = q[i + 1] - q[0]; Eigen::MatrixXd G = A.transpose() * A; Eigen::VectorXd x = G.ldlt().solve(A.transpose() * (p - q[0])); if (G.determinant() < 1e-9) continue; double s = x.sum(); bool in = s <= 1 + 1e-12; for (int i = 0; i < k; ++i) if (x[i] < -1e-12) in = false; if (in) best = std::min(best, (q[0] + A * x - p).squaredNorm()); }
  return best;
}
static std::vector<V> grid(bool big) { std::vector<V> g; for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if (big || (std::abs(x) + std::abs(y) + std::abs(z)) != 2) g.push_back(V(x, y, z)); return g; }
static std::vector<V> targets(bool th) { std::vector<V> r = {V(0, 0, 0), V(0.5, 0, 0), V(0.25, 0.25, 0.25), V(-0.4, 0.7, 0.1), V(3, 0, 0), V(0, -2, 0.5), V(2, 2, 2), V(-1.5, 0.25, -2), V(0.1, 0.2, 5), V(1, 1, 1), V(-1, 0, 0)}; if (th) for (int i = 0; i < 27; ++i) r.push_back(V(i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1) * 1.7 + V(0.3, -0.2, 0.1)); return r; }
static void judge(mc::C& c, const std::string& k, const PR::ProjectResult& r, const std::vector<V>& v, const V& p) {
  double want = dist2(v, p), s = 0; V q = V::Zero(); for (size_t i = 0; i < v.size(); ++i) { double t = r.parameterization[i]; if (!(t >= -1e-9 && t <= 1 + 1e-9)) c.fail(k + "/parameter", fmt("parameter %zu is %g", i, t)); if (std::abs(t) > 1e-9 && !(r.encode >> i & 1)) c.fail(k + "/encode", fmt("code %u but parameter %zu is %g", r.encode, i, t)); s += t; q += t * v[i]; }
  if (r.encode == 0 || r.encode >= (1u << v.size())) c.fail(k + "/encode", fmt("code %u", r.encode));
  if (!(std::abs(s - 1) < 1e-9)) c.fail(k + "/sum", fmt("the parameters add up to %g", s)); if (!(std::abs(r.sqr_distance - want) < 1e-9 * (1 + want))) c.fail(k + "/distance", fmt("squared distance %.12g instead of %.12g", r.sqr_distance, want)); if (!(std::abs((q - p).squaredNorm() - want) < 1e-7 * (1 + want))) c.fail(k + "/point", fmt("the parameters give a point at squared distance %.12g instead of %.12g", (q - p).squaredNorm(), want));
}
static void project(mc::C& c) {
  bool th = c.thorough(); auto g = grid(th), gp = targets(th); int n = (int)g.size(); int kind = c.choose(3); V a = g[c.choose(n)], b = g[c.choose(n)]; c.count(1);
  auto sc = [&](V x) { return V(x[0] * 1.0 + 0.1 * x[1], x[1] * 0.8 - 0.2 * x[2], x[2] * 1.3); }; bool skew = c.flag(); auto T = [&](const V& x) { return skew ? sc(x) : x; };
  if (kind == 0) { if (a == b) { c.prune(); return; } std::vector<V> v = {T(a), T(b)}; for (auto& p : gp) { judge(c, "project-line", PR::projectLine(v[0], v[1], p), v, p); V x = v[0] - p, y = v[1] - p; judge(c, "project-line-origin", PR::projectLineOrigin(x, y), {x, y}, V::Zero()); } return; }
  V d = g[c.choose(n)]; V nn = (b - a).cross(d - a); if (nn.squaredNorm() < 1e-9) { c.prune(); return; }
  if (kind == 1) { std::vector<V> v = {T(a), T(b), T(d)}; for (auto& p : gp) { judge(c, "project-triangle", PR::projectTriangle(v[0], v[1], v[2], p), v, p); V x = v[0] - p, y = v[1] - p, z = v[2] - p; judge(c, "project-triangle-origin", PR::projectTriangleOrigin(x, y, z), {x, y, z}, V::Zero()); } return; }
  V e = g[c.choose(n)]; if (std::abs(nn.dot(e - a)) < 1e-9) { c.prune(); return; } std::vector<V> v = {T(a), T(b), T(d), T(e)}; V N = (v[1] - v[0]).cross(v[2] - v[0]); double side = N.dot(v[3] - v[0]);
  for (auto& p : gp) { if (N.dot(p - v[0]) * side <= 1e-12) continue; // the projection assumes that the last vertex lies on the side of the point
    judge(c, "project-tetrahedron", PR::projectTetrahedra(v[0], v[1], v[2], v[3], p), v, p); std::vector<V> w; for (auto& x : v) w.push_back(x - p); judge(c, "project-tetrahedron-origin", PR::projectTetrahedraOrigin(w[0], w[1], w[2], w[3]), w, V::Zero()); }
}
static void eigens(mc::C& c) {
  static const double EV[] = {0, 1e-3, 0.5, 1, 1, 2, 10}; bool th = c.thorough(); int nq = th ? 3 : 2; int q[4]; for (int i = 0; i < 4; ++i) q[i] = c.choose(2 * nq + 1) - nq; if (!(q[0] || q[1] || q[2] || q[3])) { c.prune(); return; }
  M R = Eigen::Quaterniond(q[0], q[1], q[2], q[3]).normalized().toRotationMatrix(); c.count(2); c.context(fmt("q %d %d %d %d", q[0], q[1], q[2], q[3]));
  for (int i = 0; i < 7; ++i) for (int j = 0; j < 7; ++j) for (int k = 0; k < 7; ++k) { V ev(EV[i], EV[j], EV[k]); M S = R * ev.asDiagonal() * R.transpose(); S = (0.5 * (S + S.transpose())).eval(); std::vector<double> w = {ev[0], ev[1], ev[2]}; std::sort(w.begin(), w.end());
      auto spectrum = [&](const char* n, const V& d) { std::vector<double> x = {d[0], d[1], d[2]}; std::sort(x.begin(), x.end()); for (int t = 0; t < 3; ++t) if (!(std::abs(x[t] - w[t]) < 1e-9 * (1 + w[2]))) c.fail(std::string(n) + "/values", fmt("eigenvalue %g instead of %g", x[t], w[t])); };
      auto vectors = [&](const char* n, const V& d, const M& A) { for (int t = 0; t < 3; ++t) { if (!((S * A.col(t) - d[t] * A.col(t)).norm() < 1e-8 * (1 + w[2]))) c.fail(std::string(n) + "/vectors", fmt("axis %d is no eigenvector for %g", t, d[t])); } if (!((A.transpose() * A - M::Identity()).norm() < 1e-9)) c.fail(std::string(n) + "/orthonormal", "the axes are not orthonormal"); };
      V d; M A; eigen(S, d, A); spectrum("eigen", d); vectors("eigen", d, A);
      V d2; M A2; eigen_old(S, d2, A2); spectrum("eigen_old", d2); // its rows are the eigenvectors, which axisFromEigen() relies on
      M ax; axisFromEigen(A2, d2, ax); V so(ax.col(0).dot(S * ax.col(0)), ax.col(1).dot(S * ax.col(1)), ax.col(2).dot(S * ax.col(2))); vectors("axisFromEigen", so, ax); if (!(so[0] >= so[1] - 1e-9 * (1 + w[2]) && so[1] >= so[2] - 1e-9 * (1 + w[2]))) c.fail("axisFromEigen/order", fmt("variances %g %g %g", so[0], so[1], so[2])); if (!(ax.determinant() > 0.999)) c.fail("axisFromEigen/handed", "the axes are not right-handed");
      Variance3<double> v(S); spectrum("variance", v.sigma); vectors("variance", v.sigma, v.axis); Variance3<double> h(S); h.sqrt(); if (!((h.Sigma * h.Sigma - S).norm() < 1e-7 * (1 + w[2]))) c.fail("variance/sqrt", "the square of the root is not the matrix"); }
}
static void frames(mc::C& c) {
  static const double X[] = {0, 1, -1, 0.5, -3, 1e-5, 1e-9, 1e4}; V v(X[c.choose(8)], X[c.choose(8)], X[c.choose(8)]), w(X[c.choose(8)], X[7 - c.choose(8)], 0.5); c.count(3); c.context(fmt("v %g %g %g", v[0], v[1], v[2]));
  if (v.norm() > 0) { M A = generateCoordinateSystem(v); if (!((A.col(0) - v / v.norm()).norm() < 1e-9)) c.fail("frame/x", "the first axis is not the given direction"); if (!((A.transpose() * A - M::Identity()).norm() < 1e-9) || A.determinant() < 0.999) c.fail("frame/orthonormal", "not a right-handed frame"); }
  M H; hat(H, v); if ((H * w - v.cross(w)).norm() > 1e-9 * (1 + v.norm() * w.norm())) c.fail("hat", "is not the cross product"); V z(0.25, -1, 2); double t = triple(v, w, z); if (std::abs(t - v.cross(w).dot(z)) > 1e-9 * (1 + v.norm() * w.norm())) c.fail("triple", "is not the mixed product");
  bool sig = false; V u = v; normalize(u, &sig); if (v.norm() > 0 ? !(sig && std::abs(u.norm() - 1) < 1e-9 && u.dot(v) > 0) : (sig || u != v)) c.fail("normalize", fmt("length %g, flag %d", u.norm(), (int)sig));
  M R1 = Eigen::Quaterniond(1, X[c.choose(5)], 0.5, X[c.choose(5)]).normalized().toRotationMatrix(), R2 = Eigen::Quaterniond(0.25, 1, -0.5, 2).normalized().toRotationMatrix(), R; V T; relativeTransform(R1, v, R2, w, R, T); V p(0.3, -0.7, 1.1); if ((R1 * (R * p + T) + v - (R2 * p + w)).norm() > 1e-9 * (1 + v.norm() + w.norm())) c.fail("relative", "the relative transform is wrong");
  Transform3<double> t1 = Transform3<double>::Identity(), t2 = t1; t1.linear() = R1; t1.translation() = v; t2.linear() = R2; t2.translation() = w; relativeTransform(t1, t2, R, T); if ((R1 * (R * p + T) + v - (R2 * p + w)).norm() > 1e-9 * (1 + v.norm() + w.norm())) c.fail("relative", "the relative transform is wrong");
}
static void body(mc::C& c) { switch (c.choose(4)) { case 0: polys(c); break; case 1: project(c); break; case 2: eigens(c); break; default: frames(c); } }
int main(int argc, char** argv) {
  mc::Spec s; s.property = "M03"; s.body = body; s.shard_depth = 3;
  s.explanation = "all polynomials up to degree three with roots from a pool (repeated, zero and complex pairs included) and several leading coefficients; all segments, triangles and tetrahedra over a vertex grid, straight and skewed, against a pool of points; all small-integer-quaternion frames with all triples of a pool of eigenvalues; frames of all directions over a pool of coordinates: compared with exact values from independent enumeration";
  s.assumptions = {"distinct roots are at least 0.25 apart", "simplices are not degenerate; the point projected onto a tetrahedron lies on the side of its last vertex, as the code states"};
  s.counter_names = {"polynomials", "simplices", "frames", "vectors"};
  return mc::run(argc, argv, s);
}
