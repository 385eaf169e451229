// convex.h - an independent oracle for convex bodies: support functions, two-sided
// distance bounds (min-norm point of the Minkowski difference by exhaustive sub-simplex
// enumeration), separation along a direction.  Shares no code with FCL.
#ifndef VERIF_CONVEX_H
#define VERIF_CONVEX_H
#include <Eigen/Dense>
#include <algorithm>
#include <cmath>
#include <limits>
#include <vector>
namespace cx {
typedef Eigen::Vector3d V;
typedef Eigen::Matrix3d M;
enum Kind { POINTS, ELLIPSOID, CONE, CYLINDER, HALFSPACE, PLANE };
// POINTS: hull of pts, swept by a ball of radius r (sphere, capsule, box, triangle, convex)
struct Body {
  Kind kind = POINTS; std::vector<V> pts; double r = 0;
  V axes = V::Zero();                    // ellipsoid radii; cone/cylinder: (radius, half length, -)
  V n = V::Zero(); double d = 0;         // half-space n.x <= d, plane n.x == d  (local frame)
  M R = M::Identity(); V T = V::Zero();
  bool unbounded() const { return kind == HALFSPACE || kind == PLANE; }
  V wn() const { return R * n; }
  double wd() const { return d + wn().dot(T); }
  V support(const V& dir) const {        // farthest point along dir (any length)
    V u = R.transpose() * dir, p = V::Zero();
    switch (kind) {
      case POINTS: { double best = -1e300; for (const V& q : pts) { double t = q.dot(u); if (t > best) { best = t; p = q; } } double l = u.norm(); if (r > 0 && l > 0) p += u * (r / l); break; }
      case ELLIPSOID: { V w = axes.cwiseProduct(u); double l = w.norm(); if (l > 0) p = axes.cwiseProduct(w) / l; else p = V(axes[0], 0, 0); break; }
      case CYLINDER: { double l = std::hypot(u[0], u[1]); if (l > 0) { p[0] = u[0] / l * axes[0]; p[1] = u[1] / l * axes[0]; } p[2] = u[2] >= 0 ? axes[1] : -axes[1]; break; }
      case CONE: { double l = std::hypot(u[0], u[1]); V b(l > 0 ? u[0] / l * axes[0] : 0, l > 0 ? u[1] / l * axes[0] : 0, -axes[1]), t(0, 0, axes[1]); p = t.dot(u) > b.dot(u) ? t : b; break; }
      default: break;
    }
    return R * p + T;
  }
  double h(const V& dir) const { return support(dir).dot(dir); }
};

// closest point to the origin of the affine hull of k points, as barycentric coordinates
inline bool affine_min(const V* p, int k, double* l) {
  if (k == 1) { l[0] = 1; return true; }
  Eigen::Matrix<long double, 3, 3> G; Eigen::Matrix<long double, 3, 1> b; int m = k - 1;
  Eigen::Matrix<long double, 3, 1> e[3], p0 = p[0].cast<long double>();
  for (int i = 0; i < m; ++i) e[i] = (p[i + 1] - p[0]).cast<long double>();
  if (m == 1) { long double g = e[0].dot(e[0]); if (!(g > 0)) return false; long double t = -e[0].dot(p0) / g; l[1] = (double)t; l[0] = (double)(1 - t); return true; }
  if (m == 2) {
    long double a = e[0].dot(e[0]), c = e[0].dot(e[1]), d = e[1].dot(e[1]), det = a * d - c * c; if (!(det > 1e-30L * a * d)) return false;
    long double u = -e[0].dot(p0), v = -e[1].dot(p0); l[1] = (double)((u * d - v * c) / det); l[2] = (double)((v * a - u * c) / det); l[0] = 1 - l[1] - l[2]; return true;
  }
  // tetrahedron: solve E x = -p0
  long double det = e[0].dot(e[1].cross(e[2])); if (!(std::fabs(det) > 1e-24L * e[0].norm() * e[1].norm() * e[2].norm())) return false;
  Eigen::Matrix<long double, 3, 1> q = -p0; l[1] = (double)(q.dot(e[1].cross(e[2])) / det); l[2] = (double)(e[0].dot(q.cross(e[2])) / det); l[3] = (double)(e[0].dot(e[1].cross(q)) / det); l[0] = 1 - l[1] - l[2] - l[3];
  return true;
}
// min-norm point of the hull of n<=5 points: every subset of at most 4 is tried
inline V hull_min(std::vector<V>& s) {
  int n = (int)s.size(); double best = 1e300; V bx = s[0]; int bm = 1;
  for (int m = 1; m < (1 << n); ++m) {
    int k = __builtin_popcount(m); if (k > 4) continue;
    V p[4]; int q = 0; for (int i = 0; i < n; ++i) if (m >> i & 1) p[q++] = s[i];
    double l[4]; if (!affine_min(p, k, l)) continue;
    bool in = true; for (int i = 0; i < k; ++i) if (l[i] < -1e-15) { in = false; break; }
    if (!in) continue;
    V x = V::Zero(); for (int i = 0; i < k; ++i) x += l[i] * p[i];
    double nn = x.squaredNorm(); if (nn < best - 1e-300) { best = nn; bx = x; bm = m; }
  }
  std::vector<V> r; for (int i = 0; i < n; ++i) if (bm >> i & 1) r.push_back(s[i]);
  s = r; return bx;
}
struct Bounds { double lo = 0, hi = 1e300; V n = V::Zero(); };   // lo <= distance(A, B + shift) <= hi, n: direction from A to B that proves lo
inline Bounds dist_bounds(const Body& A, const Body& B, const V& shift = V::Zero(), double tol = 1e-9, double stop_lo = 1e300, int iters = 300) {
  Bounds r; 
  auto sup = [&](const V& d) -> V { return B.support(d) + shift - A.support(-d); };    // B - A
  V x = sup(A.T - B.T - shift + V(1e-3, 2e-3, 3e-3)); std::vector<V> s; s.push_back(x);
  for (int it = 0; it < iters; ++it) {
    double nx = x.norm(); r.hi = std::min(r.hi, nx);
    if (nx < 1e-13) { r.hi = nx; break; }
    V w = sup(-x); double lo = w.dot(x) / nx;
    if (lo > r.lo) { r.lo = lo; r.n = x / nx; }
    if (r.hi - r.lo <= tol || r.lo > stop_lo) break;
    bool dup = false; for (auto& q : s) if ((q - w).squaredNorm() < 1e-30) dup = true;
    if (dup) break;
    s.push_back(w); x = hull_min(s);
    if (s.size() >= 4) { r.hi = 0; r.lo = 0; break; }     // origin inside a tetrahedron of the difference
  }
  return r;
}
// Signed separation of a pair in which one body is a half-space or plane (exact); positive: apart
inline double sep_unbounded(const Body& A, const Body& B) {
  const Body& U = A.unbounded() ? A : B; const Body& O = A.unbounded() ? B : A;
  V n = U.wn(); double d = U.wd();
  if (!O.unbounded()) {
    double lo = -O.h(-n) - d;                // lowest signed height of the body
    if (U.kind == HALFSPACE) return lo;
    double hi = O.h(n) - d;
    return std::max(lo, -hi);
  }
  double c = n.dot(O.wn());
  if (std::fabs(c) < 1 - 1e-9) return -1e300;  // not parallel: they meet
  if (std::fabs(c) != 1 || std::fabs(n[0]) + std::fabs(n[1]) + std::fabs(n[2]) != 1) return 0;   // parallel up to rounding: undecidable
  double d2 = c > 0 ? O.wd() : -O.wd();        // plane of O along n
  bool hu = U.kind == HALFSPACE, ho = O.kind == HALFSPACE;
  if (!hu && !ho) return std::fabs(d - d2);
  if (hu && ho) return c > 0 ? -1e300 : d2 - d;
  if (hu) return d2 - d;                       // plane O against half-space U: apart when beyond d
  // U plane at d, O half-space
  return c > 0 ? d - d2 : d2 - d;
}
// translation of B along n (unit, from A to B) after which they just touch; negative when already apart
inline double width(const Body& A, const Body& B, const V& n) { return A.h(n) + B.h(-n); }

// verdict with margin: +1 overlapping by more than m, -1 apart by more than m, 0 too close to call
inline int verdict(const Body& A, const Body& B, double m, Bounds* out = nullptr) {
  if (A.unbounded() || B.unbounded()) { double s = sep_unbounded(A, B); if (out) { out->lo = out->hi = std::max(0.0, s); } return s > m ? -1 : s < -m ? 1 : 0; }
  Bounds b = dist_bounds(A, B); if (out) *out = b;
  if (b.lo > m) return -1;
  if (b.hi > 1e-9) return 0;
  for (int i = 0; i < 3; ++i) for (int s = -1; s <= 1; s += 2) { V e = V::Zero(); e[i] = s * m * 1.7320508; Bounds q = dist_bounds(A, B, e); if (q.hi > 1e-9) return 0; }
  return 1;
}
// an upper bound on the penetration depth: the least width over candidate directions, refined locally
inline double depth_upper(const Body& A, const Body& B, const std::vector<V>& cand, V* best_n = nullptr, int refine = 2) {
  double best = 1e300; V bn = V(1, 0, 0);
  for (const V& c : cand) { double l = c.norm(); if (l < 1e-12) continue; V n = c / l; double w = width(A, B, n); if (w < best) { best = w; bn = n; } }
  double step = 0.1;
  for (int it = 0; it < 40 * refine && step > 1e-7; ++it) {
    bool imp = false; V u = bn.unitOrthogonal(), v = bn.cross(u);
    for (int k = 0; k < 8; ++k) { V n = (bn + step * (std::cos(k * M_PI / 4) * u + std::sin(k * M_PI / 4) * v)).normalized(); double w = width(A, B, n); if (w < best - 1e-14) { best = w; bn = n; imp = true; } }
    if (!imp) step *= 0.5;
  }
  if (best_n) *best_n = bn; return best;
}
} // namespace cx
#endif
