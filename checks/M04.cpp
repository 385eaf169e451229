// MC-BUILD: san=none
// M04: motions: what their transforms are, and that their bounds and Taylor models hold the movement.
#include <new>
#include "mc.h"
#include "fcl/math/motion/interp_motion.h"
#include "fcl/math/motion/screw_motion.h"
#include "fcl/math/motion/translation_motion.h"
#include "fcl/math/motion/spline_motion.h"
#include "fcl/math/motion/tbv_motion_bound_visitor.h"
#include "fcl/math/motion/triangle_motion_bound_visitor.h"
#include "fcl/narrowphase/continuous_collision_object.h"
#include "fcl/geometry/shape/box.h"
#include "fcl/geometry/shape/sphere.h"
using mc::fmt; using namespace fcl; typedef Vector3<double> V; typedef Matrix3<double> M; typedef Transform3<double> T; typedef MotionBase<double> MB;
static T tf(const M& R, const V& t) { T x = T::Identity(); x.linear() = R; x.translation() = t; return x; }
static M rot(int k) { static const double q[][4] = {{1, 0, 0, 0}, {1, 0, 0, 1}, {0, 1, 0, 0}, {1, 1, 1, 1}, {1, 0.5, -0.25, 2}, {1, 5e-4, 0, 0}, {1, 1e-12, 0, 0}, {0.1, -1, 2, 0.5}, {0, 0.6, 0, 0.8}, {1, 0, 3e-9, 0}, {1, -0.2, 0.3, 0.1}}; return Eigen::Quaterniond(q[k][0], q[k][1], q[k][2], q[k][3]).normalized().toRotationMatrix(); }
static const int NROT = 11;
static V tra(int k) { static const double t[][3] = {{0, 0, 0}, {1, 0, 0}, {0.5, -2, 0.25}, {-3, 1, 4}, {0, 1e-6, 0}, {100, 0, -20}}; return V(t[k][0], t[k][1], t[k][2]); }
static const int NTRA = 6;
static const double TIMES[] = {0, 1, 0.5, 0.125, 0.875, 0.3, 1.0 / 3};
struct Mo { std::shared_ptr<MB> m; int kind; T a, b; V ref; V td[4], rd[4]; std::string n; };
// constructs in memory filled with a pattern, so that an uninitialised member shows
template <typename X> static std::shared_ptr<MB> make(int pat, std::function<X*(void*)> f) { void* p = std::aligned_alloc(64, (sizeof(X) + 63) / 64 * 64); static const unsigned char B[] = {0x00, 0x41, 0xff}; std::memset(p, B[pat], sizeof(X)); X* x = f(p); return std::shared_ptr<MB>(x, [](MB* m) { X* y = static_cast<X*>(m); y->~X(); std::free(y); }); }
typedef InterpMotion<double> IM_; typedef ScrewMotion<double> SM_; typedef TranslationMotion<double> TM_; typedef SplineMotion<double> PM_;
static const char* KN[] = {"interp(tf)", "interp(RT)", "interp(tf,O)", "interp(RT,O)", "interp()", "screw(tf)", "screw(RT)", "screw()", "translation(tf)", "translation(RT)", "spline(points)", "spline(tf)", "spline(RT)"};
static Mo build(int kind, const T& a, const T& b, const V& ref, int sp, int pat) {
  Mo r; r.kind = kind; r.a = a; r.b = b; r.ref = V::Zero(); r.n = KN[kind]; M A = a.linear(), B = b.linear(); V x = a.translation(), y = b.translation();
  switch (kind) {
    case 0: r.m = make<IM_>(pat, [&](void* p) { return ::new (p) IM_(a, b); }); break; case 1: r.m = make<IM_>(pat, [&](void* p) { return ::new (p) IM_(A, x, B, y); }); break;
    case 2: r.ref = ref; r.m = make<IM_>(pat, [&](void* p) { return ::new (p) IM_(a, b, ref); }); break; case 3: r.ref = ref; r.m = make<IM_>(pat, [&](void* p) { return ::new (p) IM_(A, x, B, y, ref); }); break;
    case 4: r.a = r.b = T::Identity(); r.m = make<IM_>(pat, [&](void* p) { return ::new (p) IM_(); }); break;
    case 5: r.m = make<SM_>(pat, [&](void* p) { return ::new (p) SM_(a, b); }); break; case 6: r.m = make<SM_>(pat, [&](void* p) { return ::new (p) SM_(A, x, B, y); }); break; case 7: r.a = r.b = T::Identity(); r.m = make<SM_>(pat, [&](void* p) { return ::new (p) SM_(); }); break;
    case 8: r.b.linear() = A; r.m = make<TM_>(pat, [&](void* p) { return ::new (p) TM_(a, b); }); break; case 9: r.b.linear() = A; r.m = make<TM_>(pat, [&](void* p) { return ::new (p) TM_(A, x, y); }); break;
    case 10: { static const double rd[5][4][3] = {{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}}, {{0, 0, 0.2}, {0, 0.1, 0.6}, {0.3, 0, 1.2}, {0.5, -0.5, 1}}, {{2, 0, 0}, {-1, 1, 0.5}, {3, -2, 1}, {0, 0, 4}}, {{0, 0, -3}, {0, 0, -1}, {0, 0, 1}, {0, 0, 3}}, {{0, 8, 0}, {0, -8, 4}, {8, 0, 0}, {0, 0, -8}}};
      static const double td[4][4][3] = {{{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {3, 0, 0}}, {{1, 2, 0}, {-1, 0, 3}, {2, 2, -1}, {0, 1, 1}}, {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}}, {{5, 0, 0}, {-5, 0, 1}, {5, 2, 0}, {-5, 0, 3}}};
      for (int i = 0; i < 4; ++i) { r.rd[i] = V(rd[sp % 5][i][0], rd[sp % 5][i][1], rd[sp % 5][i][2]); r.td[i] = V(td[sp / 5][i][0], td[sp / 5][i][1], td[sp / 5][i][2]); }
      r.m = make<PM_>(pat, [&](void* p) { return ::new (p) PM_(r.td[0], r.td[1], r.td[2], r.td[3], r.rd[0], r.rd[1], r.rd[2], r.rd[3]); }); break; }
    case 11: r.m = make<PM_>(pat, [&](void* p) { return ::new (p) PM_(a, b); }); break; default: r.m = make<PM_>(pat, [&](void* p) { return ::new (p) PM_(A, x, B, y); }); break;
  }
  return r;
}
static T cur(const MB& m) { T t; m.getCurrentTransform(t); return t; }
static T at(const MB& m, double s) { m.integrate(s); return cur(m); }
static double gap(const T& a, const T& b) { double d = (a.linear() - b.linear()).norm() + (a.translation() - b.translation()).norm(); return std::isfinite(d) ? d : 1e300; }
static bool bits(const T& a, const T& b) { return std::memcmp(a.data(), b.data(), 12 * sizeof(double)) == 0 || a.matrix() == b.matrix(); }
static T spline(const Mo& r, double t) { double w[4] = {(1 - 3 * t + 3 * t * t - t * t * t) / 6, (4 - 6 * t * t + 3 * t * t * t) / 6, (1 + 3 * t + 3 * t * t - 3 * t * t * t) / 6, t * t * t / 6}; V x = V::Zero(), q = V::Zero(); for (int i = 0; i < 4; ++i) { x += w[i] * r.td[i]; q += w[i] * r.rd[i]; } double a = q.norm(); return tf(a > 0 ? AngleAxis<double>(a, V(q / a)).toRotationMatrix() : M::Identity(), x); }
static double angle(const M& R) { return AngleAxis<double>(R).angle(); }
static void semantics(mc::C& c, const Mo& r) {
  std::string k = r.n; double sc = 1 + r.a.translation().norm() + r.b.translation().norm(), e = 2e-7 * sc; const MB& m = *r.m; bool sp = r.kind >= 10;
  T first = cur(m); if (!(gap(first, r.kind == 10 ? spline(r, 0) : r.a) <= e)) c.fail(k + "/start", fmt("the transform after construction is %g away from the start", gap(first, r.a)));
  std::vector<T> seq; for (double t : TIMES) seq.push_back(at(m, t));
  for (size_t i = 0; i < seq.size(); ++i) { const T& x = seq[i]; if (!((x.linear().transpose() * x.linear() - M::Identity()).norm() < 1e-6 && x.linear().determinant() > 0)) c.fail(k + "/rigid", fmt("the transform at %g is not rigid", TIMES[i])); }
  for (size_t i = seq.size(); i-- > 0;) { m.integrate(TIMES[(i * 3 + 1) % seq.size()]); T x = at(m, TIMES[i]); if (!bits(x, seq[i])) c.fail(k + "/history", fmt("the transform at %g depends on earlier calls", TIMES[i])); M R; V p; m.getCurrentTransform(R, p); Quaternion<double> q, q2; V p2; m.getCurrentTransform(q, p2); M R2; m.getCurrentRotation(R2); m.getCurrentRotation(q2); V p3; m.getCurrentTranslation(p3); if (R != x.linear() || R2 != R || p != x.translation() || p2 != p || p3 != p || (q.toRotationMatrix() - R).norm() > 1e-9 || (q2.toRotationMatrix() - R).norm() > 1e-9) c.fail(k + "/getters", "the getters disagree"); }
  if (!bits(at(m, 1.75), seq[1])) c.fail(k + "/past-end", "the motion goes on after its end");
  if (r.kind == 10) { for (size_t i = 0; i < seq.size(); ++i) if (!(gap(seq[i], spline(r, TIMES[i])) <= 1e-9 * (1 + sc))) c.fail(k + "/formula", fmt("at %g not the point of the spline", TIMES[i])); return; }
  if (!(gap(seq[1], r.b) <= e)) c.fail(k + "/end", fmt("the end is %g away from the goal", gap(seq[1], r.b))); if (!(gap(seq[0], r.a) <= e)) c.fail(k + "/start0", fmt("the transform at 0 is %g away from the start", gap(seq[0], r.a)));
  if (sp) return;
  double th = angle(r.b.linear() * r.a.linear().transpose());
  for (size_t i = 0; i < seq.size(); ++i) { double t = TIMES[i]; M D = seq[i].linear() * r.a.linear().transpose(); if (!(std::abs(angle(D) - t * th) < 1e-5)) c.fail(k + "/angle", fmt("at %g turned by %g of %g", t, angle(D), th));
    if (r.kind <= 4 || r.kind >= 8) { V w = (1 - t) * (r.a * r.ref) + t * (r.b * r.ref); if (!((seq[i] * r.ref - w).norm() <= e)) c.fail(k + "/reference", fmt("at %g the reference point is %g off the straight line", t, (seq[i] * r.ref - w).norm())); } }
  if (r.kind >= 5 && r.kind <= 7) { T ai = r.a.inverse(); T h = at(m, 0.5) * ai, q = at(m, 0.125) * ai, g = at(m, 0.25) * ai, f = at(m, 0.625) * ai; if (!(gap(q * q, g) <= e * 20 && gap(h * h, r.b * ai) <= e * 20 && gap(h * q, f) <= e * 20)) c.fail(k + "/group", "equal times do not give equal screws"); }
}
static std::vector<V> dirs() { std::vector<V> d; for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if (x || y || z) d.push_back(V(x, y, z).normalized()); return d; }
static void bounds(mc::C& c, const Mo& r) {
  static const auto D = dirs(); const MB& m = *r.m; bool sp = r.kind >= 10; double sc = 1 + r.a.translation().norm() + r.b.translation().norm();
  RSS<double> bv[4]; for (int i = 0; i < 4; ++i) { bv[i].axis = rot(i == 3 ? 4 : i); bv[i].To = V(i == 0 ? 0 : 0.5, -0.25 * i, i == 2 ? 2 : 0); bv[i].l[0] = i == 0 ? 0 : 1.5; bv[i].l[1] = i == 2 ? 0 : 0.75; bv[i].r = i == 1 ? 0 : 0.5; }
  V tri[3][3] = {{V(0, 0, 0), V(1, 0, 0), V(0, 1, 0)}, {V(0.5, -2, 1), V(-1, 0, 0.25), V(2, 2, 2)}, {V(3, 0, 0), V(3, 0.5, 0), V(3, 0, -0.5)}};
  static const double ST[] = {0, 0.3, 0.75};
  for (double t0 : ST) { T x0 = at(m, t0); std::vector<std::pair<double, T>> later; int K = sp ? 16 : 8; for (int i = 1; i <= K; ++i) { double s = (1 - t0) * i / K; later.push_back({s, at(m, t0 + s)}); } m.integrate(t0);
    for (const V& n : D) {
      for (int b = 0; b < 4; ++b) { TBVMotionBoundVisitor<RSS<double>> v(bv[b], n); double mu = m.computeMotionBound(v); for (auto& l : later) { double worst = -1e300; M dR = l.second.linear() - x0.linear(); V dT = l.second.translation() - x0.translation(); for (int q = 0; q < 4; ++q) { V p = bv[b].To + (q & 1 ? bv[b].l[0] : 0) * bv[b].axis.col(0) + (q & 2 ? bv[b].l[1] : 0) * bv[b].axis.col(1); worst = std::max(worst, n.dot(dR * p + dT)); } worst += bv[b].r * (dR.transpose() * n).norm(); if (!(worst <= l.first * mu + 1e-6 * sc)) c.fail(r.n + "/bound-rss", fmt("from %g on a point of volume %d moves %g along (%g %g %g) within %g, the bound is %g per unit of time", t0, b, worst, n[0], n[1], n[2], l.first, mu)); } }
      for (int b = 0; b < 3; ++b) { TriangleMotionBoundVisitor<double> v(tri[b][0], tri[b][1], tri[b][2], n); double mu = m.computeMotionBound(v); for (auto& l : later) for (int q = 0; q < 3; ++q) { double mv = n.dot(l.second * tri[b][q] - x0 * tri[b][q]); if (!(mv <= l.first * mu + 1e-6 * sc)) c.fail(r.n + "/bound-triangle", fmt("from %g on a vertex of triangle %d moves %g along (%g %g %g) within %g, the bound is %g per unit of time", t0, b, mv, n[0], n[1], n[2], l.first, mu)); } }
    } }
}
static void taylor(mc::C& c, const Mo& r) {
  const MB& m = *r.m; double sc = 1 + r.a.translation().norm() + r.b.translation().norm(); TMatrix3<double> R; TVector3<double> P; static const double IV[][2] = {{0, 1}, {0, 0.5}, {0.25, 0.75}};
  for (auto& iv : IV) { m.getTimeInterval()->setValue(iv[0], iv[1]); m.getTaylorModel(R, P); IMatrix3<double> RB = R.getTightBound(); IVector3<double> PB = P.getTightBound(); double e = 1e-6 * sc;
    for (int i = 0; i <= 16; ++i) { double t = iv[0] + (iv[1] - iv[0]) * i / 16; T x = at(m, t); for (int a = 0; a < 3; ++a) { Interval<double> g = P.getBound(t)[a]; double v = x.translation()[a]; if (!(g[0] <= v + e && g[1] >= v - e && PB[a][0] <= v + e && PB[a][1] >= v - e)) c.fail(r.n + "/taylor-translation", fmt("at %g component %d is %g, not in [%g, %g]", t, a, v, g[0], g[1])); for (int b = 0; b < 3; ++b) { Interval<double> h = R.getBound(t)(a, b); double w = x.linear()(a, b); if (!(h[0] <= w + 1e-6 && h[1] >= w - 1e-6 && RB(a, b)[0] <= w + 1e-6 && RB(a, b)[1] >= w - 1e-6)) c.fail(r.n + "/taylor-rotation", fmt("at %g entry %d,%d is %g, not in [%g, %g]", t, a, b, w, h[0], h[1])); } } } }
  m.getTimeInterval()->setValue(0, 1);
  auto box = std::make_shared<Box<double>>(1, 2, 0.5); box->computeLocalAABB(); auto sph = std::make_shared<Sphere<double>>(0.75); sph->computeLocalAABB();
  for (int g = 0; g < 2; ++g) { std::shared_ptr<CollisionGeometry<double>> cg; if (g) cg = sph; else cg = box; ContinuousCollisionObject<double> o(cg, r.m); o.computeAABB(); AABB<double> b = o.getAABB();
    for (int i = 0; i <= 16; ++i) { T x = at(m, i / 16.0); for (int a = 0; a < 3; ++a) { double ext = g ? 0.75 : 0.5 * (std::abs(x.linear()(a, 0)) * 1 + std::abs(x.linear()(a, 1)) * 2 + std::abs(x.linear()(a, 2)) * 0.5), lo = x.translation()[a] - ext, hi = x.translation()[a] + ext; if (!(b.min_[a] <= lo + 1e-6 * sc && b.max_[a] >= hi - 1e-6 * sc)) c.fail(r.n + "/swept-box", fmt("at %g the object reaches from %g to %g along axis %d, its box from %g to %g", i / 16.0, lo, hi, a, b.min_[a], b.max_[a])); } } }
}
static void body(mc::C& c) {
  bool th = c.thorough(); int kind = c.choose(13); T a = T::Identity(), b = a; V ref = V::Zero(); int sp = 0; int pat = c.choose(3);
  if (kind == 4 || kind == 7) {} else if (kind == 10) sp = c.choose(20);
  else { int ra = c.choose(NROT), rb = c.choose(NROT), ta = c.choose(th ? NTRA : 4), tb = c.choose(NTRA); a = tf(rot(ra), tra(ta)); b = tf(rot(rb), tra(tb)); if (kind == 2 || kind == 3) { static const double rf[][3] = {{0.5, 0, 0}, {-1, 2, 3}, {0, 0, 0}}; int q = c.choose(th ? 3 : 2); ref = V(rf[q][0], rf[q][1], rf[q][2]); } c.context(fmt("%s %d,%d -> %d,%d", KN[kind], ra, ta, rb, tb)); }
  Mo r = build(kind, a, b, ref, sp, pat); c.count(kind); T e = cur(*r.m); c.state(mc::hbits(e(0, 3)) ^ mc::hbits(e(1, 1)) * 31 ^ mc::hbits(e(2, 0)) * 7 ^ kind);
  semantics(c, r); if (pat == 0 || th || kind == 4 || kind == 7) { int part = c.choose(2); if (part == 0) bounds(c, r); else taylor(c, r); }
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "M04"; s.body = body; s.shard_depth = 3; s.hang_s = 20;
  s.explanation = "every motion class and constructor, in memory of three different contents, between all pairs of a pool of poses (identity, tiny, half and generic turns) with several reference points, and splines over a pool of control points: start, end, rigidity, independence of earlier calls, geodesic rotation, straight reference point, one-parameter screws, spline formula; displacement of every point of RSS volumes and triangles against the motion bounds for 26 directions and all start times; Taylor models and swept boxes against the movement";
  s.assumptions = {"motion bounds of volumes other than RSS are not claimed (the library only uses RSS)", "displacements and enclosures are judged at the stated instants"};
  for (auto k : KN) s.counter_names.push_back(k);
  return mc::run(argc, argv, s);
}
