// MC-BUILD: san=none big=collision,distance,continuous_collision
// N10: continuous collision: whether and when two moving bodies first touch.
#include "mesh_world.h"
#include <functional>
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/continuous_collision.h"
#include "fcl/narrowphase/continuous_collision_object.h"
#include "fcl/broadphase/default_broadphase_callbacks.h"
using namespace mw; using mc::fmt;
typedef fcl::MotionBase<double> MB;
struct Mv { Tf a1, a2, b1, b2; int type; };
static const char* MT[] = {"translation", "interpolated", "screw", "spline"};
static fcl::MotionBasePtr<double> mot(int type, const Tf& a, const Tf& b) { return fcl::getMotionBase<double>(a, b, (fcl::CCDMotionType)type); }
static Tf at(const MB& m, double t) { m.integrate(t); Tf x; m.getCurrentTransform(x); return x; }
static bool same(const Tf& a, const Tf& b) { return std::memcmp(a.data(), b.data(), 12 * sizeof(double)) == 0 || (a.matrix() - b.matrix()).norm() == 0; }
// a body that moves: a list of convex parts, and a ball about the origin that holds it
struct Obj { std::string name; std::vector<Body> parts; double rad; const Mesh* mesh = nullptr; const Sh* shape = nullptr; };
static std::vector<Body> at_all(const Obj& o, const Tf& t) { std::vector<Body> r; for (auto& b : o.parts) r.push_back(placed(b, t)); return r; }
static Obj obj(const Mesh& m) { Obj o; o.name = m.name; o.parts = m.b; o.mesh = &m; o.rad = 0; for (auto& v : m.v) o.rad = std::max(o.rad, v.norm()); return o; }
static Obj obj(const Sh& s) { Obj o; o.name = s.name; o.parts = {s.b}; o.shape = &s; o.rad = 0; if (!s.b.unbounded()) for (auto& d : directions()) o.rad = std::max(o.rad, s.b.h(d) * 1.3); return o; }
// distance between the objects: lower and upper bound (exact to 1e-7 when below `near`); depth > 0 for sure when hi < 0
struct Gap { double lo, hi; };
static Gap gap_at(const Obj& A, const Obj& B, const Tf& x, const Tf& y, double m) {
  auto a = at_all(A, x), b = at_all(B, y); Gap g{1e300, 1e300}; std::vector<Box3> ya; if (b.size() > 1) for (auto& q : b) ya.push_back(box_of(q));
  for (auto& p : a) { Box3 px; if (!p.unbounded()) px = box_of(p);
    for (size_t k = 0; k < b.size(); ++k) { auto& q = b[k]; double lo, hi;
      if (p.unbounded() || q.unbounded()) { double s = cx::sep_unbounded(p, q); lo = hi = s; }
      else { double fd = far_dist(px, ya.empty() ? box_of(q) : ya[k]); if (fd > g.hi) continue; cx::Bounds bd = cx::dist_bounds(p, q); lo = bd.lo; hi = bd.hi; if (hi < m && cx::verdict(p, q, m) == 1) lo = hi = -m; }
      g.lo = std::min(g.lo, lo); g.hi = std::min(g.hi, hi); } }
  return g;
}
static int touch(const Obj& A, const Obj& B, const Tf& x, const Tf& y, double m) {   // 1: surely overlap by m, -1: surely apart by m, 0: neither
  int best = -1; auto a = at_all(A, x), b = at_all(B, y);
  for (auto& p : a) for (auto& q : b) { if (!p.unbounded() && !q.unbounded() && far(box_of(p), box_of(q), m)) continue; int v = cx::verdict(p, q, m); best = std::max(best, v); if (best == 1) return 1; }
  return best;
}
static bool choose_motion(mc::C& c, const Obj& A, const Obj& B, const Body& ha, const Body& hb0, int kind, Mv& m, uint64_t& key) {
  bool th = c.thorough(), few = !th && (kind == 1 || kind == 3); m.type = c.choose(4);
  int r = c.choose(th ? 6 : 3), d = c.choose(th ? 14 : kind == 4 ? 7 : 4) * (th ? 2 : kind == 4 ? 4 : 7), g = c.choose(th ? 4 : 2), aim = c.choose(th ? 5 : 3), rt = m.type == 0 ? 0 : few ? 1 + c.choose(2) : c.choose(th ? 5 : 3), own = few ? 1 + c.choose(2) : c.choose(3);
  static const double G[] = {0.25, 1.5, 0.01, -0.1}; V n = directions()[d]; Body hb = hb0; hb.R = rotations()[r]; V t;
  if (!hb.unbounded()) t = n * (ha.h(n) + hb.h(-n) + G[g]); else { V w = hb.R * hb.n; double low = -ha.h(-w); t = w * (low - G[g] - hb.d) + (n - n.dot(w) * w); }
  m.a1 = Tf::Identity(); m.a2 = tf(hb.R, t); V way = hb.unbounded() ? V(hb.R * hb.n * (2.0 + G[g])) : V(-2.0 * t), side = (std::abs(n[0]) < 0.8 ? V::UnitX() : V::UnitY()).cross(n).normalized(), e;
  switch (aim) { case 0: e = t + way; break; case 1: e = t + way * 0.5 + side * (A.rad + B.rad) * 0.45; break; case 2: e = t + way * 0.02; break; case 3: e = t + way + side * (A.rad + B.rad) * 1.1; break; default: e = t - way * 0.5; }
  static const double RA[] = {0, 1.2, 3.0, 0.3, -2.2}; static const double AX[][3] = {{0, 0, 1}, {1, 1, 0}, {0, 1, 0}, {1, 0, 0.5}, {0.3, -1, 0.7}}; V ax(AX[rt][0], AX[rt][1], AX[rt][2]);
  m.b1 = m.a1; m.b2 = tf(rot(ax, RA[rt]) * hb.R, e);
  if (own == 1) { m.b1 = tf(m.type ? rot(V(1, 0.5, 0), 0.8) : M(M::Identity()), V(0.25, -0.5, 0.125)); }
  if (own == 2) { Tf bs = tf(rotations()[7], V(3, -2, 1)); m.a1 = bs * m.a1; m.b1 = m.a1; m.a2 = bs * m.a2; m.b2 = bs * m.b2; if (m.type) m.b1 = m.a1 * tf(rot(V(0, 0, 1), -1), V(0, 0.5, 0)); }
  key = mc::mix(mc::mix(m.type * 8 + r, d * 8 + g), mc::mix(aim * 8 + rt, own));
  return true;
}
struct Oracle { std::shared_ptr<MB> m1, m2; const Obj *A, *B; double vmax; Gap at_time(double t, double m = 1e-3) const { return gap_at(*A, *B, at(*m1, t), at(*m2, t), m); } int touch_at(double t, double m) const { return touch(*A, *B, at(*m1, t), at(*m2, t), m); } };
static double speed(const Mv& m, const Obj& A, const Obj& B) {   // a bound of how fast two points of the bodies can approach
  auto one = [&](int type, const Tf& a, const Tf& b, double rad) { auto x = mot(type, a, b); double v = 0; const int K = 64; Tf p = at(*x, 0); for (int i = 1; i <= K; ++i) { Tf q = at(*x, i / (double)K); double w = std::min(M_PI, fcl::AngleAxis<double>(q.linear() * p.linear().transpose()).angle()); v = std::max(v, K * ((q.translation() - p.translation()).norm() + w * rad)); p = q; } return v; };
  return 1.1 * (one(m.type, m.a1, m.b1, A.rad) + one(m.type, m.a2, m.b2, B.rad)) + 1e-9;
}
typedef fcl::ContinuousCollisionRequest<double> Rq; typedef fcl::ContinuousCollisionResult<double> Rs;
static const fcl::CollisionGeometry<double>* geom(const Obj& o, int bv) { return o.mesh ? o.mesh->g[bv].get() : o.shape->g.get(); }
// the forms for objects, and the default callback, answer as the form for geometries
static void forms(mc::C& c, const Obj& A, const Obj& B, const Mv& m, int bva, int bvb, const Rq& q, const Rs& r, double ret, const std::string& kk) {
  auto ga = A.mesh ? A.mesh->g[bva] : A.shape->g, gb = B.mesh ? B.mesh->g[bvb] : B.shape->g; auto eq = [&](const Rs& x, double y) { return y == ret && x.is_collide == r.is_collide && x.time_of_contact == r.time_of_contact && (!r.is_collide || (same(x.contact_tf1, r.contact_tf1) && same(x.contact_tf2, r.contact_tf2))); };
  { fcl::CollisionObject<double> a(ga, m.a1), b(gb, m.a2); Rs x; double y = fcl::continuousCollide(&a, m.b1, &b, m.b2, q, x); if (!eq(x, y)) c.fail("objects" + kk, fmt("for geometries %d %.9g, for objects %d %.9g", r.is_collide, ret, x.is_collide, y)); if (!same(a.getTransform(), m.a1) || !same(b.getTransform(), m.a2)) c.fail("objects" + kk, "the query moved an object"); }
  { auto m1 = mot(m.type, m.a1, m.b1), m2 = mot(m.type, m.a2, m.b2); fcl::ContinuousCollisionObject<double> a(ga, m1), b(gb, m2); Rs x; double y = fcl::collide(&a, &b, q, x); if (!eq(x, y)) c.fail("moving-objects" + kk, fmt("for geometries %d %.9g, for moving objects %d %.9g", r.is_collide, ret, x.is_collide, y));
    fcl::DefaultContinuousCollisionData<double> d; d.request = q; bool stop = fcl::DefaultContinuousCollisionFunction(&a, &b, &d); if (stop || !eq(d.result, d.result.time_of_contact)) c.fail("callback" + kk, fmt("for geometries %d %.9g, by the callback %d %.9g, stop %d", r.is_collide, ret, d.result.is_collide, d.result.time_of_contact, stop));
    d.done = true; d.result = Rs(); if (!fcl::DefaultContinuousCollisionFunction(&a, &b, &d) || d.result.is_collide || d.result.time_of_contact != Rs().time_of_contact) c.fail("callback" + kk, "a finished callback asks again"); }
  c.count(5);
}
static void naive(mc::C& c, const Obj& A, const Obj& B, const Mv& m, int bva, int bvb, const Rq& q0, const std::string& kk, const std::string& pose) {
  static const int NI[][2] = {{10, 10000}, {2, 10000}, {33, 10000}, {100, 7}, {1, 10000}};
  Rq q = q0; q.ccd_solver_type = fcl::CCDC_NAIVE; bool m2 = A.mesh || B.mesh; int w = c.choose(c.thorough() ? 5 : m2 ? 2 : 3); if (!c.thorough() && w == 2) w = 4; q.num_max_iterations = NI[w][0]; q.toc_err = 1.0 / NI[w][1] * 1.0000001; size_t n = std::min<size_t>(NI[w][0], NI[w][1]);
  Rs r; double ret = fcl::continuousCollide(geom(A, bva), m.a1, m.b1, geom(B, bvb), m.a2, m.b2, q, r); Oracle o{mot(m.type, m.a1, m.b1), mot(m.type, m.a2, m.b2), &A, &B, 0}; if (q.num_max_iterations < 11) forms(c, A, B, m, bva, bvb, q, r, ret, "/naive" + kk);
  if (!(ret == r.time_of_contact)) c.fail("naive/return" + kk, fmt("returned %g, result says %g", ret, r.time_of_contact)); if (!(ret >= 0 && ret <= 1)) c.fail("naive/range" + kk, fmt("time of contact %g", ret));
  for (size_t i = 0; i < n; ++i) { double t = n == 1 ? 0 : i / (double)(n - 1); if (r.is_collide && t > r.time_of_contact - 1e-9) break; if (o.touch_at(t, 2e-3) == 1) c.fail("naive/missed" + kk, fmt("the bodies overlap at the sampled time %g, but the answer is %s %g", t, r.is_collide ? "contact at" : "no contact, ", r.time_of_contact)); }
  if (r.is_collide) { double t = r.time_of_contact, k = n == 1 ? 0 : t * (n - 1); if (std::abs(k - std::round(k)) > 1e-6) c.fail("naive/time" + kk, fmt("time %g is none of the %zu samples", t, n)); if (o.touch_at(t, 2e-3) == -1) c.fail("naive/phantom/" + A.name + "-" + B.name + "/" + pose, fmt("contact reported at %g, but the bodies are apart then", t));
    if (!same(r.contact_tf1, at(*o.m1, t)) || !same(r.contact_tf2, at(*o.m2, t))) c.fail("naive/transform" + kk, fmt("the contact transforms are not those of the motions at %g", t)); c.count(1); }
  else { c.count(2); if (r.time_of_contact != 1) c.fail("naive/none" + kk, fmt("no contact, but time %g", r.time_of_contact)); }
}
static void precise(mc::C& c, const Obj& A, const Obj& B, const Mv& m, int bva, int bvb, const Rq& q0, int solver, const std::string& sn, const std::string& kk0, bool pick) {
  std::string kk = kk0; Rq q = q0; q.ccd_solver_type = (fcl::CCDSolverType)solver; auto *ga = geom(A, bva), *gb = geom(B, bvb); double V_ = speed(m, A, B);
  Rs r, r2, r3; auto m1 = mot(m.type, m.a1, m.b1), m2 = mot(m.type, m.a2, m.b2); double ret = fcl::continuousCollide(ga, m1.get(), gb, m2.get(), q, r), ret2 = fcl::continuousCollide(ga, m1.get(), gb, m2.get(), q, r2), ret3 = fcl::continuousCollide(ga, m.a1, m.b1, gb, m.a2, m.b2, q, r3);
  if (ret == -1) { c.fail(sn + "/unsupported" + kk, "the query is refused"); return; }
  if (!(ret == r.time_of_contact)) c.fail(sn + "/return" + kk, fmt("returned %g, result says %g", ret, r.time_of_contact)); if (!(ret >= 0 && ret <= 1)) c.fail(sn + "/range" + kk, fmt("time of contact %g", ret));
  if (ret2 != ret || r2.is_collide != r.is_collide) c.fail(sn + "/again" + kk, fmt("the first query says %d %.9g, the same again %d %.9g", r.is_collide, ret, r2.is_collide, ret2));
  if (ret3 != ret || r3.is_collide != r.is_collide) c.fail(sn + "/overload" + kk, fmt("with motions %d %.9g, with transforms %d %.9g", r.is_collide, ret, r3.is_collide, ret3));
  if (pick) forms(c, A, B, m, bva, bvb, q, r, ret, "/" + sn + kk);
  Oracle o{mot(m.type, m.a1, m.b1), mot(m.type, m.a2, m.b2), &A, &B, V_}; bool tr = m.type == 0; double te = solver == 1 ? (A.mesh || B.mesh ? 1e-5 : 1e-4) : 1e-6, tol = (m.type == 3 ? 100 : 25) * te * V_ + 2e-5 + (A.shape && B.shape ? 1e-4 : 0);
  // walk along the motion in steps that cannot jump over a contact of depth 1e-3
  double end = r.is_collide ? r.time_of_contact - 1e-6 : 1; std::vector<double> ts; int K = tr ? 24 : 40; for (int i = 0; i <= K; ++i) ts.push_back(end * i / K); if (r.is_collide) for (double d : {1e-3, 3e-3, 0.01, 0.03}) ts.push_back(end - d);
  double best = 1e300, tb = 0; for (double t : ts) { if (t < 0) continue; if (o.touch_at(t, 1e-3) == 1) { c.fail(sn + "/missed" + kk, fmt("the bodies overlap at %.6g, but the answer is %s %.9g", t, r.is_collide ? "contact at" : "no contact,", r.time_of_contact)); return; } Gap g = o.at_time(t); if (g.lo < best) { best = g.lo; tb = t; } }
  if (!r.is_collide && best < 2e-3 * V_ + 0.05) for (int i = -40; i <= 40; ++i) { double t = tb + i / 40.0 / K; if (t < 0 || t > end) continue; if (o.touch_at(t, 1e-3) == 1) { c.fail(sn + "/missed" + kk, fmt("the bodies overlap at %.6g, but the answer is no contact", t)); return; } }
  if (r.is_collide) { double t = r.time_of_contact; Gap g = o.at_time(t); if (!(g.lo <= tol)) c.fail(sn + "/early" + kk, fmt("contact reported at %.9g, but the bodies are %.6g apart then (tolerance %.3g)", t, g.lo, tol));
    if (!((r.contact_tf1.matrix() - at(*o.m1, t).matrix()).norm() < 1e-9) || !((r.contact_tf2.matrix() - at(*o.m2, t).matrix()).norm() < 1e-9)) c.fail(sn + "/transform" + kk, fmt("the contact transforms are not those of the motions at %g", t)); c.count(3); }
  else { c.count(4); if (r.time_of_contact != 1) c.fail(sn + "/none" + kk, fmt("no contact, but time %g", r.time_of_contact)); }
}
static void run(mc::C& c) {
  bool th = c.thorough(); int kind = c.choose(6);   // 0: naive shapes, 1: naive meshes, 2: advancement shapes, 3: advancement with meshes, 4: polynomial, 5: advancement towards an unbounded shape
  auto& S = shapes(); auto& Ms = meshes(); static const int SH[] = {0, 1, 2, 3, 4, 6, 8, 9, 5, 10}; static const int BVQ[] = {0, 2, 3, 7}; Obj A, B; int bva = 0, bvb = 0; Body ha, hb; Rq q; bool indep = false;
  auto shape = [&](int n) { return SH[c.choose(n)]; }; auto mesh = [&]() { static const int Q[] = {0, 1, 2, 3, 5, 7}; return Q[c.choose(th ? 6 : 3)]; };
  if (kind == 0 || kind == 2) { int i = shape(kind == 2 || th ? 6 : 3), j = shape(kind == 0 ? (th ? 9 : 5) : 6); if (kind == 0 && !th && j == 4) j = 8; A = obj(S[i]); B = obj(S[j]); ha = S[i].b; hb = S[j].b; if (kind == 2) indep = c.flag(); }
  else if (kind == 5) { int i = shape(6), j = 8 + c.choose(2); A = obj(S[i]); B = obj(S[j]); ha = S[i].b; hb = S[j].b; indep = true; }
  else if (kind == 4 || c.flag()) { int i = mesh(), j = mesh(); if (kind == 1 && !th && (i > 1 || j > 1)) return; bva = bvb = kind == 4 || th ? c.choose(NBV) : BVQ[c.choose(4)]; A = obj(Ms[i]); B = obj(Ms[j]); ha = Ms[i].hull; hb = Ms[j].hull; }
  else { int i = mesh(), j = shape(th ? 6 : 3); bva = th ? c.choose(NBV) : BVQ[c.choose(4)]; A = obj(Ms[i]); B = obj(S[j]); ha = Ms[i].hull; hb = S[j].b; if (kind == 3) indep = c.flag(); if (c.flag()) { if (B.shape->b.unbounded()) return; std::swap(A, B); std::swap(ha, hb); std::swap(bva, bvb); } }
  Mv m; uint64_t key; choose_motion(c, A, B, ha, hb, kind, m, key); q.ccd_motion_type = (fcl::CCDMotionType)m.type; q.gjk_solver_type = indep ? fcl::GST_INDEP : fcl::GST_LIBCCD; if (kind == 4 && m.type != 0) return;
  c.state(mc::mix(key, mc::mix(mc::mix(kind, A.shape ? 1 : 0), mc::hbits(A.rad * 3 + B.rad) + bva * 8 + bvb))); std::string nm = A.name + "-" + B.name; c.context(nm);
  if (c.verbose()) { c.note("%s from %s", A.name.c_str(), ts(m.a1).c_str()); c.note("  to %s", ts(m.b1).c_str()); c.note("%s from %s", B.name.c_str(), ts(m.a2).c_str()); c.note("  to %s", ts(m.b2).c_str()); c.note("motion: %s, bounding volumes %s %s, %s", MT[m.type], bvname(bva), bvname(bvb), indep ? "GST_INDEP" : "GST_LIBCCD"); }
  std::string ns = indep ? "/indep" : "/libccd", tag = A.mesh && B.mesh ? std::string("/meshes/") + bvname(bva) : A.mesh ? std::string("/mesh-shape/") + bvname(bva) + "/" + B.name + ns : B.mesh ? std::string("/shape-mesh/") + bvname(bvb) + "/" + A.name + ns : "/" + nm + ns; tag += std::string("/") + MT[m.type];
  if (kind == 5) { fcl::ContinuousCollisionResult<double> r; q.ccd_solver_type = fcl::CCDC_CONSERVATIVE_ADVANCEMENT; Oracle o{mot(m.type, m.a1, m.b1), mot(m.type, m.a2, m.b2), &A, &B, 0}; fcl::continuousCollide(A.shape->g.get(), m.a1, m.b1, B.shape->g.get(), m.a2, m.b2, q, r); for (int i = 0; i <= 40; ++i) { double t = i / 40.0; if (r.is_collide && t >= r.time_of_contact) break; if (o.touch_at(t, 1e-3) == 1) { c.fail("advancement/unbounded", fmt("the bodies overlap at %.6g, but the answer is %s %.9g", t, r.is_collide ? "contact at" : "no contact,", r.time_of_contact)); return; } } if (r.is_collide && o.at_time(r.time_of_contact).lo > 0.05) c.fail("advancement/unbounded", fmt("contact reported at %g, but the bodies are %g apart then", r.time_of_contact, o.at_time(r.time_of_contact).lo)); return; }
  if (kind <= 1) naive(c, A, B, m, bva, bvb, q, tag, std::string(MT[m.type]) + fmt("/%016llx", (unsigned long long)key)); else precise(c, A, B, m, bva, bvb, q, kind == 4 ? 3 : 1, kind == 4 ? "polynomial" : "advancement", tag, key % 8 == 3);
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "N10"; s.body = run; s.shard_depth = 4; s.hang_s = 20;
  s.counter_names = {"", "naive_contact", "naive_free", "contact", "free", "other_forms"};
  s.explanation = "Every pair of bodies, motion and algorithm of the stated pools is run through continuousCollide on the real code; the answer is compared with the exact distance of the two bodies along the same motions.";
  s.assumptions = {"overlap shallower than 1e-3 may be missed, and contact within 1e-6 of the end is not judged", "the path is judged at 25 to 41 instants per motion, and around the closest of them"};
  return mc::run(argc, argv, s);
}
