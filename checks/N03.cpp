// MC-BUILD: san=none big=collision,distance
// N03: contacts and signed distances of overlapping primitive shapes.
#include "pairs.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
using namespace sw; using mc::fmt;
// how far B must move along n until it no longer overlaps A
static double way_out(const Body& a, const Body& b, const V& n) {
  if (!a.unbounded() && !b.unbounded()) return cx::width(a, b, n);
  if (a.unbounded() && b.unbounded()) return 1e300;
  const Body& u = a.unbounded() ? a : b; const Body& o = a.unbounded() ? b : a; V m = a.unbounded() ? n : V(-n);   // motion of the bounded body
  double al = m.dot(u.wn()), lo = -o.h(-u.wn()) - u.wd(), hi = o.h(u.wn()) - u.wd();
  if (al > 1 - 1e-9) return -lo;
  if (al < -1 + 1e-9 && u.kind == cx::PLANE) return hi;
  return 1e300;
}
static double least(const Body& a, const Body& b, V* best) {
  if (a.unbounded() || b.unbounded()) { const V n = a.unbounded() ? a.wn() : b.wn(); double x = way_out(a, b, n), y = way_out(a, b, -n); *best = x < y ? n : V(-n); return std::min(x, y); }
  std::vector<V> cand = directions(); for (int k = 0; k < 3; ++k) for (int s = -1; s <= 1; s += 2) { cand.push_back(s * a.R.col(k)); cand.push_back(s * b.R.col(k)); }
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int s = -1; s <= 1; s += 2) cand.push_back(s * V(a.R.col(i)).cross(V(b.R.col(j))));
  cand.push_back(b.T - a.T); cand.push_back(a.T - b.T);
  return cx::depth_upper(a, b, cand, best, 2);
}
static double outside(const Body& b, const V& p) { if (b.unbounded()) { double h = b.wn().dot(p) - b.wd(); return b.kind == cx::PLANE ? std::abs(h) : std::max(0.0, h); } Body q; q.pts = {p}; return cx::dist_bounds(b, q, V::Zero(), 1e-7).lo; }
static void body(mc::C& c) {
  auto& S = shapes(); bool th = c.thorough();
  Pose p = choose_pose(c, NALL, th ? 16 : 5, th ? 12 : 5, th ? 3 : 2);
  c.context(pair_key(p));
  if (p.b1.unbounded() && p.b2.unbounded()) return;
  cx::Bounds bd; int v = cx::verdict(p.b1, p.b2, 2e-4, &bd);
  c.count(v == 1 ? 0 : v == -1 ? 1 : 2); if (v != 1) return;
  c.state(mc::mix(mc::mix(mc::mix(p.i * 32 + p.j, p.r * 64 + p.d), p.g * 4 + p.base), p.indep));
  fcl::CollisionRequest<double> q; q.gjk_solver_type = p.indep ? fcl::GST_INDEP : fcl::GST_LIBCCD; q.enable_contact = true; q.num_max_contacts = 20;
  fcl::CollisionResult<double> r; fcl::collide(S[p.i].g.get(), p.t1, S[p.j].g.get(), p.t2, q, r);
  c.outcome(mc::mix(p.i * 32 + p.j, r.numContacts()));
  V bn; double most = least(p.b1, p.b2, &bn);
  double tol = 1e-3;
  std::string k = pair_key(p);
  double deepest = -1; V dn = V::Zero(); bool concentric = false;
  c.note("least way out %.9g along %s", most, vs(bn).c_str());
  for (size_t i = 0; i < r.numContacts(); ++i) {
    auto& t = r.getContact(i); c.note("contact %zu: normal %s depth %.9g pos %s", i, vs(t.normal).c_str(), t.penetration_depth, vs(t.pos).c_str());
    if (t.o1 != S[p.i].g.get() || t.o2 != S[p.j].g.get()) c.fail("order/" + k, "contact names the wrong objects");
    if (S[p.i].name == "sphere" && S[p.j].name == "sphere" && t.normal.isZero(0) && (p.t1.translation() - p.t2.translation()).norm() == 0) { concentric = true; continue; }   // documented: no normal for concentric spheres
    if (!(std::abs(t.normal.norm() - 1) < 1e-6)) c.fail("unit/" + k, fmt("normal %s has length %.9g", vs(t.normal).c_str(), t.normal.norm()));
    if (!(t.penetration_depth > -1e-9)) c.fail("sign/" + k, fmt("depth %.9g", t.penetration_depth));
    double w = way_out(p.b1, p.b2, t.normal);
    if (!(t.penetration_depth <= w + tol)) c.fail("over/" + k, fmt("contact depth %.9g, but moving the second body %.9g along the normal %s separates", t.penetration_depth, w, vs(t.normal).c_str()));
    if (t.penetration_depth > deepest) { deepest = t.penetration_depth; dn = t.normal; }
    double o1 = outside(p.b1, t.pos), o2 = outside(p.b2, t.pos), lim = t.penetration_depth + tol;
    if (!(o1 <= lim && o2 <= lim)) c.fail("pos/" + k, fmt("position %s is %.6g and %.6g outside the bodies, depth %.6g", vs(t.pos).c_str(), o1, o2, t.penetration_depth));
  }
  // how good the deepest contact is depends on the algorithm that serves the pair
  bool boxes = S[p.i].name == "box" && S[p.j].name == "box", it = iterative(p), mpr = it && !p.indep, smooth = S[p.i].curved || S[p.j].curved;
  if (concentric) return;
  // built-in EPA: exact for polytopes, at most 128 faces for curved shapes
  double slack = it && smooth ? 0.2 : 0, eps = !it ? 1e-4 : smooth ? 8e-3 : 1e-4;
  auto deep = [&](const Pose& p, double deepest, const V& dn, double most, std::string* m) -> const char* {
    double w = way_out(p.b1, p.b2, dn);
    if (!boxes && !mpr && !(deepest >= w * (1 - slack) - eps)) { *m = fmt("deepest contact %.9g along %s does not separate: the bodies overlap by %.9g", deepest, vs(dn).c_str(), w); return "under/"; }
    if (!mpr && !((boxes ? w : deepest) <= (boxes ? 1.06 : 1.0) * most + eps)) { *m = fmt("deepest contact %.9g along %s (way out %.9g), but %.9g is enough", deepest, vs(dn).c_str(), w, most); return "minimal/"; }
    return nullptr;
  };
  auto near_by = [&](int n) { Pose o = p; o.t2 = nudged(p, n, std::min(1e-3, 0.03 * most)); o.b2 = placed(S[p.j].b, o.t2); return o; };
  auto contact = [&](const Pose& o, double* d, V* n) { fcl::CollisionResult<double> r; fcl::collide(S[o.i].g.get(), o.t1, S[o.j].g.get(), o.t2, q, r); *d = -1; *n = V::UnitX(); for (size_t i = 0; i < r.numContacts(); ++i) if (r.getContact(i).penetration_depth > *d) { *d = r.getContact(i).penetration_depth; *n = r.getContact(i).normal; } };
  std::string m; const char* bad = deep(p, deepest, dn, most, &m);
  if (bad && it) {   // isolated degenerate pose?
    int right = 0;
    for (int n = 0; n < 4; ++n) { Pose o = near_by(n); V on; std::string om; double od, ol = least(o.b1, o.b2, &on); contact(o, &od, &on); if (!deep(o, od, on, ol, &om)) ++right; }
    if (right >= 2) c.fail("degenerate-epa/indep", k + ": " + bad + m + " (right in most nudged poses)");
  }
  if (bad) c.fail(bad + k, m);
  if (p.b1.unbounded() || p.b2.unbounded()) return;
  // signed distance: libccd's EPA has no iteration limit and takes practically forever on curved shapes, so only polytopes are given to it
  if (!p.indep && smooth) return;
  fcl::DistanceRequest<double> dq; dq.gjk_solver_type = q.gjk_solver_type; dq.enable_signed_distance = true; dq.enable_nearest_points = true;
  auto sd = [&](const Pose& p, V* a, V* b) { fcl::DistanceResult<double> dr; fcl::distance(S[p.i].g.get(), p.t1, S[p.j].g.get(), p.t2, dq, dr); *a = dr.nearest_points[0]; *b = dr.nearest_points[1]; return -dr.min_distance; };
  V a, b; double d = sd(p, &a, &b); c.note("signed distance %.9g points %s %s", -d, vs(a).c_str(), vs(b).c_str());
  double seps = std::max(eps, 1e-4), srel = boxes ? 1.06 : 1.0;
  c.count(3);
  auto judge = [&](const Pose& p, double d, double most, const V& a, const V& b, std::string* m) -> const char* {
    if (!(d > 0)) { *m = fmt("signed distance %.9g of overlapping bodies", -d); return "sd-sign/"; }
    if (!(d <= srel * most + seps)) { *m = fmt("signed distance %.9g, but %.9g is enough to separate", -d, most); return "sd-minimal/"; }
    if (p.indep) return nullptr;
    double l = (a - b).norm(); if (!(std::abs(l - d) < 1e-6 + 1e-3 * d)) { *m = fmt("signed distance %.9g, nearest points %s %s are %.9g apart", -d, vs(a).c_str(), vs(b).c_str(), l); return "sd-gap/"; }
    V n = (a - b) / l; double w2 = cx::width(p.b1, p.b2, n); if (!(d >= w2 - 1e-3)) { *m = fmt("signed distance %.9g along %s, but the bodies overlap by %.9g", -d, vs(n).c_str(), w2); return "sd-under/"; }
    double g1 = outside(p.b1, a), g2 = outside(p.b2, b); if (!(g1 < 1e-5 && g2 < 1e-5)) { *m = fmt("witness points %s %s are %.3g, %.3g off their bodies", vs(a).c_str(), vs(b).c_str(), g1, g2); return "sd-points/"; }
    return nullptr;
  };
  auto judge2 = [&](const Pose& p, double d, double most, double deepest, const V& a, const V& b, std::string* m) -> const char* {
    if (const char* x = judge(p, d, most, a, b, m)) return x;
    if (p.indep && !boxes && !(std::abs(d - deepest) <= 0.2 * deepest + 8e-3)) { *m = fmt("signed distance %.9g, deepest contact %.9g", -d, deepest); return "sd-contact/"; }
    return nullptr;
  };
  bad = judge2(p, d, most, deepest, a, b, &m);
  if (bad) {   // isolated degenerate pose?
    int right = 0;
    for (int n = 0; n < 4; ++n) { Pose o = near_by(n); V oa, ob, on; std::string om; double oc, od = sd(o, &oa, &ob), ol = least(o.b1, o.b2, &on); contact(o, &oc, &on); if (!judge2(o, od, ol, oc, oa, ob, &om)) ++right; }
    if (right >= 2) c.fail(std::string("sd-degenerate/") + (p.indep ? "indep" : "libccd"), k + ": " + bad + m + " (right in most nudged poses)");
    c.fail(bad + k, m);
  }
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "N03"; s.body = body; s.shard_depth = 5;
  s.explanation = "Exhaustive enumeration of ordered pairs of 20 shapes x relative rotations x solver x base frames x gaps x 26 directions. For overlapping poses (decided by a two-sided distance oracle) every contact of collide() and the signed distance of distance() are judged: objects named in order, unit normal, depth not negative, not more than the way the second body has to go along the normal, position within depth of both bodies; for closed-form pairs and the built-in EPA also that the deepest contact separates and is minimal; signed distance negative, minimal, consistent with its witness points (libccd) and with the contact (built-in).";
  s.counter_names = {"overlapping", "apart", "too_close_to_call", "signed_distances"};
  return mc::run(argc, argv, s);
}
