// MC-BUILD: san=none big=distance,collision
// N05: distance() on triangle meshes: the smallest distance over all primitives, attained where the result says.
#include "mesh_world.h"
#include "fcl/narrowphase/distance.h"
#include "fcl/narrowphase/collision.h"
#include "signed.h"
using namespace mw; using mc::fmt;
static const double MG = 2e-4;
struct Truth { double lo = 1e300, hi = 1e300; std::vector<cx::Bounds> all; };
static double gap(const Body& b, const V& p) { Body q; q.pts = {p}; return cx::dist_bounds(b, q, V::Zero(), 1e-7).lo; }
// smallest distance of the primitives of A and B; pairs whose boxes are farther than the best upper bound cannot be it
static Truth truth(const std::vector<Body>& A, const std::vector<Body>& B) {
  Truth t; std::vector<Box3> a, b; for (auto& x : A) a.push_back(box_of(x)); for (auto& x : B) b.push_back(box_of(x));
  std::vector<std::pair<double, std::pair<int, int>>> o; for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < B.size(); ++j) o.push_back({far_dist(a[i], b[j]), {(int)i, (int)j}});
  std::sort(o.begin(), o.end());
  for (auto& x : o) { if (x.first > t.hi) break; auto d = cx::dist_bounds(A[x.second.first], B[x.second.second], V::Zero(), 1e-7); t.lo = std::min(t.lo, d.lo); t.hi = std::min(t.hi, d.hi); }
  return t;
}
static void judge(mc::C& c, const std::string& kk, const fcl::DistanceResult<double>& r, double ret, bool np, const Truth& t, double tol, const fcl::CollisionGeometry<double>* g1, const fcl::CollisionGeometry<double>* g2, const std::vector<Body>& A, const std::vector<Body>* T2, const Body* B) {
  if (t.hi < MG) { if (!(r.min_distance <= MG + tol)) c.fail("positive/" + kk, fmt("distance %.9g of overlapping geometries", r.min_distance)); }
  else if (t.lo > MG) { if (!(r.min_distance >= t.lo - tol && r.min_distance <= t.hi + tol)) c.fail("value/" + kk, fmt("distance %.9g, but it is within [%.9g, %.9g]", r.min_distance, t.lo, t.hi)); }
  else return;
  if (ret != r.min_distance) c.fail("return/" + kk, fmt("returned %.9g, result has %.9g", ret, r.min_distance));
  bool fw = r.o1 == g1 && r.o2 == g2, rv = B && r.o1 == g2 && r.o2 == g1;
  if (!fw && !rv) { c.fail("objects/" + kk, "the result names objects that are not the ones given to distance()"); return; }
  int p1 = fw ? r.b1 : r.b2, p2 = fw ? r.b2 : r.b1; 
  if (p1 < 0 || p1 >= (int)A.size() || (T2 && (p2 < 0 || p2 >= (int)T2->size()))) { c.fail("range/" + kk, fmt("the result names primitives %d and %d", p1, p2)); return; }
  if (!(t.lo > MG)) return;
  const Body& X = A[p1]; const Body& Y = T2 ? (*T2)[p2] : *B; auto d = cx::dist_bounds(X, Y, V::Zero(), 1e-7);
  if (!(d.lo <= r.min_distance + tol)) c.fail("primitive/" + kk, fmt("the named primitives %d and %d are %.9g apart, the distance is %.9g", p1, p2, d.lo, r.min_distance));
  if (!np) return;
  V a = r.nearest_points[fw ? 0 : 1], b = r.nearest_points[fw ? 1 : 0];
  double ga = gap(X, a), gb = gap(Y, b), g = (a - b).norm();
  c.note("%s: distance %.9g points %s %s gap %.9g off %.3g %.3g", kk.c_str(), r.min_distance, vs(a).c_str(), vs(b).c_str(), g, ga, gb);
  if (!(std::abs(g - r.min_distance) <= 4 * tol)) c.fail("points-gap/" + kk, fmt("nearest points %s and %s are %.9g apart, the distance is %.9g", vs(a).c_str(), vs(b).c_str(), g, r.min_distance));
  if (!(ga <= 4 * tol && gb <= 4 * tol)) c.fail("points-off/" + kk, fmt("nearest points %s, %s are %.3g and %.3g away from the named primitives", vs(a).c_str(), vs(b).c_str(), ga, gb));
}
// a result that holds something nearer is left alone, something farther is replaced, and error bounds are kept to
template <class F> static void history(mc::C& c, const std::string& kk, const Truth& t, double tol, fcl::DistanceRequest<double> q, F ask, const fcl::CollisionGeometry<double>* g1, const fcl::CollisionGeometry<double>* g2) {
  if (!(t.lo > 10 * MG + 4 * tol)) return; bool np = q.enable_nearest_points;
  { fcl::DistanceResult<double> r; r.min_distance = t.lo / 2; r.b1 = 77; r.b2 = 78; r.nearest_points[0] = V(1, 2, 3); double ret = ask(q, r); if (r.min_distance != t.lo / 2 || r.b1 != 77 || r.b2 != 78 || r.o1 || r.o2 || r.nearest_points[0] != V(1, 2, 3)) c.fail("keep/" + kk, fmt("a result of %.9g was replaced by %.9g, the distance is %.9g", t.lo / 2, r.min_distance, t.lo)); if (ret < t.lo / 2) c.fail("keep/" + kk, fmt("returned %.9g", ret)); }
  { fcl::DistanceResult<double> r; r.min_distance = t.hi * 1.5; r.b1 = 77; r.b2 = 78; ask(q, r); if (!(r.min_distance >= t.lo - tol && r.min_distance <= t.hi + tol) || r.b1 == 77 || r.b2 == 78 || !((r.o1 == g1 && r.o2 == g2) || (r.o1 == g2 && r.o2 == g1))) c.fail("replace/" + kk, fmt("a result of %.9g became %.9g, the distance is %.9g", t.hi * 1.5, r.min_distance, t.lo)); }
  for (int e = 0; e < 2; ++e) { q.rel_err = e ? 0.05 : 0.4; q.abs_err = e ? 0.6 : 0.1; fcl::DistanceResult<double> r; ask(q, r); if (!(r.min_distance >= t.lo - tol && r.min_distance <= std::min(t.hi + q.abs_err, t.hi * (1 + q.rel_err)) + tol)) c.fail("error-bound/" + kk, fmt("distance %.9g with errors of %g and %g allowed, but it is %.9g", r.min_distance, q.rel_err, q.abs_err, t.lo)); if (np && !(std::abs((r.nearest_points[0] - r.nearest_points[1]).norm() - r.min_distance) <= 4 * tol)) c.fail("error-points/" + kk, "the nearest points are not at the distance of the result"); }
}
static void mesh_mesh(mc::C& c) {
  auto& S = meshes(); bool th = c.thorough();
  int i = c.choose(8), j = c.choose(8); Tf t1, t2; uint64_t key; choose_tf(c, S[i].hull, S[j].hull, th ? 16 : 10, th ? 12 : 8, th ? 3 : 2, th ? 28 : 10, t1, t2, key);
  const Mesh &m1 = S[i], &m2 = S[j]; std::string nm = m1.name + "-" + m2.name; c.context(nm);
  if (c.verbose()) c.note("%s at %s\n%s at %s", m1.name.c_str(), ts(t1).c_str(), m2.name.c_str(), ts(t2).c_str());
  auto b1 = placed_all(m1, t1), b2 = placed_all(m2, t2); Truth t = truth(b1, b2); double tol = 1e-6 * (1 + t1.translation().norm());
  c.count(t.hi < MG ? 0 : t.lo > MG ? 1 : 2); c.state(mc::mix(key, i * 64 + j)); c.outcome(mc::mix(i * 64 + j, t.lo > MG));
  for (int k : {0, 2, 3, 4}) for (int np = 0; np < 2; ++np) {
    std::string kk = nm + "/" + bvname(k) + (np ? "/points" : "/plain");
    fcl::DistanceRequest<double> q; q.enable_nearest_points = np; fcl::DistanceResult<double> r; double ret = fcl::distance(m1.g[k].get(), t1, m2.g[k].get(), t2, q, r);
    judge(c, kk, r, ret, np, t, tol, m1.g[k].get(), m2.g[k].get(), b1, &b2, nullptr);
    if (np) { q.enable_signed_distance = true; fcl::DistanceResult<double> rs; double rets = fcl::distance(m1.g[k].get(), t1, m2.g[k].get(), t2, q, rs); judge_signed(c, nm + "/" + bvname(k), rs, rets, t.lo, t.hi, MG, tol, m1.g[k].get(), t1, m2.g[k].get(), t2, q.gjk_solver_type); q.enable_signed_distance = false; }
    history(c, kk, t, tol, q, [&](fcl::DistanceRequest<double>& qq, fcl::DistanceResult<double>& rr) { return fcl::distance(m1.g[k].get(), t1, m2.g[k].get(), t2, qq, rr); }, m1.g[k].get(), m2.g[k].get());
    // a result keeps the best of several queries: asking again, or asking about something farther, must not disturb it
    fcl::DistanceResult<double> r2 = r; fcl::distance(m1.g[k].get(), t1, m2.g[k].get(), t2, q, r2);
    if (np && t.lo > MG && !(std::abs(r2.min_distance - r.min_distance) < tol && (r2.nearest_points[0] - r.nearest_points[0]).norm() + (r2.nearest_points[1] - r.nearest_points[1]).norm() < 4 * tol)) c.fail("again/" + kk, fmt("asking twice changed the result from %.9g at %s, %s to %.9g at %s, %s", r.min_distance, vs(r.nearest_points[0]).c_str(), vs(r.nearest_points[1]).c_str(), r2.min_distance, vs(r2.nearest_points[0]).c_str(), vs(r2.nearest_points[1]).c_str()));
  }
}
static void mesh_shape(mc::C& c) {
  auto& S = meshes(); auto& H = shapes(); bool th = c.thorough();
  int i = c.choose(8), j = c.choose(th ? NALL : NBASIC + 2); bool indep = c.flag(); Tf t1, t2; uint64_t key; if (H[j].b.unbounded()) return;
  choose_tf(c, S[i].hull, H[j].b, th ? 12 : 6, th ? 12 : 8, th ? 3 : 2, th ? 28 : 6, t1, t2, key);
  const Mesh& m1 = S[i]; const Sh& s = H[j]; std::string nm = m1.name + "-" + s.name + (indep ? "/indep" : "/libccd"); c.context(nm);
  if (c.verbose()) c.note("%s at %s\n%s at %s", m1.name.c_str(), ts(t1).c_str(), s.name.c_str(), ts(t2).c_str());
  auto b1 = placed_all(m1, t1); Body B = placed(s.b, t2); std::vector<Body> bs{B}; Truth t = truth(b1, bs); double tol = 2e-5 * (1 + t1.translation().norm()) + (indep ? 5e-4 : 0);
  c.count(t.hi < MG ? 3 : t.lo > MG ? 4 : 5); c.state(mc::mix(key, 4096 + i * 64 + j * 2 + indep)); c.outcome(mc::mix(4096 + i * 64 + j, t.lo > MG));
  for (int k : {2, 3, 4}) for (int np = 0; np < 2; ++np) for (int sw = 0; sw < 2; ++sw) {
    std::string kk = nm + "/" + bvname(k) + (np ? "/points" : "/plain");
    fcl::DistanceRequest<double> q; q.enable_nearest_points = np; q.gjk_solver_type = indep ? fcl::GST_INDEP : fcl::GST_LIBCCD; fcl::DistanceResult<double> r;
    double ret = sw ? fcl::distance(s.g.get(), t2, m1.g[k].get(), t1, q, r) : fcl::distance(m1.g[k].get(), t1, s.g.get(), t2, q, r);
    judge(c, kk, r, ret, np, t, tol, m1.g[k].get(), s.g.get(), b1, nullptr, &B);
    if (np) { q.enable_signed_distance = true; fcl::DistanceResult<double> rs; const fcl::CollisionGeometry<double>*ga = sw ? s.g.get() : m1.g[k].get(), *gb = sw ? m1.g[k].get() : s.g.get(); const Tf &ta = sw ? t2 : t1, &tb = sw ? t1 : t2; double rets = fcl::distance(ga, ta, gb, tb, q, rs); judge_signed(c, nm + "/" + bvname(k), rs, rets, t.lo, t.hi, MG, tol, ga, ta, gb, tb, q.gjk_solver_type); }
    q.enable_signed_distance = false; history(c, kk, t, tol, q, [&](fcl::DistanceRequest<double>& qq, fcl::DistanceResult<double>& rr) { return sw ? fcl::distance(s.g.get(), t2, m1.g[k].get(), t1, qq, rr) : fcl::distance(m1.g[k].get(), t1, s.g.get(), t2, qq, rr); }, m1.g[k].get(), s.g.get());
  }
}
static void body(mc::C& c) { if (c.flag()) mesh_shape(c); else mesh_mesh(c); }
int main(int argc, char** argv) {
  mc::Spec s; s.property = "N05"; s.body = body; s.shard_depth = 5;
  s.explanation = "every ordered pair of catalogue meshes (the four bounding volume types that support it), and every catalogue mesh (the three types that support it) with every bounded catalogue shape (both solvers, both argument orders), in every relative rotation of a fixed list, placed along a fan of directions at gaps from overlap to far apart, under several common rigid motions, with and without nearest points; distance, named objects and primitives, and nearest points are compared with a two-sided oracle minimised over all primitives; mesh pairs are asked twice with one result; signed distances of overlapping geometries are compared with the depths of all contacts, and with results that already hold a smaller one";
  s.assumptions = {"distances below 2e-4 are only required to be reported as such", "planes and half spaces are excluded: distance() does not support them (recorded finding of N02)", "tolerance 2e-5 times the scale of the scene, plus 5e-4 for the built-in GJK"};
  s.counter_names = {"mesh_overlap", "mesh_apart", "mesh_close", "shape_overlap", "shape_apart", "shape_close"};
  return mc::run(argc, argv, s);
}
