// mesh_world.h - catalogue of triangle meshes, as BVHModels of every bounding volume type and as oracle bodies
#ifndef VERIF_MESH_WORLD_H
#define VERIF_MESH_WORLD_H
#include "pairs.h"
#include "bvs.h"
#include "fcl/geometry/bvh/BVH_model.h"
namespace mw {
using namespace sw;
struct Mesh { std::string name; std::vector<V> v; std::vector<fcl::Triangle> t; std::vector<Body> b; Body hull; std::vector<std::shared_ptr<fcl::CollisionGeometry<double>>> g; };
enum { NBV = 8 };
inline const char* bvname(int k) { static const char* n[NBV] = {"AABB", "OBB", "RSS", "OBBRSS", "kIOS", "KDOP16", "KDOP18", "KDOP24"}; return n[k]; }
template <class BV> void model(Mesh& m) {
  auto g = std::make_shared<fcl::BVHModel<BV>>(); g->beginModel(); g->addSubModel(m.v, m.t); g->endModel(); g->computeLocalAABB(); m.g.push_back(g);
}
inline Mesh make(const std::string& name, const std::vector<V>& v, const std::vector<std::array<int, 3>>& t) {
  Mesh m; m.name = name; m.v = v;
  for (auto& x : t) { m.t.push_back(fcl::Triangle(x[0], x[1], x[2])); Body b; b.pts = {v[x[0]], v[x[1]], v[x[2]]}; m.b.push_back(b); }
  m.hull.pts = v;
  model<fcl::AABB<double>>(m); model<fcl::OBB<double>>(m); model<fcl::RSS<double>>(m); model<fcl::OBBRSS<double>>(m); model<fcl::kIOS<double>>(m);
  model<fcl::KDOP<double, 16>>(m); model<fcl::KDOP<double, 18>>(m); model<fcl::KDOP<double, 24>>(m);
  return m;
}
inline Mesh prism_mesh(int n, double r, double h) {
  std::vector<V> v; std::vector<std::array<int, 3>> t;
  for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i) v.push_back(V(r * std::cos(2 * M_PI * i / n + 0.1), r * std::sin(2 * M_PI * i / n + 0.1), k ? h / 2 : -h / 2));
  for (int i = 0; i < n; ++i) { int j = (i + 1) % n; t.push_back({i, j, n + j}); t.push_back({i, n + j, n + i}); }
  for (int i = 1; i + 1 < n; ++i) { t.push_back({0, i + 1, i}); t.push_back({n, n + i, n + i + 1}); }
  return make("prism", v, t);
}
inline const std::vector<Mesh>& meshes() {
  static std::vector<Mesh> m;
  if (m.empty()) {
    m.push_back(make("triangle", {V(-0.5, -0.25, 0), V(0.5, -0.25, 0.25), V(0, 0.5, 0.125)}, {{0, 1, 2}}));
    m.push_back(make("box", box_pts(1, 0.5, 0.75), {{0, 2, 1}, {1, 2, 3}, {4, 5, 6}, {5, 7, 6}, {0, 1, 4}, {1, 5, 4}, {2, 6, 3}, {3, 6, 7}, {0, 4, 2}, {2, 4, 6}, {1, 3, 5}, {3, 7, 5}}));
    m.push_back(make("two", {V(-1, 0, 0), V(-0.5, 0, 0.5), V(-1, 0.5, 0), V(1, 0, 0), V(0.5, 0.25, 0.5), V(1, 0.5, 0)}, {{0, 1, 2}, {3, 4, 5}}));
    m.push_back(make("tetra", {V(-0.5, -0.5, -0.25), V(0.75, -0.5, -0.25), V(-0.5, 0.75, -0.25), V(0, 0, 0.75)}, {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}}));
    m.push_back(make("strip", {V(-2, 0, 0), V(-2, 0.125, 0.05), V(-1, 0, 0.1), V(0, 0.125, 0), V(0.5, 0, -0.1), V(1, 0.125, 0), V(2, 0, 0), V(2, 0.25, 0)}, {{0, 1, 2}, {1, 3, 2}, {2, 3, 4}, {3, 5, 4}, {4, 5, 6}, {5, 7, 6}}));
    { std::vector<V> v; std::vector<std::array<int, 3>> t; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) v.push_back(V(0.5 * i - 0.5, 0.5 * j - 0.5, 0)); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { int a = 3 * i + j; t.push_back({a, a + 3, a + 1}); t.push_back({a + 1, a + 3, a + 4}); } m.push_back(make("grid", v, t)); }
    m.push_back(make("fan", {V(0, 0, 0.5), V(0.5, 0, 0), V(0.25, 0.5, 0.1), V(-0.25, 0.5, 0), V(-0.5, 0, -0.1), V(-0.25, -0.5, 0)}, {{0, 1, 2}, {0, 2, 3}, {0, 3, 4}, {0, 4, 5}, {0, 2, 1}}));   // the last repeats the first, turned over
    m.push_back(prism_mesh(7, 0.5, 1));
  }
  return m;
}
inline std::vector<Body> placed_all(const Mesh& m, const Tf& t) { std::vector<Body> r; for (auto& b : m.b) { Body q = placed(b, t); for (V& p : q.pts) p = q.R * p + q.T; q.R.setIdentity(); q.T.setZero(); r.push_back(q); } return r; }
inline Body flat(const Body& b, const Tf& t) { return placed(b, t); }
struct Box3 { V lo, hi; };
inline Box3 box_of(const Body& b) { Box3 r; for (int k = 0; k < 3; ++k) { r.hi[k] = b.h(V::Unit(k)); r.lo[k] = -b.h(-V::Unit(k)); } return r; }
inline bool far(const Box3& a, const Box3& b, double m) { for (int k = 0; k < 3; ++k) if (a.lo[k] > b.hi[k] + m || b.lo[k] > a.hi[k] + m) return true; return false; }
inline double far_dist(const Box3& a, const Box3& b) { V d; for (int k = 0; k < 3; ++k) d[k] = std::max(0.0, std::max(a.lo[k] - b.hi[k], b.lo[k] - a.hi[k])); return d.norm(); }
// relative pose of two bodies with a gap of g along a direction (g = 1e9: reference points coincide)
inline void choose_tf(mc::C& c, const Body& a, const Body& b0, int nrot, int ngap, int nbase, int ndir, Tf& t1, Tf& t2, uint64_t& key) {
  int r = c.choose(nrot), base = c.choose(nbase), gi = c.choose(ngap); double g = gaps()[gi]; int d = g > 1e8 ? 0 : c.choose(ndir) * (28 / ndir);
  Body b = b0; V n = directions()[d]; b.R = rotations()[r]; V t = V::Zero();
  if (g < 1e8) { if (!b.unbounded()) t = n * (a.h(n) + b.h(-n) + g); else { V m = b.R * b.n; double low = -a.h(-m); t = m * (low - g - b.d) + (n - n.dot(m) * m); } }
  Tf bs = base == 0 ? Tf(Tf::Identity()) : base == 1 ? tf(rotations()[7], V(1.5, -2.25, 0.75)) : tf(rotations()[8], V(-40, 30, 20));
  t1 = bs; t2 = bs * tf(b.R, t); key = mc::mix(mc::mix(r * 64 + d, gi), base);
}
inline double way_out(const Body& a, const Body& b, const V& n) {
  if (!b.unbounded()) return cx::width(a, b, n);
  V m = -n; double al = m.dot(b.wn()), lo = -a.h(-b.wn()) - b.wd(), hi = a.h(b.wn()) - b.wd();
  if (al > 1 - 1e-9) return -lo;
  if (al < -1 + 1e-9 && b.kind == cx::PLANE) return hi;
  return 1e300;
}
} // namespace mw
#endif
