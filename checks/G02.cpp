// MC-BUILD: san=none
// G02: the tree of a BVHModel is sound for every volume type, split method and way of refitting.
#include "bvh_world.h"
#include "fcl/geometry/bvh/BVH_utility.h"
using namespace bw;
static const V P[] = {V(0, 0, 0), V(1, 0, 0), V(0, 1, 0), V(0, 0, 1), V(1, 1, 1), V(-0.5, 0.25, 0.75), V(2, -1, 0.5), V(3, 3, 3.1), V(2, 0, 0)};
static const int TR[][3] = {{0, 1, 2}, {1, 4, 3}, {5, 6, 7}, {0, 1, 8}, {2, 2, 2}, {3, 7, 3}, {6, 4, 0}};
template <class B> void run(mc::C& c) {
  using namespace fcl; bool th = c.thorough();
  int split = c.choose(3), kind = c.choose(2), n, np; std::vector<V> v; std::vector<Triangle> t;
  fcl::BVHModel<B> m; m.bv_splitter.reset(new detail::BVSplitter<B>(split == 0 ? detail::SPLIT_METHOD_MEAN : split == 1 ? detail::SPLIT_METHOD_MEDIAN : detail::SPLIT_METHOD_BV_CENTER));
  std::string how = fmt("%s split %d", bvs::Name<B>::get(), split);
  if (kind == 0) { n = 1 + c.choose(th ? 5 : 4); np = 7; how += " triangles"; for (int i = 0; i < n; ++i) { int k = c.choose(n <= 3 ? np : n == 4 ? (th ? 6 : 4) : 4); how += fmt(" %d", k); for (int j = 0; j < 3; ++j) v.push_back(P[TR[k][j]]); t.push_back(Triangle(3 * i, 3 * i + 1, 3 * i + 2)); } }
  else { n = 1 + c.choose(th ? 6 : 5); how += " points"; for (int i = 0; i < n; ++i) { int k = c.choose(n <= 3 ? (th ? 9 : 7) : n == 4 ? (th ? 5 : 4) : 3); how += fmt(" %d", k); v.push_back(P[k]); } }
  c.note("%s", how.c_str());
  m.beginModel(); int r = kind == 0 ? m.addSubModel(v, t) : m.addSubModel(v); if (r != BVH_OK || m.endModel() != BVH_OK) c.fail("build", how);
  auto chk = [&](const char* w, const std::vector<V>* prev) {
    std::string e = unsound(m, prev); c.count(0, 1); if (!e.empty()) c.fail(fmt("%s/%s/%s", w, bvs::Name<B>::get(), e.substr(0, e.find(':')).c_str()), how + ": " + e);
    // the root volume and the local box of the model
    m.computeLocalAABB(); for (auto& p : v) { if (bvs::out(m.aabb_local, p) > 1e-9) c.fail(fmt("localbox/%s", w), how + " leaves a vertex out of aabb_local"); if ((p - m.aabb_center).norm() > m.aabb_radius + 1e-9) c.fail(fmt("radius/%s", w), how + " aabb_radius is too small"); }
  };
  chk("built", nullptr);
  auto deform = [&](int k) { std::vector<V> w = v; for (size_t i = 0; i < w.size(); ++i) switch (k) { case 0: w[i] += V(0.3, -2, 1); break; case 1: w[i] = V(w[i][2] - 1, 2 * w[i][0], w[i][1] + 0.1 * i); break; case 2: w[i][2] = 0; break; case 3: w[i] = v[(i * 5 + 1) % v.size()]; break; case 4: w[i] = V(1, 2, 3); break; } return w; };
  int steps = c.choose(th || n <= 2 ? 3 : 2);   // 0: none, 1: one, 2: two
  std::vector<V> prev; bool updated = false;
  for (int s = 0; s < steps; ++s) {
    int upd = updated ? 1 : c.choose(2), d = c.choose(th ? 5 : s ? 2 : 5), mode = c.choose(3); bool refit = mode < 2, bu = mode == 1; how += fmt(" %s deform %d %s", upd ? "update" : "replace", d, refit ? (bu ? "bottom-up" : "top-down") : "rebuild"); c.note("%s", how.c_str());
    auto w = deform(d); prev = v; v = w;
    if (upd) { if (m.beginUpdateModel() != BVH_OK || m.updateSubModel(v) != BVH_OK || m.endUpdateModel(refit, bu) != BVH_OK) c.fail("update", how); updated = true; chk(fmt("update-%d", mode).c_str(), &prev); }
    else { if (m.beginReplaceModel() != BVH_OK || m.replaceSubModel(v) != BVH_OK || m.endReplaceModel(refit, bu) != BVH_OK) c.fail("replace", how); chk(fmt("replace-%d", mode).c_str(), nullptr); }
  }
}
// A model whose vertices are uncertain: after BVHExpand every volume holds all the displaced positions of its vertices.
template <class B> void expand(mc::C& c) {
  using namespace fcl; bool th = c.thorough(); int split = c.choose(3), kind = c.choose(2), n; std::vector<V> v; std::vector<Triangle> t;
  fcl::BVHModel<B> m; m.bv_splitter.reset(new detail::BVSplitter<B>(split == 0 ? detail::SPLIT_METHOD_MEAN : split == 1 ? detail::SPLIT_METHOD_MEDIAN : detail::SPLIT_METHOD_BV_CENTER));
  std::string how = fmt("%s split %d expanded", bvs::Name<B>::get(), split); n = 1 + c.choose(th ? 5 : 4);
  // triangles share their vertices, so that a triangle's number is not the number of its vertices
  if (kind == 0) { how += " triangles"; for (auto& p : P) v.push_back(p); for (int i = 0; i < n; ++i) { int k = c.choose(n <= 2 ? 7 : n == 3 ? 5 : 3); how += fmt(" %d", k); t.push_back(Triangle(TR[k][0], TR[k][1], TR[k][2])); } }
  else { how += " points"; for (int i = 0; i < n; ++i) { int k = c.choose(n <= 3 ? 7 : 4); how += fmt(" %d", k); v.push_back(P[k]); } }
  int var = c.choose(3); double r = c.pick(std::vector<double>{0, 0.5, 2}); how += fmt(" variance %d r %g", var, r); c.note("%s", how.c_str());
  m.beginModel(); int rc = kind == 0 ? m.addSubModel(v, t) : m.addSubModel(v); if (rc != BVH_OK || m.endModel() != BVH_OK) c.fail("build", how);
  std::vector<Variance3<double>> u(v.size());
  for (size_t i = 0; i < v.size(); ++i) { Matrix3<double> S = Matrix3<double>::Zero(); double a = 0.1 + 0.3 * (i % 3);
    if (var == 0) S.diagonal() = V(a, a, a); else if (var == 1) S.diagonal() = V(i % 2 ? 0 : 1, 0.25 * (i % 3), i == 4 ? 3 : 0.01); else S << 1, 0.5, 0, 0.5, 1 + a, 0.25, 0, 0.25, 0.5;
    u[i] = Variance3<double>(S); }
  BVHExpand(m, u.data(), r); c.count(1, 1);
  struct F { mc::C& c; fcl::BVHModel<B>& m; std::vector<Variance3<double>>& u; double r; const std::string& how;
    std::vector<int> walk(int id) { auto& nd = m.getBV(id); std::vector<int> w; if (nd.isLeaf()) { int p = nd.primitiveId(); if (m.num_tris) for (int k = 0; k < 3; ++k) w.push_back((int)m.tri_indices[p][k]); else w.push_back(p); } else { w = walk(nd.leftChild()); auto b = walk(nd.rightChild()); w.insert(w.end(), b.begin(), b.end()); }
      std::string key = bvs::Name<B>::get(); if (!bvs::finite(nd.bv)) c.fail("expand/finite/" + key, how + fmt(": node %d has a volume with non-finite numbers", id));
      for (int i : w) for (int k = 0; k < 3; ++k) for (int s = -1; s <= 1; ++s) { V q = m.vertices[i] + u[i].axis.col(k) * (s * r * u[i].sigma[k]); double o = bvs::out(nd.bv, q); if (!(o <= 1e-9 * (1 + q.norm()))) c.fail("expand/out/" + key, how + fmt(": node %d leaves vertex %d moved by %d times r sigma along axis %d out by %.3g", id, i, s, k, o)); }
      return w; } } f{c, m, u, r, how}; f.walk(0);
}
static void body(mc::C& c) {
  if (c.choose(2)) switch (c.choose(8)) { case 0: return expand<fcl::AABB<double>>(c); case 1: return expand<fcl::OBB<double>>(c); case 2: return expand<fcl::RSS<double>>(c); case 3: return expand<fcl::OBBRSS<double>>(c);
    case 4: return expand<fcl::kIOS<double>>(c); case 5: return expand<bvs::K16>(c); case 6: return expand<bvs::K18>(c); case 7: return expand<bvs::K24>(c); }
  switch (c.choose(8)) { case 0: run<fcl::AABB<double>>(c); break; case 1: run<fcl::OBB<double>>(c); break; case 2: run<fcl::RSS<double>>(c); break; case 3: run<fcl::OBBRSS<double>>(c); break;
    case 4: run<fcl::kIOS<double>>(c); break; case 5: run<bvs::K16>(c); break; case 6: run<bvs::K18>(c); break; case 7: run<bvs::K24>(c); break; }
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "G02"; s.body = body; s.shard_depth = 5;
  s.explanation = "Every mesh of up to four (thorough: five) triangles and every cloud of up to five (six) points from small pools that contain collinear, equal and overlapping primitives, for each of the eight volume types and three split methods, built and then replaced or updated up to twice (translation, shear, flattening, permutation, collapse to a point) with top-down refit, bottom-up refit or rebuild: every primitive is in exactly one leaf, children partition their parent, and each volume holds its primitives (and, after updates, their previous positions), judged from the published fields of the volumes. Models with uncertain vertices (clouds, and meshes whose triangles share vertices) are expanded with three families of variances and three radii: every volume holds every displaced position of each of its vertices.";
  s.counter_names = {"trees judged", "models expanded"};
  return mc::run(argc, argv, s);
}
