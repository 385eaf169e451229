// MC-BUILD: san=none big=distance,collision
// N08: the traversals behind the queries: front lists kept over a motion, self collision, queued distance, parent-relative volumes.
#include "mesh_world.h"
#include "bvh_world.h"
#include "fcl/narrowphase/distance.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/detail/traversal/collision_node.h"
#include "fcl/narrowphase/detail/traversal/collision/mesh_collision_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node.h"
using namespace mw; using mc::fmt; namespace fd = fcl::detail;
typedef std::vector<std::pair<int, int>> Pairs;
template <class BV> using Mo = fcl::BVHModel<BV>;
template <class BV> static std::unique_ptr<Mo<BV>> build(const std::vector<V>& v, const std::vector<fcl::Triangle>& t, const Tf& x, int split) {
  std::unique_ptr<Mo<BV>> m(new Mo<BV>()); m->bv_splitter.reset(new fd::BVSplitter<BV>(split == 0 ? fd::SPLIT_METHOD_MEAN : split == 1 ? fd::SPLIT_METHOD_MEDIAN : fd::SPLIT_METHOD_BV_CENTER)); std::vector<V> w; for (auto& p : v) w.push_back(x * p); m->beginModel(); m->addSubModel(w, t); m->endModel(); return m;
}
template <class BV> static void move(Mo<BV>& m, const std::vector<V>& v, const Tf& x, bool bottomup) { std::vector<V> w; for (auto& p : v) w.push_back(x * p); m.beginReplaceModel(); m.replaceSubModel(w); m.endReplaceModel(true, bottomup); }
static Pairs pairs_of(const fcl::CollisionResult<double>& r) { Pairs p; for (size_t i = 0; i < r.numContacts(); ++i) p.push_back({(int)r.getContact(i).b1, (int)r.getContact(i).b2}); std::sort(p.begin(), p.end()); return p; }
static std::string str(const Pairs& p) { std::string s = fmt("%d:", (int)p.size()); for (size_t i = 0; i < p.size() && i < 6; ++i) s += fmt(" %d-%d", p[i].first, p[i].second); return s; }
// every pair of leaves is below exactly one entry of the front list
template <class BV> static void leaves(const Mo<BV>& m, int b, std::vector<int>& o) { if (m.getBV(b).isLeaf()) o.push_back(b); else { leaves(m, m.getBV(b).leftChild(), o); leaves(m, m.getBV(b).rightChild(), o); } }
template <class BV> static std::string front_bad(const fd::BVHFrontList& f, const Mo<BV>& a, const Mo<BV>& b, const std::vector<std::pair<int, int>>* want) {
  std::map<std::pair<int, int>, int> n; for (auto& x : f) { if (!x.valid) return "an entry is not valid"; std::vector<int> p, q; leaves(a, x.left, p); leaves(b, x.right, q); for (int i : p) for (int j : q) if (++n[{i, j}] > 1) return fmt("leaves %d and %d are below two entries", i, j); }
  if (!want) { std::vector<int> p, q; leaves(a, 0, p); leaves(b, 0, q); for (int i : p) for (int j : q) if (!n.count({i, j})) return fmt("leaves %d and %d are below no entry", i, j); }
  return "";
}
// traversal nodes: oriented ones take placements, the others models that were moved
template <class BV, class NODE, bool ORIENTED> struct Way;
template <class BV, class NODE> struct Way<BV, NODE, true> {
  typedef NODE N; static bool init(NODE& n, Mo<BV>& a, const Tf& x, Mo<BV>& b, const Tf& y, const fcl::CollisionRequest<double>& q, fcl::CollisionResult<double>& r) { return fd::initialize(n, (const Mo<BV>&)a, x, (const Mo<BV>&)b, y, q, r); }
};
template <class BV, class NODE> struct Way<BV, NODE, false> {
  typedef NODE N; static bool init(NODE& n, Mo<BV>& a, const Tf&, Mo<BV>& b, const Tf&, const fcl::CollisionRequest<double>& q, fcl::CollisionResult<double>& r) { Tf i = Tf::Identity(), j = Tf::Identity(); return fd::initialize(n, a, i, b, j, q, r); }
};
static const std::vector<Tf>& places(int& n, bool th) {   // of the second mesh in the frame of the first: apart, near, touching by a little, deep, turned
  static std::vector<Tf> p; if (p.empty()) { p = {tf(fcl::Matrix3<double>::Identity(), V(6, 5, 4)), tf(rotations()[2], V(0.31, -0.12, 0.21)), tf(rotations()[1], V(0.9, 0.4, 0.3)), tf(rotations()[4], V(-0.35, 0.27, -0.18)), tf(fcl::Matrix3<double>::Identity(), V(0.05, 0.03, 1.2)), tf(rotations()[3], V(-0.8, -0.45, 0.1)), tf(rotations()[5], V(0.1, 0.6, -0.3)), tf(rotations()[3], V(1.2, 0.02, -0.05))}; }
  n = th ? 8 : 5; return p;
}
template <class BV, class W, bool ORIENTED> static void fronts(mc::C& c, const Mesh& A, const Mesh& B, const std::string& bv) {
  bool th = c.thorough(); int np; auto& P = places(np, th); int split = c.choose(th ? 3 : 1), depth = 3, limit = c.pick(std::vector<int>{1000000, 1, 3}); bool bottomup = ORIENTED ? false : c.flag(); std::string kk = bv + "/" + A.name + "-" + B.name + (limit > 9 ? "" : fmt("/limit%d", limit)), hist; c.context(kk);
  Tf base = tf(rotations()[7], V(0.5, -0.25, 0.75)); std::unique_ptr<Mo<BV>> a, b; fd::BVHFrontList front; typename W::N node; fcl::CollisionResult<double> res; uint64_t key = mc::mix(mc::hbits((double)split * 16 + (limit % 8)), bottomup);
  for (int s = 0; s < depth; ++s) {
    int k = c.choose(np); hist += fmt(" %d", k); key = mc::mix(key, k); Tf y = base * P[k], i = Tf::Identity();
    if (s == 0) { a = build<BV>(A.v, A.t, ORIENTED ? i : base, split); b = build<BV>(B.v, B.t, ORIENTED ? i : y, split); } else if (!ORIENTED) { move(*a, A.v, base, bottomup); move(*b, B.v, y, bottomup); }
    fcl::CollisionRequest<double> q(limit, c.verbose() || (k & 1)); res.clear(); if (!W::init(node, *a, base, *b, y, q, res)) { c.fail("init/" + kk, "the traversal could not be set up"); return; }
    fd::collide(&node, &front); Pairs got = pairs_of(res);
    typename W::N n2; fcl::CollisionResult<double> r2; W::init(n2, *a, base, *b, y, fcl::CollisionRequest<double>(1000000, q.enable_contact), r2); fd::collide(&n2); Pairs full = pairs_of(r2);
    c.outcome(mc::mix(s, mc::mix(full.empty(), got.size()))); c.count(full.empty() ? 0 : 1); if (c.verbose()) c.note("step %d place %d: direct %s, by the front list %s, front of %d", s, k, str(full).c_str(), str(got).c_str(), (int)front.size());
    { std::map<std::pair<int, int>, int> n; for (auto& x : full) ++n[x]; for (auto& x : got) if (n.count(x) && --n[x] < 0) { c.fail("front-twice/" + kk, fmt("after places%s, triangles %d and %d are reported too often", hist.c_str(), x.first, x.second)); break; } }
    if (got.size() != std::min(full.size(), (size_t)limit)) c.fail("front-number/" + kk, fmt("after places%s, the front list gives %s, a direct query %s", hist.c_str(), str(got).c_str(), str(full).c_str()));
    for (auto& x : got) if (!std::binary_search(full.begin(), full.end(), x)) { c.fail("front-extra/" + kk, fmt("after places%s, triangles %d and %d are reported but do not overlap", hist.c_str(), x.first, x.second)); break; }
    std::string f = front_bad(front, *a, *b, (const Pairs*)nullptr); if (!f.empty()) { c.fail("front-cover/" + kk, fmt("after places%s, ", hist.c_str()) + f); return; }
    c.state(mc::mix(key, mc::mix(s, got.size() * 1000 + front.size())));
  }
}
// a model against itself, whole or with a second mesh pushed into it, and deformed
template <class BV, class W, bool ORIENTED> static void self(mc::C& c, const Mesh& A, const Mesh& B, const std::string& bv) {
  int np; auto& P = places(np, true); int split = c.choose(3); bool use_front = c.flag(), bottomup = c.flag(); std::vector<V> v = A.v; std::vector<fcl::Triangle> t = A.t; for (auto& p : B.v) v.push_back(p); for (auto& x : B.t) t.push_back(fcl::Triangle(x[0] + A.v.size(), x[1] + A.v.size(), x[2] + A.v.size()));
  std::string kk = bv + "/" + A.name + "+" + B.name + (use_front ? "/front" : "/plain"); c.context(kk); fd::BVHFrontList front; std::unique_ptr<Mo<BV>> m; Tf i = Tf::Identity(); std::string hist;
  for (int s = 0; s < 2; ++s) {
    int k = c.choose(np); hist += fmt(" %d", k); std::vector<V> w = v; for (size_t j = A.v.size(); j < w.size(); ++j) w[j] = P[k] * w[j]; if (s == 0) m = build<BV>(w, t, i, split); else move(*m, w, i, bottomup);
    typename W::N n, n2; fcl::CollisionResult<double> r, r2; fcl::CollisionRequest<double> q(1000000, false); W::init(n, *m, i, *m, i, q, r); fd::selfCollide(&n, use_front ? &front : nullptr); Pairs got = pairs_of(r);
    W::init(n2, *m, i, *m, i, q, r2); fd::collide(&n2); Pairs full = pairs_of(r2); std::map<std::pair<int, int>, int> sum, g; for (auto& x : full) if (x.first != x.second) ++sum[{std::min(x.first, x.second), std::max(x.first, x.second)}];
    auto tri = [&](int j) { Body b; for (int z = 0; z < 3; ++z) b.pts.push_back(w[t[j][z]]); return b; };
    c.count(2); c.outcome(mc::mix(99, got.size())); c.state(mc::mix(mc::mix(split * 4 + use_front * 2 + bottomup, k), mc::mix(s, got.size() + 1000 * front.size())));
    if (c.verbose()) c.note("step %d place %d: every pair %s, self collision %s, front of %d", s, k, str(full).c_str(), str(got).c_str(), (int)front.size());
    for (auto& x : got) { if (x.first == x.second) { c.fail("self-same/" + kk, fmt("after places%s, triangle %d collides with itself", hist.c_str(), x.first)); break; } int z = ++g[{std::min(x.first, x.second), std::max(x.first, x.second)}]; if (z > 1) { c.fail("self-twice/" + kk, fmt("after places%s, triangles %d and %d are reported twice", hist.c_str(), x.first, x.second)); break; } if (!sum.count({std::min(x.first, x.second), std::max(x.first, x.second)}) && cx::verdict(tri(x.first), tri(x.second), 1e-6) < 0) { c.fail("self-extra/" + kk, fmt("after places%s, triangles %d and %d are reported but do not overlap", hist.c_str(), x.first, x.second)); break; } }
    for (auto& x : sum) if (!g.count(x.first) && cx::verdict(tri(x.first.first), tri(x.first.second), 1e-6) > 0) { c.fail("self-missing/" + kk, fmt("after places%s, the overlap of triangles %d and %d is not reported", hist.c_str(), x.first.first, x.first.second)); break; }
    if (use_front) { Pairs any; std::string f = front_bad(front, *m, *m, &any); if (!f.empty()) c.fail("self-front/" + kk, fmt("after places%s, ", hist.c_str()) + f); }
  }
}
template <class BV, class NODE> struct DistInit { static void init(NODE& n, Mo<BV>& a, const Tf& x, Mo<BV>& b, const Tf& y, const fcl::DistanceRequest<double>& q, fcl::DistanceResult<double>& r) { fd::initialize(n, (const Mo<BV>&)a, x, (const Mo<BV>&)b, y, q, r); } };
template <> struct DistInit<fcl::AABB<double>, fd::MeshDistanceTraversalNode<fcl::AABB<double>>> { static void init(fd::MeshDistanceTraversalNode<fcl::AABB<double>>& n, Mo<fcl::AABB<double>>& a, const Tf& x, Mo<fcl::AABB<double>>& b, const Tf& y, const fcl::DistanceRequest<double>& q, fcl::DistanceResult<double>& r) { Tf u = x, w = y; fd::initialize(n, a, u, b, w, q, r); } };
template <class BV, class NODE> static void queued(mc::C& c, const Mesh& A, const Mesh& B, const std::string& bv) {
  bool th = c.thorough(); int np; auto& P = places(np, true); int split = c.choose(th ? 3 : 1), k = c.choose(np), turn = c.choose(th ? 12 : 4); bool fl = c.flag(); std::string kk = bv + "/" + A.name + "-" + B.name; c.context(kk); Tf x = tf(rotations()[7], V(0.5, -0.25, 0.75)), y = x * P[k] * tf(rotations()[turn], V::Zero());
  double ref = -1; for (int qs : {0, 2, 3, 4, 5, 7, 16, 100}) {
    auto a = build<BV>(A.v, A.t, Tf::Identity(), split), b = build<BV>(B.v, B.t, Tf::Identity(), split); NODE n; fcl::DistanceRequest<double> q; fcl::DistanceResult<double> r; DistInit<BV, NODE>::init(n, *a, x, *b, y, q, r); fd::BVHFrontList front; fd::distance(&n, fl ? &front : nullptr, qs);
    if (qs == 0) { ref = r.min_distance; fcl::DistanceResult<double> d; fcl::distance(A.g[0].get(), x, B.g[0].get(), y, q, d); if (!(std::abs(d.min_distance - ref) <= 1e-7)) c.fail("queue-reference/" + kk, fmt("the traversal gives %.9g, distance() %.9g", ref, d.min_distance)); c.count(3); c.state(mc::mix(mc::mix(split * 100 + k, turn), fl)); c.outcome(mc::mix(55, ref > 0)); }
    else if (!(std::abs(r.min_distance - ref) <= 1e-9)) c.fail("queue/" + kk, fmt("distance %.9g with a queue of %d, %.9g without", r.min_distance, qs, ref));
  }
}
// volumes made relative to their parents recombine to what they were, and the collision query that works on them agrees
template <class BV> struct Frame; 
template <> struct Frame<fcl::OBB<double>> { static Tf of(const fcl::OBB<double>& b) { return tf(b.axis, b.To); } static V ext(const fcl::OBB<double>& b) { return b.extent; } };
template <> struct Frame<fcl::RSS<double>> { static Tf of(const fcl::RSS<double>& b) { return tf(b.axis, b.To); } static V ext(const fcl::RSS<double>& b) { return V(b.l[0], b.l[1], b.r); } };
template <class BV> static void recombine(mc::C& c, const std::string& kk, const Mo<BV>& rel, const Mo<BV>& abs, int b, const Tf& parent) {
  Tf f = parent * Frame<BV>::of(rel.getBV(b).bv), w = Frame<BV>::of(abs.getBV(b).bv); double e = (f.matrix() - w.matrix()).norm() + (Frame<BV>::ext(rel.getBV(b).bv) - Frame<BV>::ext(abs.getBV(b).bv)).norm(); if (!(e <= 1e-9)) { c.fail("relative/" + kk, fmt("volume %d recombines to one that is %.3g off", b, e)); return; }
  if (!rel.getBV(b).isLeaf()) { recombine(c, kk, rel, abs, rel.getBV(b).leftChild(), f); recombine(c, kk, rel, abs, rel.getBV(b).rightChild(), f); }
}
static void relative(mc::C& c, const Mesh& A, const Mesh& B) {
  bool th = c.thorough(); typedef fcl::OBB<double> O; int np; auto& P = places(np, true); int split = c.choose(3), k = c.choose(np), turn = c.choose(th ? 12 : 5), limit = c.pick(std::vector<int>{1000000, 1}); std::string kk = A.name + "-" + B.name; c.context(kk); Tf x = tf(rotations()[7], V(0.5, -0.25, 0.75)), y = x * P[k] * tf(rotations()[turn], V::Zero()), i = Tf::Identity();
  auto a = build<O>(A.v, A.t, i, split), b = build<O>(B.v, B.t, i, split), a0 = build<O>(A.v, A.t, i, split); fcl::CollisionResult<double> r, r2; fd::MeshCollisionTraversalNodeOBB<double> n, n2; fd::initialize(n, (const Mo<O>&)*a, x, (const Mo<O>&)*b, y, fcl::CollisionRequest<double>(1000000, false), r); fd::collide(&n); Pairs full = pairs_of(r);
  a->makeParentRelative(); b->makeParentRelative(); if (k == 0 && turn == 0) recombine(c, "OBB/" + A.name, *a, *a0, 0, i);
  if (k == 0 && turn == 0) { auto p = build<fcl::RSS<double>>(A.v, A.t, i, split), p0 = build<fcl::RSS<double>>(A.v, A.t, i, split); p->makeParentRelative(); recombine(c, "RSS/" + A.name, *p, *p0, 0, i); }
  fd::initialize(n2, (const Mo<O>&)*a, x, (const Mo<O>&)*b, y, fcl::CollisionRequest<double>(limit, false), r2); fd::collide2(&n2); Pairs got = pairs_of(r2); c.count(4); c.outcome(mc::mix(77, full.size())); c.state(mc::mix(mc::mix(split * 100 + k, turn), 5 + got.size()));
  if (c.verbose()) c.note("direct %s, with relative volumes %s", str(full).c_str(), str(got).c_str());
  if (limit > 9 ? got != full : got.size() != std::min(full.size(), (size_t)limit)) c.fail("relative-collide/" + kk, fmt("with relative volumes %s, direct %s", str(got).c_str(), str(full).c_str()));
}
template <class BV, class NODE, bool O> static void run(mc::C& c, int mode, const Mesh& A, const Mesh& B, const std::string& bv) { typedef Way<BV, NODE, O> W; if (mode == 0) fronts<BV, W, O>(c, A, B, bv); else self<BV, W, O>(c, A, B, bv); }
static void body(mc::C& c) {
  auto& S = meshes(); int mode = c.choose(4); int i = c.choose(8), j = c.choose(8); const Mesh &A = S[i], &B = S[j];
  if (mode == 3) { relative(c, A, B); return; }
  if (mode == 2) { switch (c.choose(4)) {
    case 0: queued<fcl::AABB<double>, fd::MeshDistanceTraversalNode<fcl::AABB<double>>>(c, A, B, "AABB"); break; case 1: queued<fcl::RSS<double>, fd::MeshDistanceTraversalNodeRSS<double>>(c, A, B, "RSS"); break;
    case 2: queued<fcl::kIOS<double>, fd::MeshDistanceTraversalNodekIOS<double>>(c, A, B, "kIOS"); break; case 3: queued<fcl::OBBRSS<double>, fd::MeshDistanceTraversalNodeOBBRSS<double>>(c, A, B, "OBBRSS"); } return; }
  switch (c.choose(8)) {
    case 0: run<fcl::AABB<double>, fd::MeshCollisionTraversalNode<fcl::AABB<double>>, false>(c, mode, A, B, "AABB"); break;
    case 1: run<fcl::OBB<double>, fd::MeshCollisionTraversalNodeOBB<double>, true>(c, mode, A, B, "OBB"); break;
    case 2: run<fcl::RSS<double>, fd::MeshCollisionTraversalNodeRSS<double>, true>(c, mode, A, B, "RSS"); break;
    case 3: run<fcl::kIOS<double>, fd::MeshCollisionTraversalNodekIOS<double>, true>(c, mode, A, B, "kIOS"); break;
    case 4: run<fcl::OBBRSS<double>, fd::MeshCollisionTraversalNodeOBBRSS<double>, true>(c, mode, A, B, "OBBRSS"); break;
    case 5: run<fcl::KDOP<double, 16>, fd::MeshCollisionTraversalNode<fcl::KDOP<double, 16>>, false>(c, mode, A, B, "KDOP16"); break;
    case 6: run<fcl::KDOP<double, 18>, fd::MeshCollisionTraversalNode<fcl::KDOP<double, 18>>, false>(c, mode, A, B, "KDOP18"); break;
    case 7: run<fcl::KDOP<double, 24>, fd::MeshCollisionTraversalNode<fcl::KDOP<double, 24>>, false>(c, mode, A, B, "KDOP24"); break;
  }
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "N08"; s.body = body; s.shard_depth = 5;
  s.explanation = "for every ordered pair of catalogue meshes and every bounding volume type: every history of three placements (apart, near, touching, deep, turned) through one front list, by moved placements or refitted models, with contact limits, compared after every step with a query without front list, and the front list must stay a partition of all pairs of leaves; every model of two meshes against itself, with and without front list, over every pair of deformations, compared with all pairs of its triangles; distance with every queue size of a list against the plain traversal; volumes made relative to their parents recombined and queried";
  s.assumptions = {"pairs of triangles of one mesh that are within 1e-6 of just touching may be reported or not"};
  s.counter_names = {"front_apart", "front_overlap", "self", "queued", "relative"};
  return mc::run(argc, argv, s);
}
