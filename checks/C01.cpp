// MC-BUILD: san=race big=collision,distance,continuous_collision
// C01: queries that run at the same time: no query writes anything that another could see, so that every interleaving gives the same results.
#include "octree_world.h"
#include "bp_world.h"
#include "race_rt.h"
#include <dlfcn.h>
#include "fcl/broadphase/default_broadphase_callbacks.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/continuous_collision.h"
#include "fcl/narrowphase/distance.h"
using namespace ow; using mc::fmt; typedef fcl::CollisionGeometry<double> Geo; typedef fcl::CollisionObject<double> Obj;
struct It { std::string name; std::shared_ptr<Geo> g; Body aim; int kind; };   // kind 0: shape, 1: mesh, 2: cloud, 3: octree
template <class BV> static void clouds(std::vector<It>& r, const char* n) { auto g = std::make_shared<fcl::BVHModel<BV>>(); g->beginModel(); g->addSubModel(meshes()[1].v); g->endModel(); g->computeLocalAABB(); r.push_back({std::string("cloud/") + n, g, meshes()[1].hull, 2}); }
static const std::vector<It>& items() {
  static std::vector<It> r; if (!r.empty()) return r;
  for (int i = 0; i < 13; ++i) r.push_back({shapes()[i].name, shapes()[i].g, shapes()[i].b, 0});
  r.push_back({"triangle", std::make_shared<fcl::TriangleP<double>>(meshes()[0].v[0], meshes()[0].v[1], meshes()[0].v[2]), meshes()[0].hull, 0}); r.back().g->computeLocalAABB();
  for (int k = 0; k < NBV; ++k) r.push_back({std::string("mesh/") + bvname(k), meshes()[1].g[k], meshes()[1].hull, 1});
  for (int k = 0; k < NBV; ++k) r.push_back({std::string("strip/") + bvname(k), meshes()[4].g[k], meshes()[4].hull, 1});
  for (auto& t : trees()) if (t.name == "few" || t.name == "mixed" || t.name == "one") { Body b; for (auto& l : t.leaf) if (l.cls == OCC) for (V p : l.b.pts) b.pts.push_back(p); r.push_back({"octree/" + t.name, t.g, b, 3}); }
  clouds<fcl::OBB<double>>(r, "OBB"); clouds<fcl::RSS<double>>(r, "RSS"); clouds<fcl::OBBRSS<double>>(r, "OBBRSS"); clouds<fcl::AABB<double>>(r, "AABB"); clouds<fcl::KDOP<double, 18>>(r, "KDOP18");
  return r;
}
static std::string where(void* pc) {   // function a write came from; only for a replay
  Dl_info d; if (!dladdr(pc, &d)) return "?"; char cmd[300]; std::snprintf(cmd, sizeof cmd, "addr2line -Cfpe /proc/%d/exe 0x%lx", (int)getpid(), (unsigned long)((uintptr_t)pc - 1 - (uintptr_t)d.dli_fbase)); FILE* f = popen(cmd, "r"); if (!f) return "?"; char b[2000]; std::string s; while (fgets(b, sizeof b, f)) s += b; pclose(f); return s;
}
// runs the query three times: first to pass once through what is set up by the first call, then recorded, then again
static void judge(mc::C& c, const std::string& key0, const std::function<uint64_t()>& q, const void* base = nullptr, size_t bn = 0) {
  std::string key = key0;
  c.context(key); uint64_t h0 = q(); race::begin(); uint64_t h1 = q(); race::end(); size_t n; const race::Access* w = race::writes(n); uint64_t h2 = q(); c.count(0); c.count(1, (int)std::min<uint64_t>(race::events(), 2000000000)); c.outcome(mc::mix(h1, n));
  if (n) { bool in = base; for (size_t i = 0; i < n; ++i) in = in && w[i].addr - (uintptr_t)base < bn; if (in) key += "/base"; std::string s = fmt("writes %zu shared places", n); if (c.verbose()) for (size_t i = 0; i < n && i < 8; ++i) c.note("%d bytes at %p from %s", (int)w[i].size, (void*)w[i].addr, where(w[i].pc).c_str()); c.fail("write/" + key, s); }
  if (h0 != h1 || h1 != h2) c.fail("state/" + key, "the same query gave another result");
}
static uint64_t hv(const V& v) { return mc::mix(mc::hbits(v[0]), mc::mix(mc::hbits(v[1]), mc::hbits(v[2]))); }
static uint64_t hash(const fcl::CollisionResult<double>& r, bool pts = true) { uint64_t h = r.numContacts(); for (size_t i = 0; i < r.numContacts(); ++i) { auto& k = r.getContact(i); h = mc::mix(h, mc::mix(mc::mix(k.b1, k.b2), pts ? mc::mix(hv(k.pos), mc::mix(hv(k.normal), mc::hbits(k.penetration_depth))) : 0)); } std::vector<fcl::CostSource<double>> s; const_cast<fcl::CollisionResult<double>&>(r).getCostSources(s); for (auto& k : s) h = mc::mix(h, mc::mix(hv(k.aabb_min), hv(k.aabb_max))); return h; }
static uint64_t hash(const fcl::DistanceResult<double>& r, bool pts = true) { return mc::mix(mc::mix(mc::hbits(r.min_distance), pts ? mc::mix(hv(r.nearest_points[0]), hv(r.nearest_points[1])) : 0), mc::mix(r.b1, r.b2)); }
static bool poses(mc::C& c, const It& A, const It& B, bool th, Tf& t1, Tf& t2) {
  int g = c.choose(3), d = c.choose(th ? 7 : 2) * 4 + 1, r = c.choose(th ? 6 : 2), base = c.choose(th ? 3 : 1); static const double G[] = {0.25, -0.2, 1e9}; V n = directions()[d]; Body b = B.aim; b.R = rotations()[r ? r + 5 : 0]; V t = V::Zero();
  if (G[g] < 1e8) { const Body& a = A.aim; if (!a.unbounded() && !b.unbounded()) t = n * (a.h(n) + b.h(-n) + G[g]); else if (a.unbounded() && b.unbounded()) t = n * G[g]; else if (a.unbounded()) { V m = a.n; double low = -b.h(-m); t = m * (a.d - low + G[g]) + (n - n.dot(m) * m); } else { V m = b.R * b.n; double low = -a.h(-m); t = m * (low - G[g] - b.d) + (n - n.dot(m) * m); } }
  Tf bs = base == 0 ? Tf(Tf::Identity()) : base == 1 ? tf(rotations()[7], V(1.5, -2.25, 0.75)) : tf(rotations()[8], V(-40, 30, 20)); t1 = bs; t2 = bs * tf(b.R, t); return true;
}
static void discrete(mc::C& c) {
  bool th = c.thorough(); auto& I = items(); const It &A = I[c.choose((int)I.size())], &B = I[c.choose((int)I.size())]; Tf t1, t2; poses(c, A, B, th, t1, t2); bool objects = c.flag(); if (A.kind == 3 && B.kind == 3 && A.name != "octree/one" && B.name != "octree/one") { c.prune(); return; } std::string nm = A.name + "-" + B.name; c.state(std::hash<std::string>()(nm));
  Obj o1(A.g, t1), o2(B.g, t2);
  for (int s = 0; s < 2; ++s) { auto sv = s ? fcl::GST_INDEP : fcl::GST_LIBCCD; std::string k = nm + (s ? "/indep" : "/libccd");
    for (int m = 0; m < 4; ++m) judge(c, "collide/" + k, [&] { fcl::CollisionRequest<double> q(m == 0 ? 1 : m == 1 ? 3 : 1000, m > 0, m > 1 ? 10 : 1, m > 1, m == 2); q.gjk_solver_type = sv; q.enable_cached_gjk_guess = m == 3; fcl::CollisionResult<double> r; if (objects) fcl::collide(&o1, &o2, q, r); else fcl::collide(A.g.get(), t1, B.g.get(), t2, q, r); return hash(r, m > 0);});
    if (A.aim.unbounded() || B.aim.unbounded()) continue;   // a distance from unbounded shapes is not offered
    for (int m = 0; m < 3; ++m) judge(c, "distance/" + k, [&] { fcl::DistanceRequest<double> q(m > 0, m == 2, 0.0, 0.0, m == 2 ? 0.05 : 1e-6, sv); fcl::DistanceResult<double> r; if (objects) fcl::distance(&o1, &o2, q, r); else fcl::distance(A.g.get(), t1, B.g.get(), t2, q, r); return m == 2 && s == 0 ? 0 : hash(r, m > 0 && r.min_distance > 0); });   // libccd's depth may depend on addresses, within the tolerance
  }
}
static void continuous(mc::C& c) {
  bool th = c.thorough(); auto& I = items(); const It &A = I[c.choose((int)I.size())], &B = I[c.choose((int)I.size())]; int solver = c.choose(3), mt = c.choose(4); Tf t1, t2; poses(c, A, B, false, t1, t2); (void)th;
  static const fcl::CCDSolverType ST[] = {fcl::CCDC_NAIVE, fcl::CCDC_CONSERVATIVE_ADVANCEMENT, fcl::CCDC_POLYNOMIAL_SOLVER}; static const char* SN[] = {"naive", "advance", "polynomial"};
  if (solver == 1 && (A.kind >= 2 || B.kind >= 2 || A.aim.unbounded() || B.aim.unbounded())) { c.prune(); return; }   // not supported
  if (solver == 2 && (A.kind != 1 || B.kind != 1 || A.name.substr(A.name.find('/')) != B.name.substr(B.name.find('/')))) { c.prune(); return; }
  Tf e1 = t1 * tf(mt ? rot(V(0, 0, 1), 0.4) : M(M::Identity()), V(0.3, 0.1, 0)), e2 = t1 * tf(mt ? rot(V(1, 0, 0), 0.3) * t2.linear() : M(t2.linear()), V(-0.1, 0.2, 0.1)); if (mt == 0) { e1.linear() = t1.linear(); e2.linear() = t2.linear(); }
  std::string k = std::string("continuous/") + SN[solver] + "/" + A.name + "-" + B.name; c.state(std::hash<std::string>()(k));
  judge(c, k, [&] { fcl::ContinuousCollisionRequest<double> q(10, 1e-3, (fcl::CCDMotionType)mt, fcl::GST_LIBCCD, ST[solver]); fcl::ContinuousCollisionResult<double> r; double t = fcl::continuousCollide(A.g.get(), t1, e1, B.g.get(), t2, e2, q, r); return mc::mix(mc::hbits(t), mc::mix(r.is_collide, mc::hbits(r.time_of_contact))); });
}
static bool cb_c(Obj* a, Obj* b, void* d) { uint64_t& h = *(uint64_t*)d; h += 1; return false; }
static bool cb_d(Obj* a, Obj* b, void* d, double& dist) { uint64_t& h = *(uint64_t*)d; h += 1; dist = std::min(dist, (a->getTranslation() - b->getTranslation()).norm()); return false; }
static void managers(mc::C& c) {
  int kind = c.choose(bp::NKINDS), lay = c.choose(4), op = c.choose(9); static const int N[] = {2, 6, 14, 130}; int n = N[c.choose(c.thorough() ? 4 : 3)];
  std::vector<std::unique_ptr<Obj>> o, p; auto g1 = std::make_shared<fcl::Box<double>>(0.5, 0.5, 0.5); auto g2 = std::make_shared<fcl::Sphere<double>>(0.3); g1->computeLocalAABB(); g2->computeLocalAABB();
  for (int i = 0; i < n; ++i) { V t = lay == 0 ? V(i * 0.4, 0, 0) : lay == 1 ? V(i % 3, i / 3 % 3, i / 9) * 0.6 : lay == 2 ? V(0.1 * i, 0.2 * (i % 2), 0) : V(i * 1.5, i * -0.5, 0); o.emplace_back(new Obj(i & 1 ? std::shared_ptr<Geo>(g1) : std::shared_ptr<Geo>(g2), Tf(tf(M::Identity(), t)))); p.emplace_back(new Obj(g1, Tf(tf(M::Identity(), t + V(0.1, 0.3, 0.2))))); }
  std::vector<Obj*> v, w; for (auto& x : o) v.push_back(x.get()); for (auto& x : p) w.push_back(x.get()); std::unique_ptr<bp::Mgr> m(bp::make(kind)), m2(bp::make(kind)); m->registerObjects(v); m->setup(); m2->registerObjects(w); m2->setup(); Obj far(g1, Tf(tf(M::Identity(), V(9, 9, 9)))), in(g1, Tf(tf(M::Identity(), V(0.2, 0.1, 0))));
  Obj oct(trees()[1].g, Tf(Tf::Identity())); oct.computeAABB();
  static const char* ON[] = {"collide(object)", "distance(object)", "collide()", "distance()", "collide(manager)", "distance(manager)", "collide(octree)", "distance(octree)", "getObjects"}; if ((op == 6 || op == 7) && kind < 6) { c.prune(); return; }
  std::string k = std::string("manager/") + bp::kind_family(kind) + "/" + ON[op]; c.state(mc::mix(mc::mix(kind, lay), mc::mix(op, n)));
  judge(c, k, [&] { uint64_t h = 0; switch (op) { case 0: m->collide(&in, &h, cb_c); m->collide(&far, &h, cb_c); break; case 1: m->distance(&in, &h, cb_d); m->distance(&far, &h, cb_d); break; case 2: m->collide(&h, cb_c); break; case 3: m->distance(&h, cb_d); break; case 4: m->collide(m2.get(), &h, cb_c); break; case 5: m->distance(m2.get(), &h, cb_d); break; case 6: m->collide(&oct, &h, cb_c); break; case 7: m->distance(&oct, &h, cb_d); break; default: { std::vector<Obj*> q; m->getObjects(q); h = q.size() + m->size() + m->empty(); } } return h; }, m.get(), sizeof(bp::Mgr));
}
static void defaults(mc::C& c) {   // the default callbacks, each query with its own data
  int kind = c.choose(bp::NKINDS); auto& I = items(); static const int set[] = {0, 1, 6, 15, 16, 17, 30}; std::vector<std::unique_ptr<Obj>> o; std::vector<Obj*> v; for (int i = 0; i < 7; ++i) { o.emplace_back(new Obj(I[set[i]].g, Tf(tf(rotations()[i % 5], V(0.4 * i, 0.1 * i, 0))))); v.push_back(o.back().get()); }
  std::unique_ptr<bp::Mgr> m(bp::make(kind)); m->registerObjects(v); m->setup(); Obj in(I[1].g, Tf(tf(M::Identity(), V(0.6, 0.2, 0)))); int op = c.choose(2); std::string k = std::string("manager/") + bp::kind_family(kind) + (op ? "/distance(object)" : "/collide(object)"); c.state(kind * 2 + op);
  judge(c, k, [&] { if (op) { fcl::DefaultDistanceData<double> d; m->distance(&in, &d, fcl::DefaultDistanceFunction<double>); return hash(d.result, false); } fcl::DefaultCollisionData<double> d; m->collide(&in, &d, fcl::DefaultCollisionFunction<double>); return hash(d.result, false); });
}
static void readers(mc::C& c) {   // what a geometry or an object can be asked
  auto& I = items(); const It& A = I[c.choose((int)I.size())]; Obj o(A.g, Tf(Tf::Identity())); const Obj& co = o; const Geo& g = *A.g; c.state(std::hash<std::string>()(A.name));
  judge(c, "read/" + A.name, [&] { uint64_t h = g.getNodeType() * 64 + g.getObjectType() * 8 + g.isOccupied() * 4 + g.isFree() * 2 + g.isUncertain(); if (A.kind == 0 && !A.aim.unbounded() && g.getNodeType() != fcl::GEOM_TRIANGLE) h = mc::mix(h, mc::mix(hv(g.computeCOM()), mc::mix(mc::hbits(g.computeVolume()), hv(g.computeMomentofInertia().col(0)))));
    if (A.kind == 1) h = mc::mix(h, mc::mix(hv(g.computeCOM()), mc::mix(mc::hbits(g.computeVolume()), hv(g.computeMomentofInertiaRelatedToCOM().col(0)))));
    if (A.kind == 3) { auto& t = static_cast<const fcl::OcTree<double>&>(g); h = mc::mix(h, t.toBoxes().size()); const void* n = nullptr; auto* root = t.getRoot(); for (unsigned i = 0; i < 8; ++i) if (t.nodeChildExists(root, i)) { n = t.getNodeChild(root, i); } h = mc::mix(h, n != nullptr); h = mc::mix(h, hv(t.getRootBV().min_)); }
    h = mc::mix(h, hv(co.getAABB().min_)); h = mc::mix(h, hv(co.getTranslation())); h = mc::mix(h, mc::hbits(co.getCostDensity())); return h; });
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "C01"; s.body = [](mc::C& c) { switch (c.choose(5)) { case 0: discrete(c); break; case 1: continuous(c); break; case 2: managers(c); break; case 3: defaults(c); break; default: readers(c); } }; s.shard_depth = 4; s.counter_names = {"queries", "memory accesses"};
  s.explanation = "Every ordered pair of 38 geometries (primitive shapes, convex polytopes, meshes and point clouds of all bounding volumes, octrees) in a set of poses, with collide() and distance() of geometries and of objects, both solvers and several requests, and continuousCollide() with four motions and three solvers; every manager in several scenes with each of its const queries and the default callbacks; the getters. In each query every access of FCL's code to memory is recorded, and classified as its own (stack, or allocated by the query) or shared. No query writes shared memory, so that the steps of queries running at the same time are independent: all interleavings are one trace up to commutation, and the one explored decides them all. Each query is also repeated, and must give the same result.";
  s.assumptions = {"code of libccd, octomap and the C++ runtime is not instrumented, except for memcpy, memmove and memset called from FCL", "reference counts are updated atomically", "each query has its own result, motions and callback data", "the first query has passed before: what is initialised once is guarded by the language", "distances from unbounded shapes, and conservative advancement of point clouds and octrees, are not offered and not asked for"};
  return mc::run(argc, argv, s);
}
