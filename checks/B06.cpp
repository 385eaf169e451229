// MC-BUILD: san=none big=collision,distance
// B06: an octree in the broad phase: tree managers meet its cells, all managers and the default callbacks find what all pairs give.
#include "octree_world.h"
#include "bp_world.h"
#include "fcl/broadphase/default_broadphase_callbacks.h"
using namespace ow; using mc::fmt; typedef fcl::CollisionObject<double> Obj; typedef fcl::CollisionGeometry<double> Geo;
static const double MG = 1e-6; static const int NO = 8;
static std::shared_ptr<Geo> geo(int k) {
  switch (k) { case 0: return std::make_shared<fcl::Sphere<double>>(0.2); case 1: return std::make_shared<fcl::Box<double>>(0.3, 0.3, 0.3); case 2: return std::make_shared<fcl::Sphere<double>>(0.1); case 3: return std::make_shared<fcl::Box<double>>(2, 0.1, 0.1); case 4: return std::make_shared<fcl::Sphere<double>>(0.5); case 5: return std::make_shared<fcl::Capsule<double>>(0.05, 0.4); case 6: return std::make_shared<fcl::Box<double>>(0.01, 0.01, 0.01); default: return std::make_shared<fcl::Halfspace<double>>(V(0, 0, 1), 0.45); }
}
static V place(int k) { static const V p[] = {V(0.1, 0.15, 0.1), V(-0.6, -0.35, 0.1), V(0.9, 0.9, 0.9), V(0, 0.52, 0.02), V(5, 5.5, -5), V(-0.12, -0.15, -0.62), V(0.125, 0.375, 0.125), V(0, 0, 0)}; return p[k]; }
static const char* mname(int k) { return bp::kind_name(k); }
static bool is_tree(int k) { return k >= 6; }
struct Scene {
  const Tree* t; Tf tf2; int rot; std::vector<int> ids; std::vector<std::unique_ptr<Obj>> o; std::vector<std::shared_ptr<Geo>> g; std::unique_ptr<Obj> oct; std::vector<int> cls; std::map<const Obj*, int> id;
};
static void setup(mc::C& c, Scene& s, int masks) {
  bool th = c.thorough(); auto& T = trees(); s.t = &T[c.choose((int)T.size())]; s.rot = c.choose(th ? 6 : 4);
  s.tf2 = s.rot == 0 ? Tf(Tf::Identity()) : s.rot == 1 ? tf(M::Identity(), V(0.3, -0.1, 0.2)) : s.rot == 2 ? tf(rotations()[7], V(0.05, 0.1, -0.1)) : s.rot == 3 ? tf(rotations()[1], V(0, 0, 0)) : s.rot == 4 ? tf(rotations()[8], V(-1, 2, 0.5)) : tf(M::Identity(), V(-4.5, -5, 5));
  int m = c.choose(masks), pat = c.choose(3); static const int few[] = {1, 255, 127, 9, 34, 64, 128, 129, 22, 96, 13, 8}; int mask = masks == 255 ? m + 1 : few[m];
  for (int k = 0; k < NO; ++k) if (mask >> k & 1) { auto g = geo(k); int cl = pat == 0 ? OCC : pat == 1 ? (k % 3 == 0 ? FREE : k % 3 == 1 ? OCC : UNS) : (k & 1) ? UNS : OCC; g->cost_density = cl == OCC ? 1 : cl == UNS ? 0.5 : 0; s.g.push_back(g); s.o.emplace_back(new Obj(g, tf(M::Identity(), place(k)))); s.o.back()->computeAABB(); s.ids.push_back(k); s.cls.push_back(cl); s.id[s.o.back().get()] = (int)s.o.size() - 1; }
  s.oct.reset(new Obj(s.t->g, s.tf2)); s.oct->computeAABB();
}
static Body bounds(const Obj& o) { auto b = o.getAABB(); Body r; V lo = b.min_.cwiseMax(V::Constant(-1e5)), hi = b.max_.cwiseMin(V::Constant(1e5)); for (int i = 0; i < 8; ++i) r.pts.push_back(V(i & 1 ? hi[0] : lo[0], i & 2 ? hi[1] : lo[1], i & 4 ? hi[2] : lo[2])); return r; }
static const std::vector<int>& hits(const Scene& s, int o) {   // per cell, leaves then absent ones: 1 overlap, 0 open, -1 apart
  static std::map<std::pair<const Tree*, int>, std::vector<int>> memo; auto& v = memo[{s.t, s.rot * 16 + s.ids[o]}]; if (v.empty()) { Body b = bounds(*s.o[o]); Box3 bb = box_of(b); auto one = [&](const Cell& k) { Body q = placed(k.b, s.tf2); double m = MG + 1e-9 * k.size; v.push_back(far(box_of(q), bb, m) ? -1 : cx::verdict(q, b, m)); }; for (auto& k : s.t->leaf) one(k); for (auto& k : s.t->absent) one(k); v.push_back(-1); } return v;
}
static int cell_of(const Scene& s, const Obj& b, std::string& bad) {   // the cell a box handed to the callback stands for
  auto* g = dynamic_cast<const fcl::Box<double>*>(b.collisionGeometry().get()); if (!g) { bad = "the cell is no box"; return -1; } size_t n = s.t->leaf.size();
  for (size_t i = 0; i < n + s.t->absent.size(); ++i) { const Cell& k = i < n ? s.t->leaf[i] : s.t->absent[i - n]; if (std::abs(k.size - g->side[0]) > 1e-9 * k.size || (g->side - V::Constant(g->side[0])).norm() > 1e-9 * k.size || (s.tf2 * k.mid - b.getTranslation()).norm() > 1e-9 * (1 + k.size) || (s.tf2.linear() - b.getRotation()).norm() > 1e-9) continue; return (int)i; }
  bad = "the box is not that of a cell"; return -1;
}
struct Run { Scene* s; std::map<std::pair<int, int>, int> got; std::string bad; int calls = 0, stop = 1 << 30; bool whole = false; double best = 0, last = std::numeric_limits<double>::max(); };
static bool on_collide(Obj* a, Obj* b, void* d) {
  Run& r = *(Run*)d; ++r.calls; if (r.calls > r.stop && r.bad.empty()) r.bad = "a call after the callback asked to stop"; auto f = r.s->id.find(a), g = r.s->id.find(b);
  if (a == r.s->oct.get() || b == r.s->oct.get()) { r.whole = true; int o = a == r.s->oct.get() ? (g == r.s->id.end() ? -1 : g->second) : (f == r.s->id.end() ? -1 : f->second); if (o < 0) r.bad = "a foreign object"; else ++r.got[{o, -1}]; return r.calls >= r.stop; }
  if (f == r.s->id.end()) { if (r.bad.empty()) r.bad = "the first object is not one of the manager"; return true; } int k = cell_of(*r.s, *b, r.bad); if (k < 0) return true; ++r.got[{f->second, k}]; size_t n = r.s->t->leaf.size(); auto& gm = *b->collisionGeometry();
  double want = k < (int)n ? r.s->t->leaf[k].occ : r.s->t->g->getDefaultOccupancy(); if (std::abs(gm.cost_density - want) > 1e-6 && r.bad.empty()) r.bad = fmt("cell %d has the density %g, not %g", k, gm.cost_density, want);
  int cls = gm.isOccupied() ? OCC : gm.isFree() ? FREE : UNS, wc = k < (int)n ? r.s->t->leaf[k].cls : UNS; if (cls != wc && r.bad.empty()) r.bad = fmt("cell %d is of class %d, not %d", k, cls, wc); if (!b->getAABB().contain(b->getTranslation()) && r.bad.empty()) r.bad = "the object of a cell has no box around it"; return r.calls >= r.stop;
}
static void cells(mc::C& c) {   // collide() of a tree manager with an octree, cell by cell
  Scene s; setup(c, s, c.thorough() ? 255 : 12); int kind = 6 + c.choose(7); std::unique_ptr<bp::Mgr> m(bp::make(kind)); bool geom = c.choose(4) == 3; if (auto* d = dynamic_cast<fcl::DynamicAABBTreeCollisionManager<double>*>(m.get())) d->octree_as_geometry_collide = geom; else dynamic_cast<fcl::DynamicAABBTreeCollisionManager_Array<double>*>(m.get())->octree_as_geometry_collide = geom;
  std::string kk = std::string("collide/") + bp::kind_family(kind) + (s.rot < 2 || s.rot == 5 ? "/shifted/" : "/turned/") + (geom ? "whole" : s.t->name); c.context(kk); std::vector<Obj*> v; for (auto& o : s.o) v.push_back(o.get()); m->registerObjects(v); m->setup(); c.state(mc::mix(std::hash<std::string>()(kk), mc::mix(s.rot, s.o.size())));
  Run r; r.s = &s; m->collide(s.oct.get(), &r, on_collide); c.count(0); if (!r.bad.empty()) { c.fail(kk, std::string(mname(kind)) + ": " + r.bad); return; }
  if (geom) { for (size_t i = 0; i < s.o.size(); ++i) if (r.got[{(int)i, -1}] != (s.o[i]->getAABB().overlap(s.oct->getAABB()) ? 1 : 0)) { c.fail(kk, fmt("object %d was handed over %d times", s.ids[i], r.got[{(int)i, -1}])); return; } return; }
  if (r.whole) { c.fail(kk, "the octree was handed over as a whole"); return; } size_t n = s.t->leaf.size(); c.outcome(mc::mix(r.got.size(), s.t - &trees()[0]));
  for (size_t i = 0; i < s.o.size(); ++i) { auto& h = hits(s, (int)i); for (size_t k = 0; k + 1 < h.size(); ++k) { bool cand = s.cls[i] != FREE && (k >= n || s.t->leaf[k].cls != FREE); if (s.t->leaf.empty()) cand = s.cls[i] != FREE; auto f = r.got.find({(int)i, (int)k}); int g = f == r.got.end() ? 0 : f->second; bool loose = s.ids[i] == 7 && s.rot > 1; /* its endless box has no finite centre: more may be handed over */ if (!cand || h[k] < 0 ? (loose && cand ? g > 1 : g != 0) : h[k] > 0 ? g != 1 : g > 1) { c.fail(kk, std::string(mname(kind)) + fmt(": object %d and cell %zu (size %g, %s) were handed over %d times, they %s", s.ids[i], k, k < n ? s.t->leaf[k].size : s.t->absent[k - n].size, k < n ? "known" : "unknown", g, h[k] < 0 ? "are apart" : cand ? "overlap" : "are free")); return; } } }
  if (r.calls > 1) for (int st : {1, r.calls / 2, r.calls - 1}) if (st > 0) { Run q; q.s = &s; q.stop = st; m->collide(s.oct.get(), &q, on_collide); if (!q.bad.empty() || q.calls != st) { c.fail(kk + "/stop", fmt("asked to stop after %d calls, there were %d: ", st, q.calls) + q.bad); return; } }
}
struct Dist { Scene* s; double best = std::numeric_limits<double>::max(); int calls = 0, stop = 1 << 30; std::string bad; std::set<std::pair<int, int>> seen; };
static double gap(const Obj& a, const Obj& b) { fcl::DistanceRequest<double> q; q.gjk_solver_type = fcl::GST_INDEP; fcl::DistanceResult<double> r; return fcl::distance(&a, &b, q, r); }
static bool on_distance(Obj* a, Obj* b, void* d, double& m) {
  Dist& r = *(Dist*)d; ++r.calls; if (r.calls > r.stop) r.bad = "a call after the callback asked to stop"; if (b == r.s->oct.get() || a == r.s->oct.get()) { r.best = std::min(r.best, gap(*a, *b)); m = r.best; return r.calls >= r.stop || m <= 0; }
  auto f = r.s->id.find(a); if (f == r.s->id.end()) { r.bad = "the first object is not one of the manager"; return true; } int k = cell_of(*r.s, *b, r.bad); if (k < 0) return true; if (k >= (int)r.s->t->leaf.size() || r.s->t->leaf[k].cls != OCC) { r.bad = "a cell that is not occupied was measured"; return true; } if (!r.seen.insert({f->second, k}).second) r.bad = "a pair was measured twice"; r.best = std::min(r.best, gap(*a, *b)); m = r.best; return r.calls >= r.stop || m <= 0;
}
static double least(const Scene& s) { double best = std::numeric_limits<double>::max(); for (auto& k : s.t->leaf) if (k.cls == OCC) { Obj b(std::make_shared<fcl::Box<double>>(k.size, k.size, k.size), s.tf2 * tf(M::Identity(), k.mid)); for (auto& o : s.o) best = std::min(best, gap(*o, b)); } return best; }
static void measures(mc::C& c) {   // distance() of a tree manager to an octree
  Scene s; setup(c, s, c.thorough() ? 255 : 12); int kind = 6 + c.choose(7); std::unique_ptr<bp::Mgr> m(bp::make(kind)); bool geom = c.choose(4) == 3; if (auto* d = dynamic_cast<fcl::DynamicAABBTreeCollisionManager<double>*>(m.get())) d->octree_as_geometry_distance = geom; else dynamic_cast<fcl::DynamicAABBTreeCollisionManager_Array<double>*>(m.get())->octree_as_geometry_distance = geom;
  for (size_t i = 0; i < s.ids.size(); ++i) if (s.ids[i] == 7) { c.prune(); return; }   // distances to half spaces are not supported
  std::string kk = std::string("distance/") + bp::kind_family(kind) + (s.rot < 2 || s.rot == 5 ? "/shifted/" : "/turned/") + (geom ? "whole" : s.t->name); c.context(kk); std::vector<Obj*> v; for (auto& o : s.o) v.push_back(o.get()); m->registerObjects(v); m->setup(); c.state(mc::mix(std::hash<std::string>()(kk), mc::mix(s.rot, s.o.size())));
  Dist r; r.s = &s; m->distance(s.oct.get(), &r, on_distance); c.count(1); double want = least(s); if (!r.bad.empty()) { c.fail(kk, std::string(mname(kind)) + ": " + r.bad); return; } if (std::abs(r.best) > 1e300 != std::abs(want) > 1e300 || ((want > 1e-9 || r.best > 1e-9) && std::abs(want) < 1e300 && std::abs(r.best - want) > 1e-4)) { c.fail(kk, std::string(mname(kind)) + fmt(": the least distance found is %g, over all pairs it is %g", r.best, want)); return; }
  if (r.calls > 1) { Dist q; q.s = &s; q.stop = 1; m->distance(s.oct.get(), &q, on_distance); if (!q.bad.empty() || q.calls != 1) c.fail(kk + "/stop", "the query went on after the callback asked to stop"); }
}
static void defaults(mc::C& c) {   // the default callbacks on every manager: results of all pairs
  Scene s; setup(c, s, c.thorough() ? 60 : 8); for (int k : s.ids) if (k == 7) { c.prune(); return; } int kind = c.choose(bp::NKINDS), mode = c.choose(3), what = c.choose(6); std::unique_ptr<bp::Mgr> m(bp::make(kind)); std::vector<Obj*> v; for (auto& o : s.o) v.push_back(o.get());
  std::string kk = std::string("default/") + bp::kind_family(kind) + fmt("/%d/%d", mode, what); c.context(kk); c.state(mc::mix(std::hash<std::string>()(kk), mc::mix(s.rot, s.o.size()))); c.count(2);
  std::unique_ptr<bp::Mgr> other(bp::make(kind)); if (mode == 1) v.push_back(s.oct.get()); m->registerObjects(v); m->setup(); if (mode == 2) { std::vector<Obj*> w{s.oct.get()}; other->registerObjects(w); other->setup(); }
  // mode 0: query with the octree; 1: the octree is one of the objects; 2: manager against manager
  std::vector<std::pair<Obj*, Obj*>> pairs; for (auto& o : s.o) pairs.push_back({o.get(), s.oct.get()}); if (mode == 1) for (size_t i = 0; i < s.o.size(); ++i) for (size_t j = i + 1; j < s.o.size(); ++j) pairs.push_back({s.o[i].get(), s.o[j].get()});
  if (what < 4) {
    static const size_t lim[] = {1, 2, 100000, 100000}; fcl::DefaultCollisionData<double> d; d.request.num_max_contacts = lim[what]; d.request.enable_contact = what != 2; d.request.gjk_solver_type = fcl::GST_INDEP; if (what == 3) { d.request.enable_cost = true; d.request.num_max_cost_sources = 100000; }
    if (mode == 0) m->collide(s.oct.get(), &d, fcl::DefaultCollisionFunction<double>); else if (mode == 1) m->collide(&d, fcl::DefaultCollisionFunction<double>); else m->collide(other.get(), &d, fcl::DefaultCollisionFunction<double>);
    fcl::CollisionResult<double> all; auto q = d.request; q.num_max_contacts = 100000; for (auto& p : pairs) { fcl::CollisionResult<double> one; fcl::collide(p.first, p.second, q, one); for (size_t i = 0; i < one.numContacts(); ++i) all.addContact(one.getContact(i)); }
    size_t want = std::min(lim[what], all.numContacts()); c.outcome(mc::mix(want, what)); if (d.result.numContacts() != want) { c.fail(kk, std::string(mname(kind)) + fmt(": %zu contacts, all pairs have %zu", d.result.numContacts(), all.numContacts())); return; }
    if (d.done != (what != 3 && all.numContacts() >= lim[what])) { c.fail(kk, "done is wrong"); return; }
    if (d.done) { size_t n = d.result.numContacts(); if (!fcl::DefaultCollisionFunction<double>(s.o[0].get(), s.oct.get(), &d) || d.result.numContacts() != n) c.fail(kk, "the callback went on although it was done"); }
  } else {
    fcl::DefaultDistanceData<double> d; d.request.gjk_solver_type = fcl::GST_INDEP; d.request.enable_nearest_points = what == 5; if (mode == 0) m->distance(s.oct.get(), &d, fcl::DefaultDistanceFunction<double>); else if (mode == 1) m->distance(&d, fcl::DefaultDistanceFunction<double>); else m->distance(other.get(), &d, fcl::DefaultDistanceFunction<double>);
    double best = std::numeric_limits<double>::max(); for (auto& p : pairs) best = std::min(best, gap(*p.first, *p.second)); double got = d.result.min_distance; c.outcome(mc::mix(what, best > 0)); if (std::max(best, got) > 1e-9 && (std::abs(got) > 1e300) != (std::abs(best) > 1e300)) { c.fail(kk, std::string(mname(kind)) + fmt(": the distance is %g, over all pairs it is %g", got, best)); return; } if (std::max(best, got) > 1e-9 && best < 1e300 && std::abs(got - best) > 1e-4) { c.fail(kk, std::string(mname(kind)) + fmt(": the distance is %g, over all pairs it is %g", got, best)); return; }
    d.done = true; double x = 77; auto before = d.result.min_distance; if (!fcl::DefaultDistanceFunction<double>(s.o[0].get(), s.oct.get(), &d, x) || x != before) c.fail(kk, "the callback went on although it was done");
  }
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "B06"; s.body = [](mc::C& c) { int k = c.choose(3); if (k == 0) cells(c); else if (k == 1) measures(c); else defaults(c); }; s.shard_depth = 4; s.counter_names = {"collision queries", "distance queries", "default callback queries"};
  s.explanation = "All tree managers with sets of objects of all occupancy classes against every octree of the pool in every placement: the pairs of object and cell handed over are compared with an own walk over the cells, also when the callback stops early; the default callbacks on every manager with the octree as query, as object and in another manager are compared with all pairs.";
  s.assumptions = {"octrees, objects and placements come from finite pools", "pairs of bounding box and cell within 1e-6 of contact are not judged"};
  return mc::run(argc, argv, s);
}
