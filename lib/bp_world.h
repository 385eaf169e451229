// bp_world.h - a closed world of a few boxes in one broad-phase manager, driven by
// an alphabet of operations, with a reference model (a flag and a box per object).
#ifndef VERIF_BP_WORLD_H
#define VERIF_BP_WORLD_H
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <vector>
#include "mc.h"
#include "fcl/broadphase/broadphase_SSaP.h"
#include "fcl/broadphase/broadphase_SaP.h"
#include "fcl/broadphase/broadphase_bruteforce.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree_array.h"
#include "fcl/broadphase/broadphase_interval_tree.h"
#include "fcl/broadphase/broadphase_spatialhash.h"
#include "fcl/broadphase/detail/sparse_hash_table.h"
#include "fcl/geometry/shape/box.h"
#include "fcl/geometry/shape/halfspace.h"
#include "fcl/narrowphase/collision_object.h"

namespace bp {
using namespace fcl;
typedef CollisionObject<double> Obj;
typedef BroadPhaseCollisionManager<double> Mgr;
typedef Vector3<double> V3;

static const int NKINDS = 13;
inline const char* kind_name(int k) {
  static const char* n[] = {"bruteforce", "SSaP", "SaP", "IntervalTree", "SpatialHash/simple", "SpatialHash/sparse", "DynTree/default", "DynTree/morton1+always-rebuild",
    "DynTree/morton2+centroid-split", "DynTree/morton3", "DynTreeArray/default", "DynTreeArray/morton1+always-rebuild", "DynTreeArray/morton2+centroid-split"};
  return n[k];
}
inline const char* kind_family(int k) {
  static const char* n[] = {"bruteforce", "SSaP", "SaP", "IntervalTree", "SpatialHash", "SpatialHash", "DynTree", "DynTree", "DynTree", "DynTree", "DynTreeArray", "DynTreeArray", "DynTreeArray"};
  return n[k];
}
inline Mgr* make(int k) {
  switch (k) {
    case 0: return new NaiveCollisionManager<double>();
    case 1: return new SSaPCollisionManager<double>();
    case 2: return new SaPCollisionManager<double>();
    case 3: return new IntervalTreeCollisionManager<double>();
    case 4: return new SpatialHashingCollisionManager<double>(1.0, V3(-3, -3, -3), V3(3, 3, 3), 7);
    case 5: return new SpatialHashingCollisionManager<double, detail::SparseHashTable<AABB<double>, Obj*, detail::SpatialHash<double>>>(1.0, V3(-3, -3, -3), V3(3, 3, 3), 64);
    case 6: return new DynamicAABBTreeCollisionManager<double>();
    case 7: { auto* m = new DynamicAABBTreeCollisionManager<double>(); m->tree_init_level = 1; m->max_tree_nonbalanced_level = -10; return m; }
    case 8: { auto* m = new DynamicAABBTreeCollisionManager<double>(); m->tree_init_level = 2; m->max_tree_nonbalanced_level = -10; m->tree_topdown_level = 1; return m; }
    case 9: { auto* m = new DynamicAABBTreeCollisionManager<double>(); m->tree_init_level = 3; return m; }
    case 10: return new DynamicAABBTreeCollisionManager_Array<double>();
    case 11: { auto* m = new DynamicAABBTreeCollisionManager_Array<double>(); m->tree_init_level = 1; m->max_tree_nonbalanced_level = -10; return m; }
    default: { auto* m = new DynamicAABBTreeCollisionManager_Array<double>(); m->tree_init_level = 2; m->max_tree_nonbalanced_level = -10; m->tree_topdown_level = 1; return m; }
  }
}

struct Box3 { V3 lo, hi; };
inline bool overlaps(const Box3& a, const Box3& b) { for (int i = 0; i < 3; ++i) if (a.lo[i] > b.hi[i] || b.lo[i] > a.hi[i]) return false; return true; }
inline double boxdist(const Box3& a, const Box3& b) {
  double s = 0; for (int i = 0; i < 3; ++i) { double d = std::max(0.0, std::max(a.lo[i] - b.hi[i], b.lo[i] - a.hi[i])); s += d * d; } return std::sqrt(s);
}

// A manager under test with its objects; every object stays alive for the whole execution.
struct World {
  mc::C& c; int kind;
  std::vector<V3> half;                       // half extents
  std::vector<V3> pos;
  std::vector<std::unique_ptr<Obj>> objs;
  std::vector<char> reg;
  std::unique_ptr<Mgr> m;
  bool need_setup = false, eager = false;
  std::map<const Obj*, int> id;
  ~World() { m.reset(); }

  World(mc::C& c_, int kind_) : c(c_), kind(kind_) { m.reset(make(kind)); }
  int add(const V3& h, const V3& p) {
    std::shared_ptr<CollisionGeometry<double>> g(new Box<double>(2 * h));
    half.push_back(h); return add_obj(g, p);
  }
  int add_geom(std::shared_ptr<CollisionGeometry<double>> g, const V3& p) { half.push_back(V3(-1, -1, -1)); return add_obj(g, p); }
  int add_obj(std::shared_ptr<CollisionGeometry<double>> g, const V3& p) {
    objs.emplace_back(new Obj(g)); pos.push_back(p); reg.push_back(0);
    id[objs.back().get()] = (int)objs.size() - 1; place((int)objs.size() - 1, p); return (int)objs.size() - 1;
  }
  void place(int i, const V3& p) { pos[i] = p; objs[i]->setTranslation(p); objs[i]->computeAABB(); }
  Box3 box(int i) const { if (half[i][0] < 0) return Box3{objs[i]->getAABB().min_, objs[i]->getAABB().max_}; return Box3{pos[i] - half[i], pos[i] + half[i]}; }
  int idx(const Obj* o) { auto it = id.find(o); return it == id.end() ? -1 : it->second; }
  void setup() { m->setup(); need_setup = false; }
  void maybe() { if (eager) setup(); else need_setup = true; }
  void registerOne(int i) { m->registerObject(objs[i].get()); reg[i] = 1; maybe(); }
  void registerMany(const std::vector<int>& v) { std::vector<Obj*> o; for (int i : v) { o.push_back(objs[i].get()); reg[i] = 1; } m->registerObjects(o); maybe(); }
  void unregister(int i) { m->unregisterObject(objs[i].get()); reg[i] = 0; maybe(); }
  void clear() { m->clear(); std::fill(reg.begin(), reg.end(), 0); maybe(); }
  int nreg() const { int n = 0; for (char r : reg) n += r; return n; }
  uint64_t refhash() const { uint64_t h = kind * 31 + need_setup + 2 * eager; for (size_t i = 0; i < reg.size(); ++i) { h = mc::mix(h, reg[i]); if (reg[i]) for (int k = 0; k < 3; ++k) h = mc::mix(h, mc::hbits(pos[i][k])); } return h; }
};

// ---- the histories ----------------------------------------------------------
static const std::vector<V3> HALF = {V3(1, 1, 1), V3(0.5, 0.5, 0.5), V3(0.5, 1.5, 0), V3(1, 0.5, 0.5)};
// positions: at the origin, touching object 0/1 face to face, overlapping a bit, inside, partly out of / on / beyond the hashed scene
static const std::vector<V3> POS = {V3(0, 0, 0), V3(1.5, 0, 0), V3(0, 2.25, 0.25), V3(-2.75, 0.5, 0), V3(4, 4, 4), V3(0.25, 0, 2)};

struct Opts { int depth = 3, npos = 5, crowd_depth = 1, infinite_depth = 2; bool crowd = true, infinite = true; };
static const int NFILL = 112;

// Builds the world (3 managed boxes, 2 outside ones, possibly fillers), plays one history, returns the
// number of objects that may be managed (the outside ones come after them).
struct Driver {
  World w; int nmanaged = 0, first_ext = 0;
  Driver(mc::C& c, int kind, bool eager, const Opts& o, std::function<void(World&, int)> after = nullptr) : w(c, kind) {
    w.eager = eager;
    const int N = 3;
    // variant 0: three boxes; 1..3: in the company of more than a hundred others (which ones the
    // axis-selection heuristics see depends on how these are spread); 4: one of them is a half-space
    int variant = c.choose(1 + (o.crowd ? 3 : 0) + (o.infinite ? 1 : 0));
    if (!o.crowd && variant) variant = 4;
    int maxd = variant == 0 ? o.depth : variant == 4 ? o.infinite_depth : o.crowd_depth;
    int depth = c.choose(maxd) + 1;
    for (int i = 0; i < N; ++i) {
      if (variant == 4 && i == 2) w.add_geom(std::shared_ptr<CollisionGeometry<double>>(new Halfspace<double>(V3(0, 0, 1), -0.5)), POS[i]);
      else w.add(HALF[i], POS[i]);
    }
    int nf = variant >= 1 && variant <= 3 ? NFILL : 0;
    std::vector<int> fill;
    for (int f = 0; f < nf; ++f) {
      // all to the low side of x; of x and y; of all three axes (thin, far apart, never in contact with the boxes)
      double a = -20 - 0.5 * f;
      V3 p = variant == 1 ? V3(a, 40 + 0.5 * f, 60 + 0.25 * f) : variant == 2 ? V3(a, -30 - 0.25 * f, 60 + 0.25 * f) : V3(a, -30 - 0.25 * f, -60 - 0.25 * f);
      if (variant == 3 && f % 3 == 0) p = V3(0.1 * (f % 7), -0.1 * (f % 5), -100 - f);   // overlap the boxes in x and y, not in z
      if (variant == 1 && f % 4 == 0) p = V3(-30 - f, 0.1 * (f % 5), 0.1 * (f % 3));     // overlap the boxes in y and z
      fill.push_back(w.add(V3(0.125, 0.125, 0.125), p));
    }
    nmanaged = N + nf; first_ext = nmanaged;
    w.add(HALF[3], POS[0]); w.add(HALF[1], POS[1]);
    if (nf) { w.registerMany(fill); }
    int start = c.choose(3);
    c.note("manager %s, %s setup, %s, %d operations", kind_name(kind), eager ? "eager" : "lazy", variant == 0 ? "3 boxes" : variant == 4 ? "2 boxes and a half-space" : "3 boxes among 112 others", depth);
    if (start == 1) { for (int i = 0; i < N; ++i) w.registerOne(i); c.note("register 0,1,2 one by one"); }
    if (start == 2) { w.registerMany({0, 1, 2}); c.note("register {0,1,2} at once"); }
    const int NP = o.npos;
    if (after) after(w, nmanaged);
    for (int d = 0; d < depth; ++d) {
      struct Op { int k, i, p; }; std::vector<Op> ops;
      std::vector<int> un; int nr = 0; for (int i = 0; i < N; ++i) if (!w.reg[i]) un.push_back(i); else ++nr;
      for (int i : un) for (int p = 0; p < NP; ++p) { if (nr == 0 && i != un[0] && p != 0) continue; ops.push_back({0, i, p}); }
      if (un.size() > 1) ops.push_back({1, 0, 0});
      for (int i = 0; i < N; ++i) if (w.reg[i]) { ops.push_back({2, i, 0}); for (int p = 0; p < NP; ++p) if (w.pos[i] != POS[p]) ops.push_back({9, i, p}); for (int p = 0; p < NP; ++p) { if (w.pos[i] == POS[p]) continue; ops.push_back({3, i, p}); ops.push_back({4, i, p}); } }
      if (nr >= 2) for (int p = 0; p < NP; ++p) { ops.push_back({5, 0, p}); }
      if (nr >= 1) ops.push_back({6, 0, 0});
      if (!w.eager && w.need_setup) ops.push_back({8, 0, 0});
      const Op op = ops[c.choose((int)ops.size())];
      switch (op.k) {
        case 0: w.place(op.i, POS[op.p]); w.registerOne(op.i); c.note("register %d at position %d", op.i, op.p); break;
        case 1: w.registerMany(un); c.note("register all remaining at once"); break;
        case 2: w.unregister(op.i); c.note("unregister %d", op.i); break;
        case 3: w.place(op.i, POS[op.p]); w.m->update(w.objs[op.i].get()); c.note("move %d to %d, update(object)", op.i, op.p); break;
        case 4: w.place(op.i, POS[op.p]); w.m->update(); c.note("move %d to %d, update()", op.i, op.p); break;
        case 5: { std::vector<Obj*> v; for (int i = 0; i < N; ++i) if (w.reg[i]) { w.place(i, POS[(op.p + i) % NP]); v.push_back(w.objs[i].get()); } w.m->update(v); c.note("move all by rotation %d, update(list)", op.p); break; }
        case 6: w.clear(); c.note("clear"); break;
        case 9: w.place(op.i, POS[op.p]); w.unregister(op.i); c.note("move %d to %d, unregister it", op.i, op.p); break;
        case 8: w.setup(); c.note("setup"); break;
      }
      c.state(w.refhash() + variant);
      if (after) after(w, nmanaged);
    }
  }
};

// ---- callbacks -------------------------------------------------------------
struct PairLog { std::vector<std::pair<Obj*, Obj*>> v; size_t stop_at = 0; };
inline bool log_cb(Obj* a, Obj* b, void* d) { PairLog* l = (PairLog*)d; l->v.push_back({a, b}); return l->stop_at && l->v.size() >= l->stop_at; }
} // namespace bp
#endif
