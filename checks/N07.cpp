// MC-BUILD: san=none big=collision,distance
// N07: what a collision request asks for is what its result holds: limits, costs, occupancy, results used again.
#include "mesh_world.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
#include "fcl/geometry/octree/octree.h"
using namespace mw; using mc::fmt;
typedef fcl::CollisionRequest<double> Rq; typedef fcl::CollisionResult<double> Rs; typedef fcl::CollisionGeometry<double> Geo; typedef fcl::CostSource<double> Cost;
static const double MG = 2e-3;
struct Op { const Mesh* m = nullptr; const Sh* s = nullptr; Geo* g = nullptr; std::string name; Body aim; };
static Op op(mc::C& c, bool th, int pos) {
  static const int si[] = {0, 1, 2, 9, 4, 6, 8, 3, 5, 7, 10}, mi[] = {1, 0, 2, 4, 3, 5, 6, 7}; Op o; int ns = th ? 11 : 7, nm = th ? 8 : 4, k = c.choose(ns + nm);
  if (k < ns) { o.s = &shapes()[si[k]]; o.g = o.s->g.get(); o.name = o.s->name; o.aim = o.s->b; }
  else { int j = mi[k - ns]; o.m = &meshes()[j]; o.name = "mesh-" + o.m->name; o.aim = o.m->hull; (void)pos; }
  return o;
}
static Box3 tight(const Body& b) { if (b.unbounded()) return Box3{V::Constant(-1e300), V::Constant(1e300)}; return box_of(b); }
struct Class { Geo* g; double d; Class(Geo* g, double v) : g(g), d(g->cost_density) { g->cost_density = v; } ~Class() { g->cost_density = d; } };
static std::string src(const Cost& k) { return vs(k.aabb_min) + " " + vs(k.aabb_max) + fmt(" density %g total %g", k.cost_density, k.total_cost); }
static bool eq(double a, double b) { return a == b || (a != a && b != b); }   // the cost of an unbounded flat box is not a number
static bool same(const Cost& a, const Cost& b) { return a.aabb_min == b.aabb_min && a.aabb_max == b.aabb_max && eq(a.cost_density, b.cost_density) && eq(a.total_cost, b.total_cost); }
static void pairs(mc::C& c) {
  bool th = c.thorough(); Op A = op(c, th, 0), B = op(c, th, 1); std::string nm;
  if (A.m || B.m) { int n = th ? 8 : 4, k = c.choose(n), k0 = (int)((A.m ? A.m - &meshes()[0] : 0) + (B.m ? B.m - &meshes()[0] : 0)); if (!th) k = (2 * k + k0) % 8; if (A.m) { A.g = A.m->g[k].get(); A.name += std::string("/") + bvname(k); } if (B.m) { B.g = B.m->g[k].get(); B.name += std::string("/") + bvname(k); } }
  nm = A.name + "-" + B.name; Geo *ga = A.g, *gb = B.g; std::shared_ptr<Geo> own; if (ga == gb) { if (A.m) { c.prune(); return; } c.prune(); return; }
  Tf t1, t2; uint64_t key; { static const int gi[] = {3, 2, 4, 8, 1}; int r = c.choose(th ? 5 : 2), g = gaps().size() ? gi[c.choose(th ? 5 : 3)] : 0, base = c.choose(th ? 3 : 2), d = c.choose(th ? 5 : 2) * 5; (void)key;
    Body b = B.aim; const Body& a = A.aim; V n = directions()[d]; b.R = rotations()[r ? r * 3 + 1 : 0]; V t = V::Zero(); double gg = gaps()[g];
    if (gg < 1e8) { if (!a.unbounded() && !b.unbounded()) t = n * (a.h(n) + b.h(-n) + gg); else if (a.unbounded() && b.unbounded()) t = n * gg; else if (a.unbounded()) { V m = a.n; double low = -b.h(-m); t = m * (a.d - low + gg) + (n - n.dot(m) * m); } else { V m = b.R * b.n; double low = -a.h(-m); t = m * (low - gg - b.d) + (n - n.dot(m) * m); } }
    Tf bs = base == 0 ? Tf(Tf::Identity()) : base == 1 ? tf(rotations()[7], V(1.5, -2.25, 0.75)) : tf(rotations()[8], V(-40, 30, 20)); t1 = bs; t2 = bs * tf(b.R, t); key = mc::mix(mc::mix(r, g), mc::mix(base, d)); }
  std::vector<Body> P = A.m ? placed_all(*A.m, t1) : std::vector<Body>{placed(A.s->b, t1)}, Q = B.m ? placed_all(*B.m, t2) : std::vector<Body>{placed(B.s->b, t2)};
  std::vector<Box3> bp, bq; for (auto& p : P) bp.push_back(tight(p)); for (auto& q : Q) bq.push_back(tight(q)); std::map<std::pair<int, int>, int> ver; int sure = 0, open = 0; bool inf = A.aim.unbounded() || B.aim.unbounded();
  for (size_t i = 0; i < P.size(); ++i) for (size_t j = 0; j < Q.size(); ++j) { int v = !inf && far(bp[i], bq[j], MG) ? -1 : P[i].unbounded() && !Q[j].unbounded() ? cx::verdict(Q[j], P[i], MG) : P[i].unbounded() ? 2 : cx::verdict(P[i], Q[j], MG); if (v == 2) { double s = cx::sep_unbounded(P[i], Q[j]); v = s > MG ? -1 : s < -MG ? 1 : 0; } ver[{(int)i, (int)j}] = v; sure += v == 1; open += v == 0; }
  c.count(sure ? 0 : open ? 2 : 1); if (c.verbose()) { c.note("%s at %s\n%s at %s", A.name.c_str(), ts(t1).c_str(), B.name.c_str(), ts(t2).c_str()); c.note("%d pairs overlap, %d are open", sure, open); }
  static const double dens[] = {1, 0.4, 0}; int ca = c.choose(3), cb = c.choose(3); bool indep = th ? c.flag() : (key & 1);
  Class ka(ga, dens[ca]), kb(gb, dens[cb]); c.context(nm + fmt(" class %d %d", ca, cb)); c.state(mc::mix(key, mc::mix(ca * 3 + cb, std::hash<std::string>()(nm)))); c.outcome(mc::mix(ca * 3 + cb, mc::mix(sure, open)));
  bool occ = ca == 0 && cb == 0, some = ca < 2 && cb < 2, mesh = A.m || B.m; double d12 = dens[ca] * dens[cb]; static const size_t NM[] = {1, 0, 2, 3, 100000}, NC[] = {100000, 2, 1};
  fcl::Contact<double> old(ga, gb, 77, 78, V(1, 2, 3), V(0, 0, 1), 0.5); Cost oldc(V(-1, -1, -1), V(1, 1, 1), 0.001);
  std::map<std::pair<int, int>, std::vector<Cost>> full;
  for (int pre = 0; pre < 2; ++pre) for (int ec = 0; ec < 2; ++ec) for (int cm = 0; cm < 6; ++cm) for (size_t nmax : NM) {   // cm: no cost, exact with three limits, approximate with two
    bool cost = cm > 0, approx = cm > 3; bool box1 = approx && (!A.m != !B.m); size_t nc = cm == 0 ? 5 : cm < 4 ? NC[cm - 1] : NC[(cm - 4) * 2];
    Rq q(nmax, ec, nc, cost, approx); q.gjk_solver_type = indep ? fcl::GST_INDEP : fcl::GST_LIBCCD; Rs r; if (pre) { r.addContact(old); r.addCostSource(oldc, 100000); }
    if (nmax == 0 && cm) continue; size_t ret = fcl::collide(ga, t1, gb, t2, q, r); c.count(3); std::string kk = nm + (ec ? "/contact" : "/plain") + (cm == 0 ? "" : approx ? "/approx" : "/cost") + (pre ? "/again" : "");
    if (c.verbose() && 0) c.note("%s max %zu costs %zu: %zu contacts %zu sources", kk.c_str(), nmax, nc, r.numContacts(), r.numCostSources());
    if (nmax == 0) { if (ret || r.numContacts() != (size_t)pre || r.numCostSources() != (size_t)pre) c.fail("zero/" + kk, "a request for no contact at all changed the result"); continue; }   // refused with a warning
    if (ret != r.numContacts()) { c.fail("return/" + kk, fmt("returned %zu, the result holds %zu contacts", ret, r.numContacts())); continue; }
    size_t add = r.numContacts() - pre; if (r.numContacts() < (size_t)pre) { c.fail("lost/" + kk, "the contact found before is gone"); continue; }
    if (r.numContacts() > std::max<size_t>(nmax, pre)) { c.fail("limit/" + kk, fmt("%zu contacts, but %zu were asked for", r.numContacts(), nmax)); continue; }
    if (pre && (r.getContact(0).b1 != 77 || r.getContact(0).o1 != ga || r.getContact(0).o2 != gb || r.getContact(0).pos != V(1, 2, 3))) { c.fail("changed/" + kk, "the contact found before was changed"); continue; }
    size_t room = nmax > (size_t)pre ? nmax - pre : 0; size_t most = occ ? sure + open : 0; if (!most && add) { c.fail("phantom/" + kk, fmt("%zu contacts, but nothing occupied overlaps", add)); continue; }
    if (occ && add < std::min<size_t>(room, sure)) { c.fail("few/" + kk, fmt("%zu contacts, but %d pairs overlap and %zu were asked for", add, sure, nmax)); continue; }
    std::map<std::pair<int, int>, int> got; bool bad = false;
    for (size_t x = pre; x < r.numContacts() && !bad; ++x) { auto& k = r.getContact(x); bool fw = k.o1 == ga && k.o2 == gb, rv = k.o1 == gb && k.o2 == ga; if (!fw && !rv) { c.fail("objects/" + kk, "a contact names other geometries"); bad = true; break; } int a = (int)(fw ? k.b1 : k.b2), b = (int)(fw ? k.b2 : k.b1); if (A.s) { if (a != fcl::Contact<double>::NONE) { c.fail("part/" + kk, "a contact names a primitive of a shape"); bad = true; break; } a = 0; } if (B.s) { if (b != fcl::Contact<double>::NONE) { c.fail("part/" + kk, "a contact names a primitive of a shape"); bad = true; break; } b = 0; }
      if (a < 0 || b < 0 || a >= (int)P.size() || b >= (int)Q.size() || ver.at({a, b}) < 0) { c.fail("wrong/" + kk, fmt("a contact of parts %d and %d, which are apart or do not exist", a, b)); bad = true; break; }
      int n = ++got[{a, b}]; if (mesh && n > (A.m && B.m && ec ? 2 : 1)) { c.fail("twice/" + kk, fmt("parts %d and %d are reported %d times", a, b, n)); bad = true; } }
    if (bad) continue;
    std::vector<Cost> g; r.getCostSources(g); if (pre) { bool has = false; for (size_t i = 0; i < g.size(); ++i) if (same(g[i], oldc)) { g.erase(g.begin() + i); has = true; break; } if (!has && g.size() < nc) { c.fail("cost-lost/" + kk, "the cost source found before is gone"); continue; } if (!has) continue; }
    if (!cost) { if (!g.empty()) c.fail("cost-unasked/" + kk, "cost sources are reported although none were asked for"); continue; }
    if (g.size() + pre > nc && !(pre && g.empty())) { c.fail("cost-limit/" + kk, fmt("%zu cost sources, but %zu were asked for", g.size() + pre, nc)); continue; }
    for (size_t i = 1; i < g.size(); ++i) if (g[i - 1].total_cost < g[i].total_cost) { c.fail("cost-order/" + kk, "the cost sources are not in descending order"); bad = true; break; } if (bad) continue;
    if (!some) { if (!g.empty()) c.fail("cost-free/" + kk, "a cost source is reported although one of the geometries is free: " + src(g[0])); continue; }
    if (!sure && !open && !(box1)) { if (!g.empty()) c.fail("cost-apart/" + kk, "nothing overlaps, but there is a cost source " + src(g[0])); continue; }
    auto& f = full[{approx, 0}]; if (nc > 1000) { if (f.empty()) f = g; else { bool eq = f.size() == g.size(); for (size_t i = 0; eq && i < g.size(); ++i) eq = same(f[i], g[i]); if (!eq) { c.fail("cost-depends/" + kk, "the cost sources depend on what contacts are asked for"); continue; } } }
    else if (!pre) { size_t want = std::min(nc, f.size()); bool eq = g.size() == want; for (size_t i = 0; eq && i < want; ++i) eq = ::eq(g[i].total_cost, f[i].total_cost); if (!eq) { c.fail("cost-best/" + kk, "the cost sources kept are not those of the highest cost"); continue; } continue; }
    else continue;
    for (auto& y : g) { double vol = 1; for (int z = 0; z < 3; ++z) vol *= y.aabb_max[z] - y.aabb_min[z]; if (!(std::abs(y.cost_density - d12) < 1e-12) || (!inf && !(std::abs(y.total_cost - vol * d12) <= 1e-9 * (1 + std::abs(vol))))) { c.fail("cost-value/" + kk, src(y) + fmt(", expected density %g", d12)); bad = true; break; } for (int z = 0; z < 3; ++z) if (!(y.aabb_min[z] <= y.aabb_max[z])) bad = true; if (bad) { c.fail("cost-box/" + kk, "the box of a cost source is turned inside out: " + src(y)); break; } }
    if (bad) continue;
    auto fits = [&](const Cost& y, int i, int j) { for (int z = 0; z < 3; ++z) { double lo = std::max(bp[i].lo[z], bq[j].lo[z]), hi = std::min(bp[i].hi[z], bq[j].hi[z]), e = 1e-6 * (1 + std::min(std::abs(lo), 1e3) + std::min(std::abs(hi), 1e3)); if (y.aabb_min[z] > lo + e || y.aabb_max[z] < hi - e) { if (!(P[i].unbounded() || Q[j].unbounded())) return false; } 
        if (box1) continue; double sl = 0.8 * std::max(A.s && !P[i].unbounded() ? (bp[i].hi - bp[i].lo).maxCoeff() : 0, B.s && !Q[j].unbounded() ? (bq[j].hi - bq[j].lo).maxCoeff() : 0); const Box3& in = A.m ? bp[i] : B.m ? bq[j] : bp[i]; bool m2 = A.m && B.m; if (!P[i].unbounded() && !Q[j].unbounded() && (y.aabb_min[z] < lo - e - (m2 ? 0 : sl) || y.aabb_max[z] > hi + e + (m2 ? 0 : sl))) return false; if ((A.m || B.m) && (y.aabb_min[z] < in.lo[z] - e || y.aabb_max[z] > in.hi[z] + e)) return false; } return true; };
    if (box1) { if (g.size() > 1 || (sure && g.empty())) { c.fail("cost-approx/" + kk, fmt("%zu cost sources, one box was expected", g.size())); continue; } if (!g.empty()) for (auto& v : ver) if (v.second == 1 && !fits(g[0], v.first.first, v.first.second)) { c.fail("cost-cover/" + kk, src(g[0]) + fmt(" does not hold the overlap of parts %d and %d", v.first.first, v.first.second)); break; } continue; }
    for (auto& y : g) { bool ok = false; for (auto& v : ver) ok = ok || (v.second >= 0 && fits(y, v.first.first, v.first.second)); if (!ok) { c.fail("cost-foreign/" + kk, src(y) + " is no overlap of boxes"); bad = true; break; } } if (bad) continue;
    for (auto& v : ver) if (v.second == 1) { bool ok = false; for (auto& y : g) ok = ok || fits(y, v.first.first, v.first.second); if (!ok) { c.fail("cost-missing/" + kk, fmt("no cost source for parts %d and %d", v.first.first, v.first.second)); break; } }
  }
}
template <class BV> static std::shared_ptr<Geo> cloud(int n) { auto g = std::make_shared<fcl::BVHModel<BV>>(); g->beginModel(); std::vector<V> p = {V(0, 0, 0), V(0.5, 0, 0), V(0, 0.5, 0), V(0, 0, 0.5), V(0.3, 0.3, 0.3)}; p.resize(n); g->addSubModel(p); g->endModel(); g->computeLocalAABB(); return g; }
static std::shared_ptr<Geo> cloud(int k, int n) { switch (k) { case 0: return cloud<fcl::AABB<double>>(n); case 1: return cloud<fcl::OBB<double>>(n); case 2: return cloud<fcl::RSS<double>>(n); case 3: return cloud<fcl::OBBRSS<double>>(n); case 4: return cloud<fcl::kIOS<double>>(n); case 5: return cloud<fcl::KDOP<double, 16>>(n); case 6: return cloud<fcl::KDOP<double, 18>>(n); default: return cloud<fcl::KDOP<double, 24>>(n); } }
static std::shared_ptr<Geo> some_octree() { auto t = std::make_shared<octomap::OcTree>(0.25); t->updateNode(octomap::point3d(0.1f, 0.1f, 0.1f), 2.f); auto g = std::make_shared<fcl::OcTree<double>>(t); g->computeLocalAABB(); return g; }
static void clouds(mc::C& c) {   // models without triangles are refused, not walked
  int k = c.choose(8), n = 1 + c.choose(5), w = c.choose(5); bool swap = c.flag(); int what = c.choose(4); auto a = cloud(k, n); std::shared_ptr<Geo> b = w == 0 ? cloud(k, 4) : w == 1 ? meshes()[1].g[k] : w == 2 ? shapes()[0].g : w == 3 ? shapes()[1].g : std::shared_ptr<Geo>(some_octree());
  c.context(fmt("cloud %s %d", bvname(k), what)); Tf t1 = c.flag() ? Tf(tf(rotations()[7], V(0.1, 0.1, 0.1))) : Tf(Tf::Identity()), t2 = Tf::Identity(); c.state(mc::mix(mc::mix(k, n), mc::mix(w, what))); c.count(3);
  const Geo *x = swap ? b.get() : a.get(), *y = swap ? a.get() : b.get(); std::string kk = fmt("cloud/%s/%d/%d", bvname(k), w, what);
  if (what < 3) { Rq q(10, what == 1, 10, what == 2, false); Rs r; size_t ret = fcl::collide(x, t1, y, t2, q, r); if (ret || r.numContacts() || r.numCostSources()) c.fail(kk, "contacts of a model without triangles"); }
  else { fcl::DistanceRequest<double> q(true); fcl::DistanceResult<double> r; double d = fcl::distance(x, t1, y, t2, q, r); if (!(d == r.min_distance || d < 0) || (r.min_distance < std::numeric_limits<double>::max() && r.min_distance >= 0)) c.fail(kk, fmt("distance %g of a model without triangles", r.min_distance)); }
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "N07"; s.body = [](mc::C& c) { if (c.choose(2)) clouds(c); else pairs(c); }; s.shard_depth = 5; s.counter_names = {"poses with overlap", "poses apart", "poses near contact", "queries"};
  s.explanation = "Every pair of shapes and meshes of the pools in every pose of the grid, all classes of occupancy of both, with every combination of limits, contact, exact and approximate cost, and results that are new or hold an earlier contact and cost source; models without triangles in all queries.";
  s.assumptions = {"shapes, meshes and poses come from finite pools", "pairs within 2e-3 of contact may or may not be reported"};
  return mc::run(argc, argv, s);
}
