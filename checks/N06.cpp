// MC-BUILD: san=none big=distance,collision
// N06: octrees against shapes, meshes and octrees: collision, contacts, costs and distance.
#include "octree_world.h"
#include "fcl/narrowphase/distance.h"
#include "signed.h"
#include "fcl/narrowphase/collision.h"
using namespace mw; using namespace ow; using mc::fmt;
static const double MG = 3e-4;
// an operand: octree, mesh or shape
struct Op { const Tree* t = nullptr; const Mesh* m = nullptr; const Sh* s = nullptr; std::string name; Body aim; std::vector<Body> parts(const Tf& x) const { std::vector<Body> r; if (t) for (auto& c : t->leaf) r.push_back(placed(c.b, x)); else if (m) r = placed_all(*m, x); else r.push_back(placed(s->b, x)); return r; } };
struct Want { std::map<std::pair<int, int>, int> hit; };   // pairs of leaf and part: 1 overlap, 0 open, absent: apart
static int rel(const Body& a, const Body& b, const Box3& x, const Box3& y, double m) { if (!b.unbounded() && far(x, y, m)) return -1; return cx::verdict(a, b, m); }
static Box3 safe_box(const Body& b) { return b.unbounded() ? Box3{V(-1e300, -1e300, -1e300), V(1e300, 1e300, 1e300)} : box_of(b); }
static intptr_t id_of(const Tree& t, const Node* n) { return n - t.t->getRoot(); }
static int by_id(const Tree& t, intptr_t id) { for (size_t i = 0; i < t.leaf.size(); ++i) if (id_of(t, t.leaf[i].n) == id) return (int)i; return -1; }
static uint64_t pose_hash(const Tf& t) { uint64_t h = 7; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) h = mc::mix(h, (uint64_t)std::llround(t(i, j) * 1e7)); return h; }
typedef fcl::CollisionRequest<double> Rq; typedef fcl::CollisionResult<double> Rs;
struct Setting { const Tree* A; Op B; Tf t1, t2; bool swap; const fcl::CollisionGeometry<double>*ga, *gb; bool indep; std::string kk; int obj_cls; std::vector<Body> P, Q; std::vector<Box3> bp, bq; };
static void query(const Setting& s, const Rq& q, Rs& r, size_t* ret = nullptr) { size_t n = s.swap ? fcl::collide(s.gb, s.t2, s.ga, s.t1, q, r) : fcl::collide(s.ga, s.t1, s.gb, s.t2, q, r); if (ret) *ret = n; }
static void contacts(mc::C& c, const Setting& s, const Want& w, bool touch, bool maybe) {
  for (int k = 0; k < 4; ++k) {
    static const size_t NM[] = {1, 100000, 100000, 2}; bool ec = k == 2 || k == 3; Rq q(NM[k], ec); q.gjk_solver_type = s.indep ? fcl::GST_INDEP : fcl::GST_LIBCCD; Rs r; size_t ret; query(s, q, r, &ret); std::string kk = s.kk + (ec ? "/contacts" : "/plain");
    if (ret != r.numContacts()) c.fail("return/" + kk, fmt("returned %zu, the result has %zu contacts", ret, r.numContacts()));
    if (touch && !r.isCollision()) { c.fail("missed/" + kk, "an occupied cell overlaps, no collision is reported"); continue; }
    if (!touch && !maybe && r.isCollision()) { c.fail("phantom/" + kk + (s.B.m ? fmt("/%llx", (unsigned long long)pose_hash(s.t1.inverse() * s.t2)) : std::string()), "no occupied cell is near, a collision is reported"); continue; }
    if (r.numContacts() > NM[k]) c.fail("limit/" + kk, fmt("%zu contacts, but %zu were asked for", r.numContacts(), NM[k]));
    if (r.numCostSources()) c.fail("cost-unasked/" + kk, "cost sources are reported although none were asked for");
    size_t sure = 0; for (auto& h : w.hit) sure += h.second == 1; if (NM[k] < 3 && !s.B.s && r.numContacts() < std::min(NM[k], sure)) c.fail("few/" + kk, fmt("%zu contacts although %zu pairs overlap and %zu were asked for", r.numContacts(), sure, NM[k]));
    std::map<std::pair<int, int>, int> got;
    for (size_t i = 0; i < r.numContacts(); ++i) { auto& x = r.getContact(i); bool fw = x.o1 == s.ga && x.o2 == s.gb, rv = x.o1 == s.gb && x.o2 == s.ga; if (s.B.t) { if (s.swap) fw = false; else rv = false; }
      if (!fw && !rv) { c.fail("objects/" + kk, "a contact names other geometries"); break; }
      int a = by_id(*s.A, fw ? x.b1 : x.b2), b = s.B.t ? by_id(*s.B.t, fw ? x.b2 : x.b1) : s.B.m ? (int)(fw ? x.b2 : x.b1) : 0; if (s.B.s && (fw ? x.b2 : x.b1) != fcl::Contact<double>::NONE) c.fail("part/" + kk, "a contact names a primitive of a shape");
      if (a < 0 || b < 0 || b >= (int)s.Q.size()) { c.fail("cell/" + kk, "a contact names a cell or primitive that does not exist"); break; }
      ++got[{a, b}]; if (!w.hit.count({a, b})) { c.fail("wrong/" + kk, fmt("cell %d and part %d are reported, but do not touch or are not occupied", a, b)); break; }
      if (ec) { if (w.hit.at({a, b}) == 1 && !(std::abs(x.normal.norm() - 1) < 1e-6)) c.fail("normal/" + kk, "normal " + vs(x.normal)); if (!(x.penetration_depth >= -2e-6)) c.fail("depth/" + kk, fmt("depth %g", x.penetration_depth)); 
        V n = fw ? V(x.normal) : V(-x.normal); double wo = way_out(s.P[a], s.Q[b], n); if (!s.B.m && w.hit.at({a, b}) == 1 && wo < 1e200 && !(x.penetration_depth <= wo + 2e-3 + 0.02 * wo)) c.fail("depth-far/" + kk, fmt("depth %g along %s, but moving %g separates", x.penetration_depth, vs(n).c_str(), wo));
        V l = s.t1.inverse() * x.pos; if (!(s.A->leaf[a].b.pts.empty()) && i < 3) { V in = l; for (int z = 0; z < 3; ++z) in[z] = std::max(s.A->leaf[a].mid[z] - s.A->leaf[a].size / 2, std::min(s.A->leaf[a].mid[z] + s.A->leaf[a].size / 2, l[z])); fcl::AABB<double> bb; unsigned dep = 0; octomap::OcTreeKey key; auto* nn = s.A->g->getNodeByQueryCellId(fw ? x.b1 : x.b2, in, &bb, &key, &dep); auto& L = s.A->leaf[a];
          if (nn != L.n || !((bb.min_ - (L.mid - V::Constant(L.size / 2))).norm() < 1e-5) || !((bb.max_ - (L.mid + V::Constant(L.size / 2))).norm() < 1e-5) || dep != 16 - (unsigned)std::lround(std::log2(L.size / s.A->t->getResolution()))) c.fail("lookup/" + kk, "the cell named by a contact is not found again"); } } }
    if (NM[k] > 1000) { for (auto& h : w.hit) if (h.second == 1 && !got.count(h.first)) { c.fail("unnamed/" + kk, fmt("cell %d and part %d overlap, but no contact names them", h.first.first, h.first.second)); break; }
      if (!ec || s.B.m) for (auto& g : got) if (g.second != 1) { c.fail("twice/" + kk, fmt("cell %d and part %d are reported %d times", g.first.first, g.first.second, g.second)); break; } }
  }
}
struct Src { V lo, hi, clo, chi; double density, total, slack; int sure; };   // the reported box may be a bit larger than the overlap lo, hi of the tight boxes, within the cell clo, chi
static void costs(mc::C& c, const Setting& s) {
  // the sources that must and may be reported: every pair of cells or parts, none of them free, that overlap
  std::vector<Src> w; double dens = s.B.t ? 1 : s.gb->cost_density; int oc = s.obj_cls;
  auto add = [&](const Body& a, const Body& b, double d, int v) { Box3 x = box_of(a), y; Src r; r.clo = x.lo; r.chi = x.hi; r.slack = 0; if (b.unbounded()) { r.lo = x.lo; r.hi = x.hi; r.density = d; r.total = 0; r.sure = 2 + (v == 1); w.push_back(r); return true; } y = box_of(b); r.lo = x.lo.cwiseMax(y.lo); r.hi = x.hi.cwiseMin(y.hi); r.density = d; r.total = d * (r.hi - r.lo).prod(); r.sure = v; if (s.B.s) r.slack = 0.8 * (y.hi - y.lo).maxCoeff(); w.push_back(r); return true; };
  if (oc != FREE) {
    auto one = [&](const Cell& k, const Body& a, const Box3& ba) { if (k.cls == FREE) return; double m = k.cls == ABSENT ? 1e-3 * (1 + 1e-2 * k.size) : MG;
      if (!s.B.t) { for (size_t j = 0; j < s.Q.size(); ++j) { int v = rel(a, s.Q[j], ba, s.bq[j], m); if (v >= 0) add(a, s.Q[j], k.occ * dens, v); } return; }
      for (size_t j = 0; j < s.Q.size(); ++j) { auto& L = s.B.t->leaf[j]; if (L.cls == FREE) continue; int v = rel(a, s.Q[j], ba, s.bq[j], m); if (v >= 0) add(a, s.Q[j], k.occ * L.occ, v); } };
    for (size_t i = 0; i < s.P.size(); ++i) one(s.A->leaf[i], s.P[i], s.bp[i]);
    if (!s.B.t) for (auto& k : s.A->absent) { Body a = placed(k.b, s.t1); one(k, a, box_of(a)); }
  }
  for (int lim : {100000, 2}) {
    Rq q(100000, false, lim, true, false); q.gjk_solver_type = s.indep ? fcl::GST_INDEP : fcl::GST_LIBCCD; Rs r; query(s, q, r); std::vector<fcl::CostSource<double>> g; r.getCostSources(g); std::string kk = s.kk + "/cost";
    if ((int)g.size() > lim) c.fail("limit/" + kk, fmt("%zu cost sources, but %d were asked for", g.size(), lim));
    for (size_t i = 1; i < g.size(); ++i) if (g[i - 1].total_cost < g[i].total_cost) c.fail("order/" + kk, "the cost sources are not in descending order");
    auto same = [&](const Src& x, const fcl::CostSource<double>& y) { if (x.sure > 1) return std::abs(x.density - y.cost_density) < 1e-6 && (y.aabb_min - x.lo).minCoeff() > -1e-5 * (1 + x.lo.norm()) && (x.hi - y.aabb_max).minCoeff() > -1e-5 * (1 + x.hi.norm()); double e = 1e-5 * (1 + x.hi.norm() + x.lo.norm()), vol = (y.aabb_max - y.aabb_min).prod(); if (!(std::abs(x.density - y.cost_density) < 1e-6 && std::abs(y.total_cost - vol * y.cost_density) <= 1e-9 * (1 + std::abs(vol)))) return false; for (int z = 0; z < 3; ++z) if (y.aabb_min[z] > x.lo[z] + e || y.aabb_max[z] < x.hi[z] - e || y.aabb_min[z] < std::max(x.clo[z], x.lo[z] - x.slack) - e || y.aabb_max[z] > std::min(x.chi[z], x.hi[z] + x.slack) + e) return false; return true; };
    if (!s.B.t /* with two octrees, how absent cells are paired is not specified */) for (auto& y : g) { bool ok = false; for (auto& x : w) ok = ok || same(x, y); if (!ok) { c.fail("foreign/" + kk + fmt("/%llx", (unsigned long long)pose_hash(s.t1.inverse() * s.t2)), "cost source " + vs(y.aabb_min) + " " + vs(y.aabb_max) + fmt(" density %g total %g stands for no overlap", y.cost_density, y.total_cost)); break; } }
    if (lim > 1000) { for (auto& x : w) if (x.sure & 1) { bool ok = false; for (auto& y : g) ok = ok || same(x, y); if (!ok) { c.fail("missing/" + kk, "no cost source for the overlap " + vs(x.lo) + " " + vs(x.hi) + fmt(" density %g total %g", x.density, x.total)); break; } } }
    else { size_t sure = 0; for (auto& x : w) if (x.sure == 1) { size_t better = 0; for (auto& y : g) better += y.total_cost >= x.total * (1 - 1e-4) - 1e-9; if (better == 0) { c.fail("cheap/" + kk, fmt("an overlap that costs %g was dropped for cheaper ones", x.total)); break; } ++sure; } (void)sure; }
    c.count(3, (long)g.size());
  }
}
static void distances(mc::C& c, const Setting& s) {
  double lo = 1e300, hi = 1e300; std::map<std::pair<int, int>, cx::Bounds> all; if (s.B.s && s.B.s->b.unbounded()) return;
  std::vector<std::pair<double, std::pair<int, int>>> o; for (size_t i = 0; i < s.P.size(); ++i) if (s.A->leaf[i].cls == OCC) for (size_t j = 0; j < s.Q.size(); ++j) if (!s.B.t || s.B.t->leaf[j].cls == OCC) o.push_back({far_dist(s.bp[i], s.bq[j]), {(int)i, (int)j}});
  std::sort(o.begin(), o.end()); for (auto& x : o) { if (x.first > hi) break; auto d = cx::dist_bounds(s.P[x.second.first], s.Q[x.second.second], V::Zero(), 1e-7); all[x.second] = d; lo = std::min(lo, d.lo); hi = std::min(hi, d.hi); }
  double tol = 1e-4 * (1 + s.t1.translation().norm() * 0.1) + (s.indep ? 5e-4 : 0);
  for (int np = 0; np < 2; ++np) {
    fcl::DistanceRequest<double> q; q.enable_nearest_points = np; q.gjk_solver_type = s.indep ? fcl::GST_INDEP : fcl::GST_LIBCCD; fcl::DistanceResult<double> r; double ret = s.swap ? fcl::distance(s.gb, s.t2, s.ga, s.t1, q, r) : fcl::distance(s.ga, s.t1, s.gb, s.t2, q, r); std::string kk = s.kk + (np ? "/points" : "/distance");
    if (ret != r.min_distance) c.fail("return/" + kk, fmt("returned %.9g, the result has %.9g", ret, r.min_distance));
    if (np && !o.empty() && s.gb->isOccupied()) { q.enable_signed_distance = true; fcl::DistanceResult<double> rs; const auto *ga = s.swap ? s.gb : s.ga, *gb = s.swap ? s.ga : s.gb; const Tf &ta = s.swap ? s.t2 : s.t1, &tb = s.swap ? s.t1 : s.t2; double rets = fcl::distance(ga, ta, gb, tb, q, rs); judge_signed(c, s.kk, rs, rets, lo, hi, MG, tol, ga, ta, gb, tb, q.gjk_solver_type); }
    if (o.empty()) { if (r.min_distance < std::numeric_limits<double>::max()) c.fail("nothing/" + kk, fmt("there is no occupied cell, but a distance of %g", r.min_distance)); continue; }
    if (hi < MG) { if (!(r.min_distance <= MG + tol)) c.fail("positive/" + kk, fmt("distance %.9g of overlapping geometries", r.min_distance)); continue; }
    if (!(lo > MG)) continue; c.count(2);
    if (!(r.min_distance >= lo - tol && r.min_distance <= hi + tol)) { c.fail("value/" + kk, fmt("distance %.9g, but it is within [%.9g, %.9g]", r.min_distance, lo, hi)); continue; }
    bool fw = r.o1 == s.ga && r.o2 == s.gb, rv = r.o1 == s.gb && r.o2 == s.ga; if (s.B.t) { if (s.swap) fw = false; else rv = false; } if (!fw && !rv) { c.fail("objects/" + kk, "the result names other geometries"); continue; }
    int a = by_id(*s.A, fw ? r.b1 : r.b2), b = s.B.t ? by_id(*s.B.t, fw ? r.b2 : r.b1) : s.B.m ? (int)(fw ? r.b2 : r.b1) : 0;
    if (a < 0 || b < 0 || b >= (int)s.Q.size()) { c.fail("cell/" + kk, "the result names a cell or primitive that does not exist"); continue; }
    auto d = cx::dist_bounds(s.P[a], s.Q[b], V::Zero(), 1e-7); if (s.A->leaf[a].cls != OCC || !(d.lo <= r.min_distance + tol)) c.fail("primitive/" + kk, fmt("the named cell and part are %.9g apart, the distance is %.9g", d.lo, r.min_distance));
    if (!np) continue;
    V x = r.nearest_points[fw ? 0 : 1], y = r.nearest_points[fw ? 1 : 0]; Body px, py; px.pts = {x}; py.pts = {y}; double gx = cx::dist_bounds(s.P[a], px, V::Zero(), 1e-7).lo, gy = cx::dist_bounds(s.Q[b], py, V::Zero(), 1e-7).lo;
    if (!(std::abs((x - y).norm() - r.min_distance) <= 8 * tol) || !(gx <= 8 * tol && gy <= 8 * tol)) c.fail("points/" + kk, fmt("nearest points %s and %s are %.9g apart and %.3g, %.3g off, the distance is %.9g", vs(x).c_str(), vs(y).c_str(), (x - y).norm(), gx, gy, r.min_distance));
  }
}
// the cells by themselves: classes, look-up by id from every point in or on the cell, list of boxes
static void cells(mc::C& c) {
  auto& T = trees(); const Tree& t = T[c.choose((int)T.size())]; auto& g = *t.g; c.context(t.name + " cells"); std::string kk = "cells/" + t.name; Node* root = g.getRoot();
  std::vector<intptr_t> ids; for (auto& l : t.leaf) ids.push_back(l.n - root);
  if (t.leaf.empty()) { intptr_t id = c.choose(3) - 1; if (g.getNodeByQueryCellId(id, V(0.1, 0.1, 0.1))) c.fail(kk, "a cell was found in an octree without cells"); if (!g.toBoxes().empty()) c.fail(kk, "boxes of an octree without cells"); return; }
  int i = c.choose((int)t.leaf.size()), where = c.choose(125), other = c.choose((int)t.leaf.size() + 3); const Cell& l = t.leaf[i]; c.state(mc::mix(i, where)); double h = l.size / 2; V p = l.mid; int lvl[3] = {where % 5, where / 5 % 5, where / 25}; static const double off[] = {-1, -1, 0, 1, 1}; bool out = false;
  for (int z = 0; z < 3; ++z) { p[z] += off[lvl[z]] * h; if (lvl[z] == 0) p[z] -= 1e-9; if (lvl[z] == 4) p[z] += 1e-9; out = out || lvl[z] == 0 || lvl[z] == 4; }   // on the boundary, or rounded off it
  fcl::AABB<double> bb; octomap::OcTreeKey key; unsigned depth = 99; c.count(0);
  if (other < (int)t.leaf.size()) { if (other != i) { const Cell& o = t.leaf[other]; double res = t.t->getResolution(); bool near = true; for (int z = 0; z < 3; ++z) near = near && std::abs(p[z] - o.mid[z]) < o.size / 2 + 2.01 * res; if (near) return; if (g.getNodeByQueryCellId(ids[other], p, &bb, &key, &depth) || depth != 99) c.fail(kk, "a cell was found from a point far away from it"); return; }
    const auto* n = g.getNodeByQueryCellId(ids[i], p, &bb, &key, &depth); if (n != l.n) { c.fail(kk, fmt("the cell was not found from ") + vs(p) + fmt(" at offset %d %d %d", lvl[0], lvl[1], lvl[2])); return; }
    for (int z = 0; z < 3; ++z) if (std::abs(bb.min_[z] - (l.mid[z] - h)) > 1e-9 || std::abs(bb.max_[z] - (l.mid[z] + h)) > 1e-9) { c.fail(kk, "the box of the cell found is not its box"); return; }
    double res = t.t->getResolution(); if (std::abs(std::ldexp(res, 16 - (int)depth) - l.size) > 1e-9 || t.t->search(key, depth) != l.n) { c.fail(kk, fmt("depth %u or key of the cell found are not its own", depth)); return; }
    if (g.isNodeOccupied(l.n) != (l.cls == OCC) || g.isNodeFree(l.n) != (l.cls == FREE) || g.isNodeUncertain(l.n) != (l.cls == UNS) || g.nodeHasChildren(l.n)) c.fail(kk, "the cell is classified differently");
  } else if (other == (int)t.leaf.size()) { if (g.getNodeByQueryCellId(1234567, p)) c.fail(kk, "a cell was found for an id that no cell has"); }
  else if (other == (int)t.leaf.size() + 1) { auto b = g.toBoxes(); std::vector<char> hit(t.leaf.size(), 0); for (auto& x : b) { int f = -1; for (size_t k = 0; k < t.leaf.size(); ++k) if ((t.leaf[k].mid - V(x[0], x[1], x[2])).norm() < 1e-9 && std::abs(t.leaf[k].size - x[3]) < 1e-9) f = (int)k; if (f < 0 || hit[f]++ || std::abs(x[4] - t.leaf[f].occ) > 1e-9 || std::abs(x[5] - g.getOccupancyThres()) > 1e-12) { c.fail(kk, "a box is foreign, twice or of another cost"); return; } } for (size_t k = 0; k < t.leaf.size(); ++k) if (hit[k] != (t.leaf[k].cls == OCC)) { c.fail(kk, "the boxes are not those of the occupied cells"); return; } }
  else { auto rb = g.getRootBV(); double s = 65536.0 * t.t->getResolution() / 2; if (std::abs(rb.max_[0] - s) > 1e-6 || std::abs(rb.min_[1] + s) > 1e-6) c.fail(kk, "the root box is not that of the octree"); }
}
static void body(mc::C& c) {
  bool th = c.thorough(); int kind = c.choose(4); if (kind == 3) { cells(c); return; } auto& T = trees(); Setting s; Op& B = s.B; int bv = 0; double dens = 1;
  s.A = &T[c.choose(th ? 8 : 8)];
  if (kind == 0) { auto& H = shapes(); int j = c.choose(th ? NALL : NBASIC); B.s = &H[j]; B.name = B.s->name; B.aim = B.s->b; s.gb = B.s->g.get(); }
  else if (kind == 1) { int j = c.choose(th ? 8 : 4); B.m = &meshes()[j]; B.name = "mesh-" + B.m->name; B.aim = B.m->hull; bv = c.choose(th ? 8 : 3); if (!th) bv = (bv * 3 + j) % 8; s.gb = B.m->g[bv].get(); B.name += std::string("/") + bvname(bv); }
  else { B.t = &T[c.choose((int)T.size())]; B.name = "octree-" + B.t->name; B.aim = B.t->leaf.empty() ? cube(V(0, 0, 0), 1) : B.t->leaf[c.choose(std::min((int)B.t->leaf.size(), th ? 3 : 1))].b; s.gb = B.t->g.get(); }
  s.ga = s.A->g.get(); Body aim = s.A->leaf.empty() ? cube(V(0, 0, 0), 1) : s.A->leaf[c.choose(std::min((int)s.A->leaf.size(), th ? 8 : 2))].b;
  uint64_t key; choose_tf(c, aim, B.aim, th ? 9 : 4, th ? 12 : 5, th ? 3 : 2, th ? 14 : 4, s.t1, s.t2, key);
  s.swap = c.flag(); s.indep = kind != 1 || th ? c.flag() : false; int what = c.choose(3); int oc = OCC;
  if (what == 2 && !B.t) { int d = c.choose(3); dens = d == 0 ? 1 : d == 1 ? 0.4 : 0; oc = d == 0 ? OCC : d == 1 ? UNS : FREE; }
  s.obj_cls = oc; s.kk = std::string(s.swap ? B.name + "-octree" : "octree-" + B.name) + (s.indep ? "/indep" : "/libccd"); if (s.swap && kind == 2) { s.kk = "octree-" + B.name + (s.indep ? "/indep" : "/libccd"); }
  c.context(s.A->name + " " + s.kk); if (c.verbose()) c.note("octree %s at %s\n%s at %s", s.A->name.c_str(), ts(s.t1).c_str(), B.name.c_str(), ts(s.t2).c_str());
  for (auto& k : s.A->leaf) { s.P.push_back(placed(k.b, s.t1)); s.bp.push_back(box_of(s.P.back())); } s.Q = B.parts(s.t2); for (auto& q : s.Q) s.bq.push_back(safe_box(q));
  c.state(mc::mix(key, mc::mix(kind * 1000 + (s.A - &T[0]), s.swap * 2 + s.indep)));
  if (what == 0) {
    Want w; bool touch = false, maybe = false; for (size_t i = 0; i < s.P.size(); ++i) if (s.A->leaf[i].cls == OCC) for (size_t j = 0; j < s.Q.size(); ++j) if (!B.t || B.t->leaf[j].cls == OCC) { int v = rel(s.P[i], s.Q[j], s.bp[i], s.bq[j], MG * (1 + 0.1 * s.t1.translation().norm())); if (v >= 0) { w.hit[{(int)i, (int)j}] = v; touch = touch || v == 1; maybe = true; } }
    c.count(touch ? 0 : 1); c.outcome(mc::mix(kind, touch * 2 + maybe)); contacts(c, s, w, touch, maybe);
  } else if (what == 1) distances(c, s);
  else { auto* g = const_cast<fcl::CollisionGeometry<double>*>(s.gb); struct Back { double *p, v; ~Back() { *p = v; } } back{&g->cost_density, g->cost_density}; g->cost_density = dens; costs(c, s); }
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "N06"; s.body = body; s.shard_depth = 5; s.counter_names = {"overlapping", "apart", "distances", "cost sources"};
  s.explanation = "Every octree of the pool is placed against every shape, mesh and octree of the pools in every pose of the grid; collision, contacts, cost sources and distance are compared with an own walk over the cells and a two-sided distance oracle, signed distances with the depths of all contacts; every cell is looked up by its id from 125 points in, on and just off it, and the class and box of every cell are compared.";
  s.assumptions = {"octrees, shapes, meshes and poses come from finite pools", "pairs within 3e-4 of contact are not judged"};
  return mc::run(argc, argv, s);
}
