// MC-BUILD: san=address opt=-O1
// G04: meshes made from primitive shapes.
#include "mesh_world.h"
#include "fcl/geometry/geometric_shape_to_BVH_model.h"
#include <map>
#include <iostream>
using namespace mw; using mc::fmt;
typedef fcl::FinalizeModel FM;
struct Solid { std::string name; int kind; double a, b, c; std::vector<V> v; std::vector<fcl::Triangle> t; };   // one solid of a model, in its own frame
enum { BOX, BALL, ELL, CYL, CONE };
struct Ask { int kind; double a, b, c; int unit, seg, ring; Tf pose; };   // unit: resolution given as a number for a unit-sized shape (in seg)
static const char* KN[] = {"box", "sphere", "ellipsoid", "cylinder", "cone"};
template <class BV> static int add(fcl::BVHModel<BV>& m, const Ask& q, FM f) {
  switch (q.kind) {
    case BOX: return fcl::generateBVHModel(m, fcl::Box<double>(q.a, q.b, q.c), q.pose, f);
    case BALL: return q.unit ? fcl::generateBVHModel(m, fcl::Sphere<double>(q.a), q.pose, q.seg, f) : fcl::generateBVHModel(m, fcl::Sphere<double>(q.a), q.pose, q.seg, q.ring, f);
    case ELL: return q.unit ? fcl::generateBVHModel(m, fcl::Ellipsoid<double>(q.a, q.b, q.c), q.pose, q.seg, f) : fcl::generateBVHModel(m, fcl::Ellipsoid<double>(q.a, q.b, q.c), q.pose, q.seg, q.ring, f);
    case CYL: return q.unit ? fcl::generateBVHModel(m, fcl::Cylinder<double>(q.a, q.b), q.pose, q.seg, f) : fcl::generateBVHModel(m, fcl::Cylinder<double>(q.a, q.b), q.pose, q.seg, q.ring, f);
    default: return q.unit ? fcl::generateBVHModel(m, fcl::Cone<double>(q.a, q.b), q.pose, q.seg, f) : fcl::generateBVHModel(m, fcl::Cone<double>(q.a, q.b), q.pose, q.seg, q.ring, f);
  }
}
static void judge(mc::C& c, const Ask& q, std::vector<V> v, const std::vector<fcl::Triangle>& t, size_t base, const std::string& ctx) {
  std::string k = std::string("/") + KN[q.kind] + (q.unit ? "/unit" : ""); double big = std::max({q.a, q.b, q.kind >= CYL ? 0 : q.c}), e = 1e-9 * (big + q.pose.translation().norm() + 1); Tf inv = q.pose.inverse(); for (V& p : v) p = inv * p;
  // the mesh is closed, and every edge is walked once each way
  std::map<std::pair<size_t, size_t>, int> edge; std::vector<char> used(v.size(), 0); bool bad = false;
  for (auto& x : t) for (int i = 0; i < 3; ++i) { size_t a = x[i] - base, b = x[(i + 1) % 3] - base; if (x[i] < base || a >= v.size() || x[(i + 1) % 3] < base || b >= v.size()) { c.fail("index" + k, ctx + ": a triangle names a vertex that is none of the shape's"); return; } ++edge[{a, b}]; used[a] = 1; if (a == b) bad = true; }
  for (auto& x : edge) if (x.second != 1 || !edge.count({x.first.second, x.first.first})) bad = true;
  if (bad) c.fail("closed" + k, ctx + ": the mesh is not a closed surface with its faces turned one way"); for (char u : used) if (!u) { c.fail("vertex" + k, ctx + ": a vertex belongs to no triangle"); break; }
  // every vertex is on the surface of the shape
  double off = 0; for (V& p : v) { double d = 0, s = std::hypot(p[0], p[1]), r = 0; switch (q.kind) {
      case BOX: for (int i = 0; i < 3; ++i) { double h = (i == 0 ? q.a : i == 1 ? q.b : q.c) / 2; d = std::max(d, std::abs(std::abs(p[i]) - h)); } break;
      case BALL: d = std::abs(p.norm() - q.a); break; case ELL: d = std::abs(V(p[0] / q.a, p[1] / q.b, p[2] / q.c).norm() - 1) * std::min({q.a, q.b, q.c}); break;
      case CYL: d = std::max({0.0, s - q.a, std::abs(p[2]) - q.b / 2}); d = std::max(d, std::min(std::abs(s - q.a), std::abs(std::abs(p[2]) - q.b / 2))); break;
      default: r = q.a * (0.5 - p[2] / q.b); d = std::max({0.0, s - r, std::abs(p[2]) - q.b / 2}); d = std::max(d, std::min(std::abs(s - r), std::abs(p[2] + q.b / 2))); } off = std::max(off, d); }
  if (!(off <= e)) c.fail("surface" + k, fmt("%s: a vertex is %g off the surface", ctx.c_str(), off));
  // all faces look outward, and the solid is convex
  double vol = 0, out = 0; for (auto& x : t) { V a = v[x[0] - base], b = v[x[1] - base], d = v[x[2] - base], n = (b - a).cross(d - a); vol += a.dot(b.cross(d)) / 6; if (!(n.norm() > 0)) { c.fail("flat" + k, ctx + ": a triangle has no area"); continue; } n.normalize(); for (V& p : v) out = std::max(out, n.dot(p - a)); }
  if (!(out <= 1e-7 * big)) c.fail("outward" + k, fmt("%s: a vertex is %g in front of a face", ctx.c_str(), out));
  // resolution: how many segments, and where
  double T = t.size(), X; size_t seg = q.seg, ring = q.ring; bool ok = true;
  if (q.kind == BOX) ok = T == 12;
  else if (q.kind == BALL || q.kind == ELL) {
    if (q.unit) { double f = q.a * q.a; if (q.kind == ELL) { double P = 1.6075; f = std::pow((std::pow(q.a * q.b, P) + std::pow(q.b * q.c, P) + std::pow(q.c * q.a, P)) / 3, 1 / P); } X = std::sqrt(q.seg * f / 2); ok = T >= 2 * X * X * (1 - 1e-6) && T <= 2 * std::max(3.0, X + 1) * (X + 1) * (1 + 1e-6); seg = 0; } else ok = T == 2.0 * seg * ring; }
  else { std::vector<double> z; for (V& p : v) z.push_back(p[2]); std::sort(z.begin(), z.end()); std::vector<double> lv; for (double x : z) if (lv.empty() || x > lv.back() + 1e-9 * (q.b + 1)) lv.push_back(x); size_t low = 0; for (V& p : v) if (std::abs(p[2] + q.b / 2) < e && std::abs(std::hypot(p[0], p[1]) - q.a) < e) ++low;
    if (q.unit) { double w = q.seg * q.a; ok = low >= 3 && ((low <= w + 1e-6 && low + 1 > w - 1e-6) || (low == 3 && w < 4)); double ed = 2 * M_PI * q.a / low; seg = low; ring = lv.size() - 1; if (ring) ok = ok && q.b / ring <= ed * (1 + 1e-6) && (ring == 1 || q.b / (ring - 1) >= ed * (1 - 1e-6)); }
    ok = ok && low == seg && lv.size() == ring + 1 && T == 2.0 * seg * ring + (q.kind == CYL ? 2.0 * seg : 0); for (size_t i = 0; ok && i < lv.size(); ++i) if (std::abs(lv[i] - (-q.b / 2 + q.b * i / ring)) > e) ok = false; }
  if (!ok) c.fail("resolution" + k, fmt("%s: %zu vertices and %zu triangles do not have the resolution that was asked for", ctx.c_str(), v.size(), t.size()));
  // the volume is that of the inscribed solid with evenly spaced segments and rings
  if (!seg && q.kind != BOX) { c.count(1); return; } double cut = seg / 2.0 * std::sin(2 * M_PI / seg), want = 0;
  switch (q.kind) { case BOX: want = q.a * q.b * q.c; break; case CYL: want = cut * q.a * q.a * q.b; break; case CONE: want = cut * q.a * q.a * q.b / 3; break; default: { double z0 = 1, s0 = 0; for (size_t i = 1; i <= ring + 1; ++i) { double th = M_PI * i / (ring + 1), z1 = std::cos(th), s1 = i == ring + 1 ? 0 : std::sin(th); want += (z0 - z1) / 3 * cut * (s0 * s0 + s0 * s1 + s1 * s1); z0 = z1; s0 = s1; } want *= q.kind == BALL ? q.a * q.a * q.a : q.a * q.b * q.c; } }
  if (!(std::abs(vol - want) <= 1e-7 * want + e * big * big)) c.fail("volume" + k, fmt("%s: the mesh holds a volume of %.9g, expected %.9g", ctx.c_str(), vol, want));
  c.count(0);
}
static Ask pick(mc::C& c, bool second) {
  bool th = c.thorough(); Ask q; q.kind = c.choose(5); static const double Z[][3] = {{1, 1, 1}, {2, 0.5, 3}, {0.25, 0.125, 0.75}, {20, 3, 7}, {0.05, 4, 0.3}, {1e-3, 1e-3, 2e-3}}; int z = c.choose(second ? 2 : th ? 6 : 5); q.a = Z[z][0]; q.b = Z[z][1]; q.c = Z[z][2]; q.unit = q.kind != BOX && !second ? c.flag() : 0; q.seg = q.ring = 0;
  static const int SG[] = {3, 4, 5, 8, 16, 7, 31}, RG[] = {1, 2, 3, 8, 5, 16}, UN[] = {8, 16, 3, 1, 30, 50, 100, 12};
  if (q.unit) { q.seg = UN[c.choose(th ? 8 : 5)]; } else if (q.kind != BOX) { q.seg = SG[c.choose(second ? 2 : th ? 7 : 5)]; q.ring = RG[c.choose(second ? 2 : th ? 6 : 4)]; }
  if (q.unit && (q.kind == CYL || q.kind == CONE) && q.seg * q.a * q.seg * q.b > 2e4) c.prune(); if (q.unit && q.kind == BALL && q.a >= 20 && q.seg > 30) c.prune();
  int p = c.choose(second ? 2 : th ? 6 : 3); q.pose = p == 0 ? Tf::Identity() : p == 1 ? tf(rotations()[3], V(1, -2, 0.5)) : p == 2 ? tf(M(M::Identity()), V(100, 0, -3)) : tf(rotations()[p + 3], V(p, 1, -p)); return q;
}
static std::string show(const Ask& q) { return fmt("%s (%g, %g, %g) %s %d %d", KN[q.kind], q.a, q.b, q.c, q.unit ? "for a unit shape" : "with", q.seg, q.ring); }
template <class BV> static void go(mc::C& c) {
  bool th = c.thorough(); int mode = c.choose(3); Ask q = pick(c, mode == 2); std::vector<Ask> all{q}; fcl::BVHModel<BV> m; if (mode == 2) { all.push_back(pick(c, true)); if (th && c.flag()) all.push_back(q); }
  uint64_t h = mode; for (auto& x : all) h = mc::mix(h, mc::mix(mc::mix(x.kind * 16 + x.unit, x.seg * 64 + x.ring), mc::hbits(x.a + 3 * x.b + 7 * x.c) + mc::hbits(x.pose(0, 3) + x.pose(0, 0)))); c.state(mc::mix(h, sizeof(BV)));
  std::vector<size_t> nv{0}, nt{0}; std::string ctx; for (size_t i = 0; i < all.size(); ++i) { bool last = i + 1 == all.size(); FM f = mode == 1 ? FM::DONT : last ? FM::DO : FM::DONT; ctx += (i ? " + " : "") + show(all[i]); int r = add(m, all[i], f); if (r != fcl::BVH_OK) { c.fail("return", fmt("%s: returned %d", ctx.c_str(), r)); return; } nv.push_back(m.num_vertices); nt.push_back(m.num_tris); if (m.build_state != (f == FM::DO ? fcl::BVH_BUILD_STATE_PROCESSED : fcl::BVH_BUILD_STATE_BEGUN)) c.fail("state", fmt("%s: the model is in state %d", ctx.c_str(), m.build_state)); }
  if (mode == 1) { int r = m.endModel(); if (r != fcl::BVH_OK) { c.fail("end", fmt("%s: ending the model returned %d", ctx.c_str(), r)); return; } m.computeLocalAABB(); if (m.num_vertices != (int)nv.back() || m.num_tris != (int)nt.back()) c.fail("end", ctx + ": ending the model changes its size"); }
  for (size_t i = 0; i < all.size(); ++i) judge(c, all[i], std::vector<V>(m.vertices + nv[i], m.vertices + nv[i + 1]), std::vector<fcl::Triangle>(m.tri_indices + nt[i], m.tri_indices + nt[i + 1]), nv[i], ctx);
  V lo = m.vertices[0], hi = lo; for (int i = 1; i < m.num_vertices; ++i) { lo = lo.cwiseMin(V(m.vertices[i])); hi = hi.cwiseMax(V(m.vertices[i])); } if (!((m.aabb_local.min_ - lo).norm() + (m.aabb_local.max_ - hi).norm() <= 1e-12 * (hi.norm() + lo.norm()))) c.fail("bounds", ctx + ": the local box of the model is not the box of its vertices");
  if (m.getNumBVs() != 2 * m.num_tris - 1) c.fail("tree", fmt("%s: %d bounding volumes for %d triangles", ctx.c_str(), m.getNumBVs(), m.num_tris));
  if (mode != 2 || !th) { auto* b = std::cerr.rdbuf(nullptr); int r = add(m, q, FM::DO); std::cerr.rdbuf(b); std::cerr.clear(); if (r == fcl::BVH_OK) c.fail("again", ctx + ": adding to a finished model is accepted"); if (m.num_tris != (int)nt.back() || m.build_state != fcl::BVH_BUILD_STATE_PROCESSED) c.fail("again", ctx + ": a refused addition changes the model"); c.count(2); }
}
static void run(mc::C& c) { switch (c.choose(c.thorough() ? 8 : 4)) { case 0: go<fcl::AABB<double>>(c); break; case 1: go<fcl::OBBRSS<double>>(c); break; case 2: go<fcl::RSS<double>>(c); break; case 3: go<fcl::KDOP<double, 18>>(c); break; case 4: go<fcl::OBB<double>>(c); break; case 5: go<fcl::kIOS<double>>(c); break; case 6: go<fcl::KDOP<double, 16>>(c); break; default: go<fcl::KDOP<double, 24>>(c); } }
int main(int argc, char** argv) {
  mc::Spec s; s.property = "G04"; s.body = run; s.shard_depth = 4; s.hang_s = 20; s.counter_names = {"solids", "unit_resolution", "refused"};
  s.explanation = "Every shape, size, pose and resolution of the stated pools is tessellated by generateBVHModel on the real code, alone and in unions of two and three; the mesh is judged as a closed, outward, convex surface on the shape with the resolution that was asked for.";
  s.assumptions = {"sizes, poses and resolutions come from finite pools, with at least three segments and one ring"};
  return mc::run(argc, argv, s);
}
