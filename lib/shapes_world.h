// shapes_world.h - catalogue of shapes with their oracle bodies, relative poses, and helpers
#ifndef VERIF_SHAPES_WORLD_H
#define VERIF_SHAPES_WORLD_H
#include "mc.h"
#include "convex.h"
#include "fcl/geometry/shape/box.h"
#include "fcl/geometry/shape/capsule.h"
#include "fcl/geometry/shape/cone.h"
#include "fcl/geometry/shape/convex.h"
#include "fcl/geometry/shape/cylinder.h"
#include "fcl/geometry/shape/ellipsoid.h"
#include "fcl/geometry/shape/halfspace.h"
#include "fcl/geometry/shape/plane.h"
#include "fcl/geometry/shape/sphere.h"
#include "fcl/geometry/shape/triangle_p.h"
namespace sw {
using cx::V; using cx::M; using cx::Body;
typedef fcl::Transform3<double> Tf;
struct Sh { std::string name; std::shared_ptr<fcl::CollisionGeometry<double>> g; Body b; bool curved = false; };
inline std::shared_ptr<fcl::Convex<double>> make_convex(const std::vector<V>& v, const std::vector<std::vector<int>>& faces) {
  auto vs = std::make_shared<std::vector<fcl::Vector3<double>>>(v.begin(), v.end());
  auto fs = std::make_shared<std::vector<int>>(); for (auto& f : faces) { fs->push_back((int)f.size()); for (int i : f) fs->push_back(i); }
  return std::make_shared<fcl::Convex<double>>(vs, (int)faces.size(), fs, true);
}
inline std::vector<V> box_pts(double x, double y, double z) { std::vector<V> r; for (int i = 0; i < 8; ++i) r.push_back(V(i & 1 ? x / 2 : -x / 2, i & 2 ? y / 2 : -y / 2, i & 4 ? z / 2 : -z / 2)); return r; }
inline Sh sphere(double r) { Sh s; s.name = "sphere"; s.g = std::make_shared<fcl::Sphere<double>>(r); s.b.pts = {V(0, 0, 0)}; s.b.r = r; s.curved = true; return s; }
inline Sh ellipsoid(double a, double b, double c) { Sh s; s.name = "ellipsoid"; s.g = std::make_shared<fcl::Ellipsoid<double>>(a, b, c); s.b.kind = cx::ELLIPSOID; s.b.axes = V(a, b, c); s.curved = true; return s; }
inline Sh box(double x, double y, double z) { Sh s; s.name = "box"; s.g = std::make_shared<fcl::Box<double>>(x, y, z); s.b.pts = box_pts(x, y, z); return s; }
inline Sh capsule(double r, double l) { Sh s; s.name = "capsule"; s.g = std::make_shared<fcl::Capsule<double>>(r, l); s.b.pts = {V(0, 0, -l / 2), V(0, 0, l / 2)}; s.b.r = r; s.curved = true; return s; }
inline Sh cone(double r, double l) { Sh s; s.name = "cone"; s.g = std::make_shared<fcl::Cone<double>>(r, l); s.b.kind = cx::CONE; s.b.axes = V(r, l / 2, 0); s.curved = true; return s; }
inline Sh cylinder(double r, double l) { Sh s; s.name = "cylinder"; s.g = std::make_shared<fcl::Cylinder<double>>(r, l); s.b.kind = cx::CYLINDER; s.b.axes = V(r, l / 2, 0); s.curved = true; return s; }
inline Sh tetra() { Sh s; s.name = "convex"; std::vector<V> v = {V(-0.5, -0.5, -0.25), V(0.75, -0.5, -0.25), V(-0.5, 0.75, -0.25), V(0, 0, 0.75)}; s.g = make_convex(v, {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}}); s.b.pts = v; return s; }
// a wedge with 6 vertices, quads and triangles
inline Sh wedge() { Sh s; s.name = "convex6"; std::vector<V> v = {V(-0.5, -0.5, 0), V(0.5, -0.5, 0), V(0, 0.5, 0), V(-0.5, -0.5, 1), V(0.5, -0.5, 1), V(0, 0.5, 1)}; s.g = make_convex(v, {{0, 2, 1}, {3, 4, 5}, {0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}}); s.b.pts = v; return s; }
// 12 vertices: exercises the edge-walking support (used only above 32 vertices)
inline Sh prism(int n, double r, double hgt) {
  Sh s; s.name = "prism"; std::vector<V> v; std::vector<std::vector<int>> f; std::vector<int> top, bot;
  for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i) v.push_back(V(r * std::cos(2 * M_PI * i / n), r * std::sin(2 * M_PI * i / n), k ? hgt / 2 : -hgt / 2));
  for (int i = 0; i < n; ++i) { top.push_back(n + i); bot.push_back(n - 1 - i); f.push_back({i, (i + 1) % n, n + (i + 1) % n, n + i}); }
  f.push_back(top); f.push_back(bot); s.g = make_convex(v, f); s.b.pts = v; return s;
}
inline Sh plane(const V& n, double d) { Sh s; s.name = "plane"; s.g = std::make_shared<fcl::Plane<double>>(n, d); s.b.kind = cx::PLANE; double l = n.norm(); s.b.n = n / l; s.b.d = d / l; return s; }
inline Sh halfspace(const V& n, double d) { Sh s; s.name = "halfspace"; s.g = std::make_shared<fcl::Halfspace<double>>(n, d); s.b.kind = cx::HALFSPACE; double l = n.norm(); s.b.n = n / l; s.b.d = d / l; return s; }

inline M rot(const V& axis, double a) { return Eigen::AngleAxisd(a, axis.normalized()).toRotationMatrix(); }
inline const std::vector<M>& rotations() {
  static std::vector<M> r;
  if (r.empty()) {
    r.push_back(M::Identity());
    M q; q << 0, 0, 1, 0, 1, 0, -1, 0, 0; r.push_back(q);                    // 90 deg about y, exact
    q << 1, 0, 0, 0, 0, -1, 0, 1, 0; r.push_back(q);                         // 90 deg about x, exact
    r.push_back(rot(V(0, 0, 1), M_PI / 4)); r.push_back(rot(V(1, 0, 0), M_PI / 4));
    q << 0, 0, 1, 1, 0, 0, 0, 1, 0; r.push_back(q);                          // 120 deg about (1,1,1), exact
    q << 1, 0, 0, 0, -1, 0, 0, 0, -1; r.push_back(q);                        // 180 deg about x, exact
    r.push_back(rot(V(1, 2, 3), 0.7)); r.push_back(rot(V(-3, 1, 2), 2.1)); r.push_back(rot(V(0, 1, 0), 1e-4));
    r.push_back(rot(V(0, 1, 0), M_PI / 4)); r.push_back(rot(V(1, 1, 0), M_PI / 2)); r.push_back(rot(V(1, 1, 1), M_PI / 3)); r.push_back(rot(V(0, 0, 1), 1e-7)); r.push_back(rot(V(2, -1, 0.5), 1.3)); r.push_back(rot(V(1, -1, 0.3), 2.5)); r.push_back(rot(V(0, 1, 1), 3.0));
  }
  return r;
}
// 13 lattice directions up to sign, all 26 with sign, zero first
inline const std::vector<V>& directions() {
  static std::vector<V> r;
  if (r.empty()) {
    for (int k = 1; k <= 3; ++k) for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if (std::abs(x) + std::abs(y) + std::abs(z) == k) r.push_back(V(x, y, z).normalized());
    r.push_back(V(0.3, 0.5, 0.81).normalized()); r.push_back(V(-0.9, 0.2, 0.05).normalized());
  }
  return r;
}
inline Tf tf(const M& R, const V& T) { Tf t = Tf::Identity(); t.linear() = R; t.translation() = T; return t; }
inline Body placed(const Body& b, const Tf& t) { Body r = b; r.R = t.linear(); r.T = t.translation(); return r; }
inline std::string vs(const V& v) { return mc::fmt("(%.9g, %.9g, %.9g)", v[0], v[1], v[2]); }
inline std::string ts(const Tf& t) { return mc::fmt("R=[%.9g %.9g %.9g; %.9g %.9g %.9g; %.9g %.9g %.9g] T=", t(0, 0), t(0, 1), t(0, 2), t(1, 0), t(1, 1), t(1, 2), t(2, 0), t(2, 1), t(2, 2)) + vs(t.translation()); }
// translation for body b (rotated by R) along n so that the gap along n is g
inline double along(const Body& a, const Body& b, const V& n, double g, bool& ok) {
  ok = true;
  if (!a.unbounded() && !b.unbounded()) return a.h(n) + b.h(-n) + g;
  return g;
}
} // namespace sw
#endif
