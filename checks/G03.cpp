// MC-BUILD: san=none
// G03: the bounding volumes computed for primitive shapes hold the shapes.
#include "mesh_world.h"
#include "fcl/geometry/shape/utility.h"
using namespace mw; using mc::fmt;
struct World { std::vector<Sh> s; std::vector<V> trans, dirs; std::vector<M> rots; };
static World& world() {
  static World w;
  if (w.s.empty()) {
    w.s = shapes();
    for (int m = 0; m < 2; ++m) for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if (x || y || z) for (double d : {0.0, 0.625, -1.25}) w.s.push_back(m ? halfspace(V(x, y, z), d) : plane(V(x, y, z), d));
    w.s.push_back(halfspace(V(1, 2, -0.5), 0.25)); w.s.push_back(plane(V(-0.3, 0.2, 1), -0.75));
    { Sh t; t.name = "triangle"; t.b.pts = {V(-0.5, 0.25, 0), V(1, 0.5, 0.25), V(0.25, -1, 0.75)}; t.g = std::make_shared<fcl::TriangleP<double>>(t.b.pts[0], t.b.pts[1], t.b.pts[2]); w.s.push_back(t); }
    w.s.push_back(box(1, 0, 2)); w.s.push_back(capsule(0.5, 0)); w.s.push_back(sphere(2.5)); w.s.push_back(ellipsoid(2, 1, 0.125)); w.s.push_back(cone(0.25, 3)); w.s.push_back(cylinder(2, 0.25));
    w.trans = {V(0, 0, 0), V(1.5, -2.25, 0.75), V(-40, 30, 20)};
    // the fixed rotations, then every rotation of a small integer quaternion
    w.rots = rotations(); for (int a = 0; a <= 3; ++a) for (int b = -3; b <= 3; ++b) for (int d = -3; d <= 3; ++d) for (int e = -3; e <= 3; ++e) { int nn = a * a + b * b + d * d + e * e; if (!nn || std::abs(b) + std::abs(d) + std::abs(e) + a > 6) continue; if (a == 0 && (b < 0 || (b == 0 && d < 0))) continue; w.rots.push_back(Eigen::Quaterniond(a, b, d, e).normalized().toRotationMatrix()); }
    for (auto& d : directions()) w.dirs.push_back(d);
    for (int x = -3; x <= 3; ++x) for (int y = -3; y <= 3; ++y) for (int z = -3; z <= 3; ++z) if (std::abs(x) + std::abs(y) + std::abs(z) > 3) w.dirs.push_back(V(x, y, z).normalized());
  }
  return w;
}
// a finite set of points of the body
static std::vector<V> points(const Body& b) {
  std::vector<V> r; auto& w = world();
  if (!b.unbounded()) {
    for (auto& d : w.dirs) { r.push_back(b.support(d)); r.push_back(b.R * b.support(b.R * d) * 0 + b.support(b.R * d)); }
    if (b.kind == cx::POINTS && b.r == 0) for (auto& p : b.pts) r.push_back(b.R * p + b.T);
    r.push_back(b.T * 0 + 0.5 * (b.support(V(1, 0, 0)) + b.support(V(-1, 0, 0)))); return r;
  }
  V n = b.wn(), u = n.unitOrthogonal(), v = n.cross(u); double d = b.wd();
  static const double k[] = {0, 1, -1, 7, -7, 300, -300};
  for (double x : k) for (double y : k) { r.push_back(n * d + u * x + v * y); if (b.kind == cx::HALFSPACE) for (double z : {1.0, 10.0, 500.0}) r.push_back(n * (d - z) + u * x + v * y); }
  return r;
}
template <class BV, class Shape> static void one(mc::C& c, const Sh& s, const Shape& g, const Tf& t, const std::vector<V>& pts, const Body& b) {
  BV bv; fcl::computeBV(g, t, bv); std::string k = std::string(bvs::Name<BV>::get()) + "/" + s.name;
  double scale = 1 + t.translation().norm();
  for (auto& p : pts) {
    double o = bvs::out(bv, p), tol = 1e-9 * (scale + p.norm());
    if (std::isinf(o) || std::isnan(o)) { c.fail("nan/" + k, fmt("point %s against the volume of %s: %g", vs(p).c_str(), ts(t).c_str(), o)); return; }
    if (!(o <= tol)) { c.fail("outside/" + k, fmt("%s at %s: point %s of the shape is %.6g outside its volume", s.name.c_str(), ts(t).c_str(), vs(p).c_str(), o)); return; }
  }
}
template <class Shape> static void all(mc::C& c, const Sh& s, const Tf& t) {
  auto& g = *static_cast<Shape*>(s.g.get()); Body b = placed(s.b, t); auto pts = points(b);
  switch (c.choose(8)) {
    case 0: one<fcl::AABB<double>>(c, s, g, t, pts, b); break;
    case 1: one<fcl::OBB<double>>(c, s, g, t, pts, b); break;
    case 2: one<fcl::RSS<double>>(c, s, g, t, pts, b); break;
    case 3: one<fcl::OBBRSS<double>>(c, s, g, t, pts, b); break;
    case 4: one<fcl::kIOS<double>>(c, s, g, t, pts, b); break;
    case 5: one<bvs::K16>(c, s, g, t, pts, b); break;
    case 6: one<bvs::K18>(c, s, g, t, pts, b); break;
    default: one<bvs::K24>(c, s, g, t, pts, b); break;
  }
}
static void local(mc::C& c, const Sh& s) {
  s.g->computeLocalAABB(); Body b = s.b; auto pts = points(b);
  for (auto& p : pts) {
    double o = bvs::out(s.g->aabb_local, p), tol = 1e-9 * (1 + p.norm());
    if (!(o <= tol)) c.fail("local/" + s.name, fmt("point %s of the shape is %.6g outside its local AABB", vs(p).c_str(), o));
    if (!b.unbounded()) { double q = (p - s.g->aabb_center).norm() - s.g->aabb_radius; if (!(q <= tol)) c.fail("radius/" + s.name, fmt("point %s of the shape is %.6g outside its bounding sphere", vs(p).c_str(), q)); }
  }
}
static void body(mc::C& c) {
  auto& w = world(); int i = c.choose((int)w.s.size()); const Sh& s = w.s[i]; c.context(s.name);
  int r = c.choose((int)w.rots.size()), tr = c.choose((int)w.trans.size()); Tf t = tf(w.rots[r], w.trans[tr]);
  c.state(mc::mix(i * 4096 + r, tr)); c.outcome(mc::mix(i, r));
  if (r == 0 && tr == 0) local(c, s);
  if (c.verbose()) c.note("%s n=%s d=%g at %s", s.name.c_str(), vs(s.b.n).c_str(), s.b.d, ts(t).c_str());
  c.count(s.b.unbounded() ? 1 : 0);
  switch (s.g->getNodeType()) {
    case fcl::GEOM_BOX: all<fcl::Box<double>>(c, s, t); break;
    case fcl::GEOM_SPHERE: all<fcl::Sphere<double>>(c, s, t); break;
    case fcl::GEOM_ELLIPSOID: all<fcl::Ellipsoid<double>>(c, s, t); break;
    case fcl::GEOM_CAPSULE: all<fcl::Capsule<double>>(c, s, t); break;
    case fcl::GEOM_CONE: all<fcl::Cone<double>>(c, s, t); break;
    case fcl::GEOM_CYLINDER: all<fcl::Cylinder<double>>(c, s, t); break;
    case fcl::GEOM_CONVEX: all<fcl::Convex<double>>(c, s, t); break;
    case fcl::GEOM_PLANE: all<fcl::Plane<double>>(c, s, t); break;
    case fcl::GEOM_HALFSPACE: all<fcl::Halfspace<double>>(c, s, t); break;
    default: all<fcl::TriangleP<double>>(c, s, t);
  }
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "G03"; s.body = body; s.shard_depth = 2;
  s.explanation = "every catalogue shape (including planes and half spaces along all 26 lattice directions at three offsets) under every rotation of a fixed list and three translations, for each of the 8 bounding volume types: extreme points in several hundred directions, all vertices, and for unbounded shapes lattices of points up to 500 away, must lie in the computed volume; the local AABB and bounding sphere likewise";
  s.assumptions = {"unbounded shapes are judged by points within 600 of the origin", "volumes may be larger than necessary"};
  s.counter_names = {"bounded", "unbounded"};
  return mc::run(argc, argv, s);
}
