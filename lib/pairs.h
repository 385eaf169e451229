// pairs.h - the enumeration of shape pairs in relative poses used by the narrow-phase checks
#ifndef VERIF_PAIRS_H
#define VERIF_PAIRS_H
#include "shapes_world.h"
namespace sw {
inline std::vector<Sh>& shapes() {
  static std::vector<Sh> s;
  if (s.empty()) s = {sphere(0.5), box(1, 0.5, 0.75), capsule(0.25, 1), cone(0.5, 1), cylinder(0.375, 1), ellipsoid(0.5, 0.25, 0.75), tetra(), wedge(), plane(V(0, 0, 1), 0.25), halfspace(V(3, 0, 4), 0.625), halfspace(V(0, 0, -1), 0.125), prism(18, 0.5, 0.5), prism(40, 0.75, 0.25), sphere(0.0625), box(2, 0.0625, 1), capsule(0.0625, 2), cone(1, 0.25), cylinder(1, 0.125), ellipsoid(1, 0.125, 0.25), halfspace(V(-1, 2, 2), -1.5)};
  return s;
}
inline const std::vector<double>& gaps() { static std::vector<double> g = {1e-3, -1e-3, 0.25, -0.125, -0.5, 0.0, 3.0, 0.015625, 1e9, 1e-2, -0.02, 100, -0.25, -0.4, -0.7}; return g; }
struct Pose { int i, j, r, d, g, base; Tf t1, t2; Body b1, b2; bool indep; };
// nearly parallel and nearly perpendicular to the other body's axes, further than any tolerance
inline const std::vector<M>& tilts() { static std::vector<M> t; if (t.empty()) { t = {rot(V(0, 1, 0), 4e-3), rot(V(1, 0, 0), -0.02), rot(V(0, 1, 0), M_PI / 2 + 4e-3), rot(V(0, 1, 0), M_PI / 2 - 0.02), rot(V(1, 0, 0), M_PI / 2 + 4e-3), rot(V(1, 2, 0), 0.015)}; } return t; }
// gap along the direction: the bodies are placed so that their supporting planes along n are g apart;
// g = 1e9 stands for "reference points coincide"
inline Pose choose_pose(mc::C& c, int nshapes, int nrot, int ngap, int nbase) {
  Pose p; auto& S = shapes();
  p.i = c.choose(nshapes); p.j = c.choose(nshapes); if (S[p.i].b.unbounded() != S[p.j].b.unbounded()) { nrot = 16; ngap = 15; } if (nrot == 16 || (S[p.i].name == "box" && S[p.j].name == "box")) nrot = 16 + (int)tilts().size(); p.r = c.choose(nrot); p.indep = c.flag();
  p.base = c.choose(nbase); p.g = c.choose(ngap);
  double g = gaps()[p.g]; p.d = g > 1e8 ? 0 : c.choose((int)directions().size());
  V n = directions()[p.d]; M R = p.r < 16 ? rotations()[p.r] : tilts()[p.r - 16];
  Body a = S[p.i].b, b = S[p.j].b; b.R = R; V t = V::Zero();
  if (g < 1e8) {
    if (!a.unbounded() && !b.unbounded()) t = n * (a.h(n) + b.h(-n) + g);
    else if (a.unbounded() && b.unbounded()) t = n * g;
    else if (a.unbounded()) { V m = a.n; double low = -b.h(-m); t = m * (a.d - low + g) + (n - n.dot(m) * m); if (p.d & 1 && a.kind == cx::PLANE) { double high = b.h(m); t = m * (a.d - high - g) + (n - n.dot(m) * m); } }
    else { V m = R * b.n; double low = -a.h(-m); t = m * (low - g - b.d) + (n - n.dot(m) * m); if (p.d & 1 && b.kind == cx::PLANE) { double high = a.h(m); t = m * (high + g - b.d) + (n - n.dot(m) * m); } }
  }
  Tf base = p.base == 0 ? Tf(Tf::Identity()) : p.base == 1 ? tf(rotations()[7], V(1.5, -2.25, 0.75)) : tf(rotations()[8], V(-40, 30, 20));
  p.t1 = base; p.t2 = base * tf(R, t); p.b1 = placed(S[p.i].b, p.t1); p.b2 = placed(S[p.j].b, p.t2);
  if (c.verbose()) c.note("%s at %s\n%s at %s\nsolver %s", S[p.i].name.c_str(), ts(p.t1).c_str(), S[p.j].name.c_str(), ts(p.t2).c_str(), p.indep ? "GST_INDEP" : "GST_LIBCCD");
  return p;
}
enum { NBASIC = 11, NALL = 20 };
// pairs that are decided by the iterative convex solvers, not by a closed formula
inline bool iterative(const Pose& p) {
  const std::string &a = shapes()[p.i].name, &b = shapes()[p.j].name;
  if (shapes()[p.i].b.unbounded() || shapes()[p.j].b.unbounded()) return false;
  auto is = [&](const char* x, const char* y) { return (a == x && b == y) || (a == y && b == x); };
  return !(is("sphere", "sphere") || is("box", "box") || is("sphere", "capsule") || is("sphere", "box") || is("sphere", "cylinder"));
}
// the pose with the second body nudged a little, in a fixed set of skew directions
inline Tf nudged(const Pose& p, int k, double eps) { static const V d[4] = {V(0.61, 0.37, -0.7), V(-0.45, 0.8, 0.39), V(0.2, -0.55, 0.81), V(-0.83, -0.31, -0.46)}; Tf t = p.t2; t.linear() = t.linear() * rot(d[(k + 1) % 4], eps); t.translation() += d[k] * eps; return t; }
inline std::string pair_key(const Pose& p) { return shapes()[p.i].name + "-" + shapes()[p.j].name + (p.indep ? "/indep" : "/libccd"); }
} // namespace sw
#endif
