// MC-BUILD: san=none
// M05: volume, centre of mass, inertia, bounding vertices and local bounds of geometries.
#include "shapes_world.h"
#include "bvs.h"
#include "fcl/geometry/bvh/BVH_model.h"
#include "fcl/geometry/shape/utility.h"
#include "fcl/math/bv/utility.h"
#include <functional>
using namespace sw; using mc::fmt;
struct Mass { double vol = 0; V m1 = V::Zero(); M m2 = M::Zero(); };   // integrals of 1, x, x x^T
static void tetra(Mass& r, const V& a, const V& b, const V& c, const V& d, double sign) {   // four-point rule, exact for quadratics
  double v = sign * (b - a).dot((c - a).cross(d - a)) / 6; const double p = 0.58541019662496845446, q = 0.13819660112501051518; const V* x[4] = {&a, &b, &c, &d}; r.vol += v;
  for (int i = 0; i < 4; ++i) { V s = V::Zero(); for (int j = 0; j < 4; ++j) s += *x[j] * (i == j ? p : q); r.m1 += s * (v / 4); r.m2 += s * s.transpose() * (v / 4); }
}
static Mass poly(const std::vector<V>& v, const std::vector<std::vector<int>>& f) { Mass r; V o = v[0] * 0.5 + v.back() * 0.5; for (auto& g : f) for (size_t i = 1; i + 1 < g.size(); ++i) tetra(r, o, v[g[0]], v[g[i]], v[g[i + 1]], 1); return r; }
// slices along z that are ellipses with half axes x(z), y(z); five-point Gauss rule on every piece
static void slices(Mass& r, double z0, double z1, std::function<double(double)> x, std::function<double(double)> y) {
  static const double P[5] = {0, 0.53846931010568309104, -0.53846931010568309104, 0.90617984593866399280, -0.90617984593866399280}, W[5] = {0.56888888888888888889, 0.47862867049936646804, 0.47862867049936646804, 0.23692688505618908751, 0.23692688505618908751};
  for (int i = 0; i < 5; ++i) { double z = (z0 + z1) / 2 + (z1 - z0) / 2 * P[i], w = W[i] * (z1 - z0) / 2, a = x(z), b = y(z), s = M_PI * a * b; r.vol += w * s; r.m1[2] += w * s * z; r.m2(0, 0) += w * s * a * a / 4; r.m2(1, 1) += w * s * b * b / 4; r.m2(2, 2) += w * s * z * z; }
}
static M inertia(const M& m2) { M r = -m2; for (int i = 0; i < 3; ++i) r(i, i) = m2((i + 1) % 3, (i + 1) % 3) + m2((i + 2) % 3, (i + 2) % 3); return r; }
static M shifted(const Mass& r) { V c = r.m1 / r.vol; return inertia(r.m2 - r.vol * c * c.transpose()); }
static std::string ms(const M& m) { return fmt("[%.9g %.9g %.9g; %.9g %.9g %.9g; %.9g %.9g %.9g]", m(0, 0), m(0, 1), m(0, 2), m(1, 0), m(1, 1), m(1, 2), m(2, 0), m(2, 1), m(2, 2)); }
static void mass(mc::C& c, const fcl::CollisionGeometry<double>& g, const Mass& r, double size, bool unit, const std::string& nm) {
  double v = g.computeVolume(); if (!(std::abs(v - r.vol) <= 1e-9 * size * size * size)) c.fail("volume/" + nm, fmt("volume %.12g, should be %.12g", v, r.vol));
  V m = g.computeCOM(), mm = r.m1 / r.vol; if (!((m - mm).norm() <= 1e-8 * size)) c.fail("com/" + nm, fmt("centre of mass %s, should be %s", vs(m).c_str(), vs(mm).c_str()));
  double u = unit ? 1 / r.vol : 1, tol = 1e-8 * size * size * (unit ? 1 : size * size * size); M I = g.computeMomentofInertia(), II = inertia(r.m2) * u; if (!((I - II).norm() <= tol)) c.fail("inertia/" + nm, "inertia about the origin " + ms(I) + ", should be " + ms(II));
  M K = g.computeMomentofInertiaRelatedToCOM(), KK = shifted(r) * u; if (!((K - KK).norm() <= 4 * tol)) c.fail("inertia-com/" + nm, "inertia about the centre of mass " + ms(K) + ", should be " + ms(KK));
}
static std::vector<V> dense() { static std::vector<V> d; if (d.empty()) { d = directions(); for (auto& R : rotations()) for (int k = 0; k < 26; ++k) d.push_back(R * directions()[k]); for (int i = -4; i <= 4; ++i) for (int j = -4; j <= 4; ++j) for (int s = 0; s < 6; ++s) { V v(i / 4.0, j / 4.0, s & 1 ? 1 : -1); d.push_back(V(v[s / 2], v[(s / 2 + 1) % 3], v[(s / 2 + 2) % 3]).normalized()); } } return d; }
static void bounds(mc::C& c, fcl::CollisionGeometry<double>& g, const Body& b, const std::string& nm, bool exact) {
  g.computeLocalAABB(); auto& x = g.aabb_local; double sz = (x.max_ - x.min_).norm();
  for (int k = 0; k < 3; ++k) { double hi = b.h(V::Unit(k)), lo = -b.h(-V::Unit(k)); double e = 1e-12 * sz + 1e-12 * std::max(std::abs(hi), std::abs(lo)); if (x.max_[k] < hi - e || x.min_[k] > lo + e) c.fail("aabb/" + nm, fmt("the local box is [%.12g %.12g] along axis %d, the geometry reaches [%.12g %.12g]", x.min_[k], x.max_[k], k, lo, hi)); if (exact && (x.max_[k] > hi + e || x.min_[k] < lo - e)) c.fail("aabb-loose/" + nm, fmt("the local box is [%.12g %.12g] along axis %d, the geometry only reaches [%.12g %.12g]", x.min_[k], x.max_[k], k, lo, hi)); }
  if (!((g.aabb_center - (x.min_ + x.max_) / 2).norm() <= 1e-12 * (sz + x.max_.norm()))) c.fail("aabb-centre/" + nm, "aabb_center " + vs(g.aabb_center) + " is not the centre of the local box");
  for (auto& d : dense()) { V p = b.support(d); if ((p - g.aabb_center).norm() > g.aabb_radius * (1 + 1e-12) + 1e-12 * x.max_.norm()) c.fail("radius/" + nm, fmt("point %s of the geometry is %.12g from aabb_center, aabb_radius is %.12g", vs(p).c_str(), (p - g.aabb_center).norm(), g.aabb_radius)); }
}
static void hull(mc::C& c, const std::vector<fcl::Vector3<double>>& v, const Body& b, const Tf& t, const std::string& nm) {   // the hull of v holds b
  Body w = placed(b, t); for (auto& d0 : dense()) for (int own = 0; own < 2; ++own) { V d = own ? V(t.linear() * d0) : d0; double h = -1e300; for (auto& p : v) h = std::max(h, p.dot(d)); if (h < w.h(d) - 1e-9 * (1 + std::abs(h))) c.fail("vertices/" + nm, fmt("the geometry reaches %.12g along %s, its bounding vertices only %.12g", w.h(d), vs(d).c_str(), h)); }
}
static const double P[] = {1, 0.25, 3.5, 1e-3, 100, 2};
static Tf place(mc::C& c, bool th) { static const double T[][3] = {{0, 0, 0}, {1, -2, 0.5}, {-30, 10, 20}, {0, 0, 3}}; int r = c.choose(th ? 16 : 9), p = c.choose(th ? 4 : 3); return tf(rotations()[r], V(T[p][0], T[p][1], T[p][2])); }
static void primitive(mc::C& c) {
  bool th = c.thorough(); int k = c.choose(6), n = th ? 6 : 5; double a = P[c.choose(n)], b = k == 1 ? 1 : P[c.choose(n)], d = k == 0 || k == 2 ? P[c.choose(n)] : 1; Sh s; Mass r;
  switch (k) {
    case 0: s = box(a, b, d); r.vol = a * b * d; r.m2.diagonal() = V(a * a, b * b, d * d) * (r.vol / 12); break;
    case 1: s = sphere(a); { auto x = [&](double z) { return std::sqrt(std::max(0.0, a * a - z * z)); }; slices(r, -a, a, x, x); } break;
    case 2: s = ellipsoid(a, b, d); slices(r, -d, d, [&](double z) { return a * std::sqrt(std::max(0.0, 1 - z * z / d / d)); }, [&](double z) { return b * std::sqrt(std::max(0.0, 1 - z * z / d / d)); }); break;
    case 3: s = capsule(a, b); { auto x = [&](double) { return a; }; slices(r, -b / 2, b / 2, x, x); auto y = [&](double z) { double w = std::abs(z) - b / 2; return std::sqrt(std::max(0.0, a * a - w * w)); }; slices(r, b / 2, b / 2 + a, y, y); slices(r, -b / 2 - a, -b / 2, y, y); } break;
    case 4: s = cone(a, b); { auto x = [&](double z) { return a * (0.5 - z / b); }; slices(r, -b / 2, b / 2, x, x); } break;
    case 5: s = cylinder(a, b); { auto x = [&](double) { return a; }; slices(r, -b / 2, b / 2, x, x); } break;
  }
  c.state(mc::mix(mc::mix(1, k), mc::mix(mc::hbits(a), mc::mix(mc::hbits(b), mc::hbits(d))))); c.context(fmt("%s %g %g %g", s.name.c_str(), a, b, d)); double size = 0; for (auto& q : directions()) size = std::max(size, s.b.h(q)); double least = std::min(a, std::min(b, d));
  // relative to the quantities themselves
  Mass q = r; (void)least; auto& g = *s.g; double v = g.computeVolume(); if (!(std::abs(v - q.vol) <= 1e-11 * q.vol)) c.fail("volume/" + s.name, fmt("volume %.15g, should be %.15g", v, q.vol)); V m = g.computeCOM(), mm = q.m1 / q.vol; if (!((m - mm).norm() <= 1e-11 * size)) c.fail("com/" + s.name, fmt("centre of mass %s, should be %s", vs(m).c_str(), vs(mm).c_str()));
  M I = g.computeMomentofInertia(), II = inertia(q.m2), K = g.computeMomentofInertiaRelatedToCOM(), KK = shifted(q); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double e = 1e-10 * (i == j ? II(i, i) : 0) + (i == j ? 0 : 1e-13 * II.trace()); if (!(std::abs(I(i, j) - II(i, j)) <= e)) { c.fail("inertia/" + s.name, "inertia about the origin " + ms(I) + ", should be " + ms(II)); return; } if (!(std::abs(K(i, j) - KK(i, j)) <= e)) { c.fail("inertia-com/" + s.name, "inertia about the centre of mass " + ms(K) + ", should be " + ms(KK)); return; } }
  bounds(c, g, s.b, s.name, true); c.count(0);
  Tf t = place(c, th); auto* sb = s.g.get(); std::vector<fcl::Vector3<double>> bv;
  switch (k) { case 0: bv = ((fcl::Box<double>*)sb)->getBoundVertices(t); break; case 1: bv = ((fcl::Sphere<double>*)sb)->getBoundVertices(t); break; case 2: bv = ((fcl::Ellipsoid<double>*)sb)->getBoundVertices(t); break; case 3: bv = ((fcl::Capsule<double>*)sb)->getBoundVertices(t); break; case 4: bv = ((fcl::Cone<double>*)sb)->getBoundVertices(t); break; default: bv = ((fcl::Cylinder<double>*)sb)->getBoundVertices(t); }
  hull(c, bv, s.b, t, s.name);
}
typedef std::vector<std::vector<int>> Faces;
static void solids(int i, std::vector<V>& v, Faces& f, bool& convex) {
  v.clear(); f.clear(); convex = true; auto pr = [&](int n, double r0, double r1, double h) { Faces g; std::vector<int> top, bot; for (int k = 0; k < 2; ++k) for (int j = 0; j < n; ++j) v.push_back(V((k ? r1 : r0) * std::cos(2 * M_PI * j / n + 0.2), (k ? r1 : r0) * std::sin(2 * M_PI * j / n + 0.2), k ? h : 0)); for (int j = 0; j < n; ++j) { top.push_back(n + j); bot.push_back(n - 1 - j); f.push_back({j, (j + 1) % n, n + (j + 1) % n, n + j}); } f.push_back(top); f.push_back(bot); };
  switch (i) {
    case 0: v = box_pts(1, 1, 1); f = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}}; break;
    case 1: v = {V(-0.5, -0.5, -0.25), V(0.75, -0.5, -0.25), V(-0.5, 0.75, -0.25), V(0, 0, 0.75)}; f = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}}; break;
    case 2: v = {V(1, 0, 0), V(0, 1, 0), V(-1, 0, 0), V(0, -1, 0), V(0, 0, 2), V(0, 0, -0.5)}; f = {{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}, {1, 0, 5}, {2, 1, 5}, {3, 2, 5}, {0, 3, 5}}; break;
    case 3: pr(3, 1, 1, 2); break; case 4: pr(7, 1, 0.5, 1.5); break; case 5: pr(5, 0.5, 2, 0.25); break;
    case 6: { v = box_pts(2, 2, 1); for (V& p : v) { if (p[2] > 0) { p[0] *= 0.5; p[1] *= 0.25; } p += V(3, 0, 0); } f = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}}; } break;
    case 7: convex = false; { double q[6][2] = {{0, 0}, {2, 0}, {2, 1}, {1, 1}, {1, 3}, {0, 3}}; for (int k = 0; k < 2; ++k) for (auto& p : q) v.push_back(V(p[0], p[1], k)); for (int j = 0; j < 6; ++j) f.push_back({j, (j + 1) % 6, 6 + (j + 1) % 6, 6 + j}); f.push_back({0, 3, 2}); f.push_back({0, 2, 1}); f.push_back({0, 5, 4}); f.push_back({0, 4, 3}); f.push_back({6, 8, 9}); f.push_back({6, 7, 8}); f.push_back({6, 10, 11}); f.push_back({6, 9, 10}); } break;   // an L
    default: { convex = false; v = box_pts(2, 2, 2); f = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}}; auto w = box_pts(0.5, 1, 0.5); for (V& p : w) v.push_back(p + V(0.25, 0, 0.5)); Faces g = f; for (auto& x : g) { std::reverse(x.begin(), x.end()); for (int& y : x) y += 8; f.push_back(x); } }   // a box with a hole
  }
}
template <class BV> static std::shared_ptr<fcl::CollisionGeometry<double>> bvh(const std::vector<V>& v, const Faces& f, int how) {
  auto g = std::make_shared<fcl::BVHModel<BV>>(); std::vector<fcl::Triangle> t; for (auto& x : f) for (size_t i = 1; i + 1 < x.size(); ++i) t.push_back(fcl::Triangle(x[0], x[i], x[i + 1]));
  g->beginModel(); if (how == 0) g->addSubModel(std::vector<fcl::Vector3<double>>(v.begin(), v.end()), t); else for (auto& x : t) g->addTriangle(v[x[0]], v[x[1]], v[x[2]]); g->endModel();
  if (how == 2) { g->beginReplaceModel(); for (auto& x : t) g->replaceTriangle(v[x[0]], v[x[1]], v[x[2]]); g->endReplaceModel(); }
  return g;
}
static void polyhedron(mc::C& c) {
  bool th = c.thorough(); int kind = c.choose(9), i = c.choose(9), sc = c.choose(th ? 5 : 3), turn = c.choose(th ? 4 : 2); std::vector<V> v; Faces f; bool convex; solids(i, v, f, convex); if (kind == 0 && !convex) return; Tf t = place(c, th); static const double SC[] = {1, 0.125, 12, 1e-3, 1000}; int how = kind ? c.choose(3) : 0;
  for (V& p : v) p = SC[sc] * (t * p); for (auto& x : f) std::rotate(x.begin(), x.begin() + turn % x.size(), x.end()); if (turn == 1) std::reverse(f.begin(), f.end());
  Mass r = poly(v, f); Body b; b.pts = v; double size = 0; for (V& p : v) size = std::max(size, p.norm()); std::shared_ptr<fcl::CollisionGeometry<double>> g; std::string nm = kind ? "mesh" : "convex";
  switch (kind) { case 0: g = make_convex(v, f); break; case 1: g = bvh<fcl::AABB<double>>(v, f, how); break; case 2: g = bvh<fcl::OBB<double>>(v, f, how); break; case 3: g = bvh<fcl::RSS<double>>(v, f, how); break; case 4: g = bvh<fcl::OBBRSS<double>>(v, f, how); break; case 5: g = bvh<fcl::kIOS<double>>(v, f, how); break; case 6: g = bvh<fcl::KDOP<double, 16>>(v, f, how); break; case 7: g = bvh<fcl::KDOP<double, 18>>(v, f, how); break; default: g = bvh<fcl::KDOP<double, 24>>(v, f, how); }
  c.state(mc::mix(mc::mix(2, kind * 16 + i), mc::mix(sc * 8 + turn, mc::mix(mc::hbits(t(0, 0) + 2 * t(1, 1) + 5 * t(0, 3) + t(0, 1)), how)))); c.context(fmt("%s solid %d", nm.c_str(), i));
  mass(c, *g, r, size, kind == 0, nm); bounds(c, *g, b, nm, true); if (kind == 0) { Tf q = tf(rotations()[7], V(1, 2, 3)); hull(c, ((fcl::Convex<double>*)g.get())->getBoundVertices(q), b, q, nm); } c.count(1);
}
static void unbounded(mc::C& c) {   // signed distances and normalisation of planes and half-spaces
  bool th = c.thorough(); static const double L[] = {1, 0.1, 7, 1e-3}; static const double D[] = {0, 1, -2.5, 1e-3}; bool plane = c.flag(), comp = c.flag(); V n = directions()[c.choose(28)] * L[c.choose(th ? 4 : 3)]; double d = D[c.choose(4)]; double l = n.norm(); V u = n / l; double e = d / l;
  c.state(mc::mix(mc::mix(3, plane * 2 + comp), mc::mix(mc::hbits(n[0] + 3 * n[1] + 7 * n[2]), mc::hbits(d))));
  fcl::Plane<double> p = comp ? fcl::Plane<double>(n[0], n[1], n[2], d) : fcl::Plane<double>(n, d); fcl::Halfspace<double> h = comp ? fcl::Halfspace<double>(n[0], n[1], n[2], d) : fcl::Halfspace<double>(n, d);
  V nn = plane ? V(p.n) : V(h.n); double dd = plane ? p.d : h.d; if (!((nn - u).norm() <= 1e-12) || !(std::abs(dd - e) <= 1e-12 * (1 + std::abs(e)))) c.fail("normalise", fmt("normal %s offset %g became %s and %g", vs(n).c_str(), d, vs(nn).c_str(), dd));
  for (auto& q0 : directions()) for (double s : {0.0, 0.5, 3.0}) { V q = q0 * s; double x = u.dot(q) - e; double a = plane ? p.signedDistance(q) : h.signedDistance(q), b = plane ? p.distance(q) : h.distance(q), want = plane ? std::abs(x) : std::abs(x); if (!(std::abs(a - x) <= 1e-12 * (1 + std::abs(x) + std::abs(e)))) c.fail("signed", fmt("signed distance of %s is %g, should be %g", vs(q).c_str(), a, x)); if (!(std::abs(b - want) <= 1e-12 * (1 + std::abs(e)))) c.fail("distance", fmt("distance of %s is %g, should be %g", vs(q).c_str(), b, want)); }
  Tf t = place(c, th); if (plane) { auto w = fcl::transform(p, t); V m = t.linear() * u; double k = e + m.dot(t.translation()); if (!((w.n - m).norm() < 1e-12) || !(std::abs(w.d - k) < 1e-10 * (1 + std::abs(k)))) c.fail("transform/plane", "the moved plane is " + vs(w.n)); } else { auto w = fcl::transform(h, t); V m = t.linear() * u; double k = e + m.dot(t.translation()); if (!((w.n - m).norm() < 1e-12) || !(std::abs(w.d - k) < 1e-10 * (1 + std::abs(k)))) c.fail("transform/halfspace", "the moved half-space is " + vs(w.n)); }
  if (plane) p.computeLocalAABB(); else h.computeLocalAABB(); auto& x = plane ? p.aabb_local : h.aabb_local;
  V o = u * e, s1 = u.unitOrthogonal(), s2 = u.cross(s1); for (double r : {0.0, 1.0, 1e3, 1e6}) for (int i = 0; i < 8; ++i) for (int k = 0; k < 3; ++k) { if (plane && k) continue; V q = o + (s1 * std::cos(i * M_PI / 4) + s2 * std::sin(i * M_PI / 4)) * r - u * (double)(k * k) * r; for (int z = 0; z < 3; ++z) if (q[z] > x.max_[z] + 1e-9 * (1 + r) || q[z] < x.min_[z] - 1e-9 * (1 + r)) c.fail(plane ? "aabb/plane" : "aabb/halfspace", fmt("point %s is outside the local box", vs(q).c_str())); }
  c.count(2);
}
static void boxes(mc::C& c) {   // constructBox: the box of a bounding volume, in the frame that is asked for
  bool th = c.thorough(); int k = c.choose(8), w = c.choose(6); std::vector<V> pts; static const double X[6][3] = {{1, 1, 1}, {1, 0.5, 0.25}, {3, 0, 1}, {0.01, 2, 0.5}, {0, 0, 1}, {5, 4, 0.125}}; M R = rotations()[c.choose(th ? 12 : 6)]; for (V& p : box_pts(X[w][0], X[w][1], X[w][2])) pts.push_back(R * p + V(0.5, -1, 2)); Tf t = place(c, th);
  c.state(mc::mix(mc::mix(4, k * 8 + w), mc::mix(mc::hbits(R(0, 0) + 2 * R(1, 2) + 3 * R(2, 1)), mc::hbits(t(0, 0) + 2 * t(1, 1) + 5 * t(0, 3) + t(0, 1)))));
  auto go = [&](auto bv, const char* nm) { for (auto& p : pts) bv += fcl::Vector3<double>(p); fcl::Box<double> b1, b2; Tf t1, t2; fcl::constructBox(bv, b1, t1); fcl::constructBox(bv, t, b2, t2);
    for (auto& p : pts) { V q = t1.inverse() * p, r = t2.inverse() * (t * p); for (int z = 0; z < 3; ++z) { double e = 1e-9 + 1e-9 * b1.side.norm(); if (std::abs(q[z]) > b1.side[z] / 2 + e) c.fail(std::string("box/") + nm, fmt("point %s of the volume is %g outside its box", vs(p).c_str(), std::abs(q[z]) - b1.side[z] / 2)); if (std::abs(r[z]) > b2.side[z] / 2 + e) c.fail(std::string("box-moved/") + nm, fmt("point %s of the moved volume is %g outside its box", vs(p).c_str(), std::abs(r[z]) - b2.side[z] / 2)); } }
    if (!((b1.side - b2.side).norm() < 1e-12)) c.fail(std::string("box-size/") + nm, "the size of the box depends on where the volume is"); };
  switch (k) { case 0: { fcl::AABB<double> a(pts[0]); go(a, "AABB"); } break; case 1: { fcl::OBB<double> a; fcl::fit(pts.data(), 8, a); go(a, "OBB"); } break; case 2: { fcl::RSS<double> a; fcl::fit(pts.data(), 8, a); go(a, "RSS"); } break; case 3: { fcl::OBBRSS<double> a; fcl::fit(pts.data(), 8, a); go(a, "OBBRSS"); } break; case 4: { fcl::kIOS<double> a; fcl::fit(pts.data(), 8, a); go(a, "kIOS"); } break; case 5: { fcl::KDOP<double, 16> a(pts[0]); go(a, "KDOP16"); } break; case 6: { fcl::KDOP<double, 18> a(pts[0]); go(a, "KDOP18"); } break; default: { fcl::KDOP<double, 24> a(pts[0]); go(a, "KDOP24"); } }
  c.count(3);
}
static void thresholds(mc::C& c) {   // occupied, free and uncertain follow from the density and the thresholds
  static const double D[] = {-1, 0, 0.25, 0.5, 0.75, 1, 2}; fcl::Sphere<double> s(1); int a = c.choose(7), b = c.choose(7), d = c.choose(7); s.cost_density = D[a]; s.threshold_free = D[b]; s.threshold_occupied = D[d]; c.state(mc::mix(5, a * 49 + b * 7 + d)); bool o = D[a] >= D[d], f = D[a] <= D[b]; if (s.isOccupied() != o || s.isFree() != f || s.isUncertain() != (!o && !f)) c.fail("thresholds", fmt("density %g, free up to %g, occupied from %g: occupied %d free %d uncertain %d", D[a], D[b], D[d], s.isOccupied(), s.isFree(), s.isUncertain())); c.count(4);
}
static void run(mc::C& c) { switch (c.choose(5)) { case 0: primitive(c); break; case 1: polyhedron(c); break; case 2: unbounded(c); break; case 3: boxes(c); break; default: thresholds(c); } }
int main(int argc, char** argv) {
  mc::Spec s; s.property = "M05"; s.body = run; s.shard_depth = 3; s.hang_s = 10; s.counter_names = {"primitives", "polyhedra", "unbounded", "boxes", "thresholds"};
  s.explanation = "Every geometry of the stated parameter pools is built on the real code and its volume, centre of mass, inertia, bounds and bounding vertices are compared with integrals and support functions that the oracle computes on its own.";
  s.assumptions = {"parameters come from finite pools", "Convex gives inertia per unit of mass (as its tests say), all other geometries for unit density"};
  return mc::run(argc, argv, s);
}
