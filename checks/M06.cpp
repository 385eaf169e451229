// MC-BUILD: san=none
// M06: convex meshes are checked and searched right; support and centre functions of the convex solvers; representations.
#include "pairs.h"
#include "fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd.h"
#include "fcl/narrowphase/detail/convexity_based_algorithm/minkowski_diff.h"
#include <sstream>
using namespace sw; using mc::fmt;
typedef std::vector<std::vector<int>> Faces;
struct Msh { std::string name; std::vector<V> v; Faces f; };
// surface of a box, each side cut into n x n pieces; pattern 0 quads, 1 and 2 triangles of either diagonal, 3 with a vertex in the middle of every piece
static Msh grid_box(int n, int pattern, const V& s) {
  Msh m; m.name = fmt("box%d/%d", n, pattern); std::map<std::array<long, 3>, int> id;
  auto at = [&](const V& p) { std::array<long, 3> k{std::lround(p[0] * 1000), std::lround(p[1] * 1000), std::lround(p[2] * 1000)}; auto it = id.find(k); if (it != id.end()) return it->second; int i = (int)m.v.size(); m.v.push_back(V(p[0] * s[0], p[1] * s[1], p[2] * s[2])); id[k] = i; return i; };
  for (int ax = 0; ax < 3; ++ax) for (int sd = 0; sd < 2; ++sd) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    auto pt = [&](double a, double b) { V p; p[ax] = sd - 0.5; p[(ax + 1) % 3] = a / n - 0.5; p[(ax + 2) % 3] = b / n - 0.5; return p; };
    int q[4] = {at(pt(i, j)), at(pt(i + 1, j)), at(pt(i + 1, j + 1)), at(pt(i, j + 1))}; if (!sd) std::swap(q[1], q[3]);
    if (pattern == 0) m.f.push_back({q[0], q[1], q[2], q[3]});
    else if (pattern == 1) { m.f.push_back({q[0], q[1], q[2]}); m.f.push_back({q[0], q[2], q[3]}); }
    else if (pattern == 2) { m.f.push_back({q[1], q[2], q[3]}); m.f.push_back({q[1], q[3], q[0]}); }
    else { int k = at(pt(i + 0.5, j + 0.5)); for (int t = 0; t < 4; ++t) m.f.push_back({q[t], q[(t + 1) % 4], k}); }
  }
  return m;
}
// n-sided prism; caps as one polygon, a fan about the middle, or rings of points about the middle
static Msh prism_mesh(int n, int rings, double r, double h) {
  Msh m; m.name = fmt("prism%d/%d", n, rings); int R = std::max(rings, 1); auto id = [&](int k, int q, int i) { return (k * R + q) * n + (i + n) % n; };
  for (int k = 0; k < 2; ++k) for (int q = 0; q < R; ++q) for (int i = 0; i < n; ++i) { double rr = r * (q + 1) / R; m.v.push_back(V(rr * std::cos(2 * M_PI * i / n), rr * std::sin(2 * M_PI * i / n), k ? h / 2 : -h / 2)); }
  for (int i = 0; i < n; ++i) m.f.push_back({id(0, R - 1, i), id(0, R - 1, i + 1), id(1, R - 1, i + 1), id(1, R - 1, i)});
  for (int k = 0; k < 2; ++k) { auto add = [&](std::vector<int> f) { if (!k) std::reverse(f.begin(), f.end()); m.f.push_back(f); };
    if (!rings) { std::vector<int> f; for (int i = 0; i < n; ++i) f.push_back(id(k, 0, i)); add(f); continue; }
    int mid = (int)m.v.size(); m.v.push_back(V(0, 0, k ? h / 2 : -h / 2)); for (int i = 0; i < n; ++i) { add({mid, id(k, 0, i), id(k, 0, i + 1)}); for (int q = 1; q < R; ++q) { if (q & 1) add({id(k, q - 1, i), id(k, q, i), id(k, q, i + 1), id(k, q - 1, i + 1)}); else { add({id(k, q - 1, i), id(k, q, i), id(k, q, i + 1)}); add({id(k, q - 1, i), id(k, q, i + 1), id(k, q - 1, i + 1)}); } } } }
  return m;
}
static Msh ball(int n, int k, double a, double b, double c) {
  Msh m; m.name = fmt("ball%d", n); m.v.push_back(V(0, 0, c)); for (int q = 1; q < k; ++q) for (int i = 0; i < n; ++i) { double t = M_PI * q / k; m.v.push_back(V(a * std::sin(t) * std::cos(2 * M_PI * i / n), b * std::sin(t) * std::sin(2 * M_PI * i / n), c * std::cos(t))); }
  int last = (int)m.v.size(); m.v.push_back(V(0, 0, -c)); auto id = [&](int q, int i) { return 1 + (q - 1) * n + i % n; };
  for (int i = 0; i < n; ++i) { m.f.push_back({0, id(1, i), id(1, i + 1)}); m.f.push_back({last, id(k - 1, i + 1), id(k - 1, i)}); for (int q = 1; q + 1 < k; ++q) m.f.push_back({id(q, i), id(q + 1, i), id(q + 1, i + 1), id(q, i + 1)}); }
  return m;
}
// a pyramid whose base is a triangle cut ever finer by joining a point of one of its triangles to the corners (degree-three vertices); the sides hold a prism so that there are enough vertices
static Msh stacked(int k, int order) {
  Msh m = prism_mesh(16, 0, 1, 1); m.name = fmt("stacked%d/%d", k, order); m.f.pop_back(); m.f.pop_back(); std::vector<int> top, bot; for (int i = 0; i < 16; ++i) { top.push_back(16 + i); bot.push_back(15 - i); } m.f.push_back(top);
  Faces t; int c0 = (int)m.v.size(); m.v.push_back(V(0, 0, -0.5)); for (int i = 0; i < 16; ++i) t.push_back({bot[i], bot[(i + 1) % 16], c0});
  for (int j = 0; j < k; ++j) { int q = order == 0 ? 0 : order == 1 ? (int)t.size() - 1 : (j * 7 + 3) % (int)t.size(); auto f = t[q]; int x = (int)m.v.size(); m.v.push_back((m.v[f[0]] + m.v[f[1]] + m.v[f[2]]) / 3); t[q] = {f[0], f[1], x}; t.push_back({f[1], f[2], x}); t.push_back({f[2], f[0], x}); }
  for (auto& f : t) m.f.push_back(f); return m;
}
static std::vector<Msh>& pool() { static std::vector<Msh> p; if (p.empty()) p = {grid_box(3, 1, V(1, 1, 1)), grid_box(3, 0, V(1, 2, 0.5)), prism_mesh(17, 0, 1, 0.5), prism_mesh(17, 1, 1, 2), prism_mesh(6, 4, 1, 0.25), ball(8, 6, 1, 1, 1), stacked(3, 0), stacked(4, 2), grid_box(2, 3, V(1, 1, 0.01)), grid_box(4, 2, V(1, 1, 1)), grid_box(3, 3, V(2, 1, 1)), ball(12, 9, 0.1, 1, 3), stacked(6, 1), prism_mesh(8, 5, 1, 1), grid_box(6, 1, V(1, 1, 1)), stacked(12, 2)}; return p; }
static const std::vector<V>& dense() { static std::vector<V> d; if (d.empty()) { d = directions(); for (auto& R : rotations()) for (int k = 0; k < 26; ++k) d.push_back(R * directions()[k]); for (int k = 0; k < 26; ++k) { d.push_back(directions()[k] + V(1e-8, -2e-8, 3e-8)); d.push_back(directions()[k] + V(-3e-15, 1e-15, 2e-16)); } } return d; }
static std::shared_ptr<fcl::Convex<double>> convex(const std::vector<V>& v, const Faces& f, bool thrw) {
  auto vs = std::make_shared<std::vector<fcl::Vector3<double>>>(v.begin(), v.end()); auto fs = std::make_shared<std::vector<int>>(); for (auto& g : f) { fs->push_back((int)g.size()); for (int i : g) fs->push_back(i); }
  return std::make_shared<fcl::Convex<double>>(vs, (int)f.size(), fs, thrw);
}
static void extremes(mc::C& c, const fcl::Convex<double>& x, const std::string& nm, const M& R) {
  auto& vs = x.getVertices(); double size = 0; for (auto& p : vs) size = std::max(size, p.norm()); long n = 0;
  for (auto& d0 : dense()) for (int own = 0; own < 2; ++own) { V d = own ? V(R * d0) : d0; double best = -1e300; for (auto& p : vs) best = std::max(best, p.dot(d)); const V& e = x.findExtremeVertex(d); ++n;
    if (&e < vs.data() || &e >= vs.data() + vs.size()) { c.fail("extreme/foreign/" + nm, "the extreme vertex is not one of the vertices"); break; }
    if (!(e.dot(d) >= best - 1e-12 * size)) { c.fail("extreme/" + nm, fmt("the farthest vertex along %s lies at %.12g, findExtremeVertex gave ", sw::vs(d).c_str(), best) + sw::vs(e) + fmt(" at %.12g", e.dot(d))); break; } }
  c.count(0, n);
}
static void walk(mc::C& c, bool perms) {
  bool th = c.thorough(); std::vector<int> to; Msh m; M R = M::Identity();
  if (!perms) { m = pool()[c.choose(th ? (int)pool().size() : 9)]; int n = (int)m.v.size(), start = c.choose(th || n <= 64 ? n : 64), st = c.choose(th ? 10 : 3), r = c.choose(th ? 6 : 3); static const int S[] = {1, 7, -1, 5, 11, -3, 13, 17, 19, 23}; R = r == 0 ? M(M::Identity()) : r == 1 ? rotations()[7] : rotations()[6 + r];
    int s = S[st]; auto g = [](int a, int b) { while (b) { int t = a % b; a = b; b = t; } return a; }; while (g(std::abs(s), n) != 1) s += 2; to.resize(n); for (int i = 0; i < n; ++i) to[i] = (int)((((long)(i - start) * s) % n + n) % n); }
  else { static const int K[][2] = {{3, 0}, {4, 2}, {5, 2}, {5, 1}, {6, 2}}; int w = c.choose(th ? 5 : 3); m = stacked(K[w][0], K[w][1]); int n = (int)m.v.size(), inner = n - 32; R = c.flag() ? rotations()[7] : M(M::Identity());   // every order of the inner vertices, with the first at the start of the table
    std::vector<int> left; for (int i = 0; i < inner; ++i) left.push_back(i); to.assign(n, 0); for (int i = 0; i < inner; ++i) { int k = c.choose((int)left.size()); to[32 + i] = left[k] == 0 ? 0 : 32 + left[k]; left.erase(left.begin() + k); }
    for (int i = 0; i < 32; ++i) to[i] = i + 1; }
  std::vector<V> v(m.v.size()); for (size_t i = 0; i < v.size(); ++i) v[to[i]] = R * m.v[i]; Faces f = m.f; for (auto& g : f) for (int& i : g) i = to[i];
  std::shared_ptr<fcl::Convex<double>> x; try { x = convex(v, f, true); } catch (std::exception& e) { c.fail("valid/" + m.name, std::string("a closed convex mesh was refused: ") + e.what()); return; }
  fcl::Convex<double> copy(*x); extremes(c, perms ? copy : *x, m.name, R); if (!perms) { for (size_t i = 0; i < v.size(); ++i) { V d = x->getInteriorPoint(); (void)d; } }
}
static void validity(mc::C& c) {
  bool th = c.thorough(); static std::vector<Msh> p; if (p.empty()) { p = {Msh{"tetra", {V(0, 0, 0), V(1, 0, 0), V(0, 1, 0), V(0, 0, 1)}, {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}}}, grid_box(1, 0, V(1, 1, 1)), grid_box(2, 1, V(1, 1, 1)), grid_box(2, 3, V(1, 1, 1)), prism_mesh(17, 1, 1, 1)}; }
  const Msh& m = p[c.choose((int)p.size())]; int what = c.choose(6), n = (int)m.f.size(); std::vector<V> v = m.v; Faces f = m.f; bool bad = true; std::string w;
  switch (what) {
    case 0: bad = false; w = "closed"; break;
    case 1: f.erase(f.begin() + c.choose(n)); w = "a face is missing"; break;
    case 2: f.push_back(f[c.choose(n)]); w = "a face is there twice"; break;
    case 3: v.push_back(V(0.1, 0.1, 0.1)); w = "a vertex is not used"; break;
    case 4: { int k = c.choose(n); if (c.flag()) std::reverse(f[k].begin(), f[k].end()); else std::rotate(f[k].begin(), f[k].begin() + 1, f[k].end()); bad = false; w = "a face is turned"; break; }   // winding is not checked
    default: { int k = c.choose(n), a = c.choose(n); if (a == k) c.prune(); f.erase(f.begin() + std::max(a, k)); f.erase(f.begin() + std::min(a, k)); w = "two faces are missing"; break; }
  }
  (void)th; bool threw = false; try { convex(v, f, true); } catch (std::exception&) { threw = true; } c.outcome(mc::mix(what, threw));
  if (threw != bad) c.fail(fmt("validation/%s/%d", m.name.c_str(), what), "mesh " + m.name + " where " + w + (threw ? " is refused" : " is accepted"));
  std::shared_ptr<fcl::Convex<double>> x; try { x = convex(v, f, false); } catch (std::exception& e) { c.fail("validation/throws", std::string("threw although asked not to: ") + e.what()); return; }
  extremes(c, *x, "invalid-" + m.name, M::Identity()); fcl::Convex<double> y(*x); extremes(c, y, "invalid-" + m.name, M::Identity());
}
struct Tri { V a, b, c; };
static std::vector<Tri>& tris() { static std::vector<Tri> t = {{V(0, 0, 0), V(1, 0, 0), V(0, 1, 0)}, {V(-1, 2, 0.5), V(0.25, -1, 3), V(2, 0, -0.125)}, {V(0, 0, 0), V(1, 0, 0), V(3, 0, 0)}, {V(5, 5, 5), V(5, 5, 6), V(5, 6, 5)}}; return t; }
static std::vector<Sh>& all() { static std::vector<Sh> s; if (s.empty()) { for (auto& x : shapes()) if (!x.b.unbounded()) s.push_back(x); s.push_back(prism(20, 1, 0.5)); s.push_back(cone(0.05, 4)); s.push_back(cone(3, 0.2)); s.push_back(cylinder(4, 0.01)); s.push_back(ellipsoid(5, 0.1, 0.02)); s.push_back(capsule(2, 0.1));
    for (auto& t : tris()) { Sh q; q.name = "triangle"; q.g = std::make_shared<fcl::TriangleP<double>>(t.a, t.b, t.c); q.b.pts = {t.a, t.b, t.c}; s.push_back(q); } } return s; }
static double size_of(const Body& b) { double r = 0; for (auto& d : directions()) r = std::max(r, b.h(d)); return r; }
static bool inside(const Body& b, const V& p, double tol) { for (auto& d : dense()) if (p.dot(d) > b.h(d) + tol * (1 + d.norm())) return false; for (auto& d0 : dense()) { V d = b.R * d0; if (p.dot(d) > b.h(d) + tol * (1 + d.norm())) return false; } return true; }
template <class T> static void ccd(mc::C& c, const Sh& s, const Tf& t, bool tri) {
  typedef fcl::detail::GJKInitializer<double, T> I; Body b = placed(s.b, t); double tol = 1e-12 * (size_of(b) + t.translation().norm() + 1);
  void* o = I::createGJKObject(static_cast<const T&>(*s.g), t); auto f = I::getSupportFunction(); auto ce = I::getCenterFunction(); (void)tri;
  ccd_vec3_t q; ce(o, &q); V m(q.v[0], q.v[1], q.v[2]); for (auto& d : dense()) if (!(m.dot(d) < b.h(d) - 1e-3 * (b.h(d) + b.h(-d)))) { c.fail("centre/" + s.name, "the centre " + sw::vs(m) + " is not inside"); break; }
  for (auto& d0 : dense()) for (double k : {1.0, 1e-4, 250.0}) { V d = d0 * k; ccd_vec3_t dd, v; ccdVec3Set(&dd, d[0], d[1], d[2]); f(o, &dd, &v); V p(v.v[0], v.v[1], v.v[2]); c.count(0);
    if (!(p.dot(d0) >= b.h(d0) - 4 * tol)) { c.fail("support/libccd/" + s.name, "support along " + sw::vs(d) + " is " + sw::vs(p) + fmt(" at %.12g, the shape reaches %.12g", p.dot(d0), b.h(d0))); break; }
    if (k == 1.0 && !inside(b, p, 4 * tol)) { c.fail("support-outside/libccd/" + s.name, "support along " + sw::vs(d) + " is " + sw::vs(p) + ", which is outside of the shape"); break; } }
  I::deleteGJKObject(o);
}
static void supports_ccd(mc::C& c) {
  const Sh& s = all()[c.choose((int)all().size())]; Tf t = tf(rotations()[c.choose(c.thorough() ? 16 : 9)], std::vector<V>{V(0, 0, 0), V(1.5, -2, 0.5), V(-300, 20, 1)}[c.choose(3)]);
  const std::string& n = s.name; c.outcome(mc::mix(0, c.choose(1)));
  if (n == "sphere") ccd<fcl::Sphere<double>>(c, s, t, false); else if (n == "ellipsoid") ccd<fcl::Ellipsoid<double>>(c, s, t, false); else if (n == "box") ccd<fcl::Box<double>>(c, s, t, false); else if (n == "capsule") ccd<fcl::Capsule<double>>(c, s, t, false);
  else if (n == "cone") ccd<fcl::Cone<double>>(c, s, t, false); else if (n == "cylinder") ccd<fcl::Cylinder<double>>(c, s, t, false);
  else if (n == "triangle") {
    auto* T = static_cast<fcl::TriangleP<double>*>(s.g.get()); Body b = placed(s.b, t); double tol = 1e-12 * (size_of(b) + 1);
    for (int way = 0; way < 2; ++way) { Body bb = way ? s.b : b; void* o = way ? fcl::detail::triCreateGJKObject<double>(T->a, T->b, T->c) : fcl::detail::triCreateGJKObject<double>(T->a, T->b, T->c, t); auto f = fcl::detail::triGetSupportFunction();
      ccd_vec3_t q; fcl::detail::triGetCenterFunction()(o, &q); V m(q.v[0], q.v[1], q.v[2]), mm = (T->a + T->b + T->c) / 3; if (!way) mm = t * mm; if ((m - mm).norm() > 4 * tol) c.fail("centre/triangle", "the centre is " + sw::vs(m) + ", should be " + sw::vs(mm));
      for (auto& d : dense()) { ccd_vec3_t dd, v; ccdVec3Set(&dd, d[0], d[1], d[2]); f(o, &dd, &v); V p(v.v[0], v.v[1], v.v[2]); c.count(0); if (!(p.dot(d) >= bb.h(d) - 4 * tol) || !inside(bb, p, 4 * tol)) { c.fail("support/libccd/triangle", "support along " + sw::vs(d) + " is " + sw::vs(p) + fmt(" at %.12g, the triangle reaches %.12g", p.dot(d), bb.h(d))); break; } }
      fcl::detail::triDeleteGJKObject(o); } }
  else ccd<fcl::Convex<double>>(c, s, t, false);
}
static void supports_indep(mc::C& c) {
  bool th = c.thorough(); int n = (int)all().size(), i = c.choose(n), j = c.choose(n); if (!th && i != j && c.choose(1)) return; const Sh &a = all()[i], &b = all()[j]; Tf t = tf(rotations()[th ? c.choose(16) : 3 * c.choose(4)], std::vector<V>{V(1.5, -2, 0.5), V(0, 0, 0), V(-300, 20, 1)}[c.choose(th ? 3 : 1)]);
  fcl::detail::MinkowskiDiff<double> m; m.shapes[0] = static_cast<const fcl::ShapeBase<double>*>(a.g.get()); m.shapes[1] = static_cast<const fcl::ShapeBase<double>*>(b.g.get()); m.toshape1 = t.linear().transpose(); m.toshape0 = t;
  Body B = placed(b.b, t); double tol = 1e-12 * (size_of(a.b) + size_of(B) + 1);
  for (auto& d0 : dense()) { V d = d0.normalized(); V p = m.support(d, 0), q = m.support(d, 1), s = m.support(d), q2 = m.support(-d, 1); c.count(0);
    if (!(p.dot(d) >= a.b.h(d) - tol) || !inside(a.b, p, 2 * tol)) { c.fail("support/indep/" + a.name, "support along " + sw::vs(d) + " is " + sw::vs(p) + fmt(" at %.12g, the shape reaches %.12g", p.dot(d), a.b.h(d))); break; }
    if (!(q.dot(d) >= B.h(d) - tol) || !inside(B, q, 2 * tol)) { c.fail("support-moved/indep/" + b.name, "support along " + sw::vs(d) + " is " + sw::vs(q) + fmt(" at %.12g, the moved shape reaches %.12g", q.dot(d), B.h(d))); break; }
    if (!((s - (p - q2)).norm() <= tol)) { c.fail("support/difference", "support of the difference along " + sw::vs(d) + " is " + sw::vs(s) + ", the parts give " + sw::vs(p - q2)); break; }
    V w(0.3, -0.2, 0.9), sv = m.support(d, w); if (!(sv.dot(d) >= a.b.h(d) + std::max(0.0, w.dot(d)) + B.h(-d) - 2 * tol)) { c.fail("support/swept", "support of the swept difference is too small along " + sw::vs(d)); break; } }
}
// the printed form of a shape holds its type and all of its numbers exactly
static void numbers(const std::string& s, std::vector<double>& r) { size_t i = s.find("<double>("); i = i == std::string::npos ? 0 : i; for (; i < s.size();) { if (isdigit(s[i]) || ((s[i] == '-' || s[i] == '.') && i + 1 < s.size() && isdigit(s[i + 1]))) { if (i && (isalnum(s[i - 1]) || s[i - 1] == '_')) { while (i < s.size() && isalnum(s[i])) ++i; continue; } char* e; r.push_back(strtod(s.c_str() + i, &e)); i = e - s.c_str(); } else ++i; } }
static void printed(mc::C& c) {
  static const double P[] = {1.0 / 3, 0.1, 2, 1e-7 / 3, 12345.678901234567}; int k = c.choose(9); double a = P[c.choose(5)], b = P[c.choose(5)], d = P[c.choose(5)]; std::string s, want; std::vector<double> w, g; std::stringstream os;
  auto take = [&](const std::string& name, const auto& sh, std::vector<double> v) { s = sh.representation(); os << sh; want = "fcl::" + name; (void)want; want = name + "<double>("; w = v; };
  switch (k) {
    case 0: take("Box", fcl::Box<double>(a, b, d), {a, b, d}); break;
    case 1: take("Sphere", fcl::Sphere<double>(a), {a}); break;
    case 2: take("Ellipsoid", fcl::Ellipsoid<double>(a, b, d), {a, b, d}); break;
    case 3: take("Capsule", fcl::Capsule<double>(a, b), {a, b}); break;
    case 4: take("Cone", fcl::Cone<double>(a, b), {a, b}); break;
    case 5: take("Cylinder", fcl::Cylinder<double>(a, b), {a, b}); break;
    case 6: { fcl::Plane<double> p(V(a, b, d), a); take("Plane", p, {p.n[0], p.n[1], p.n[2], p.d}); break; }
    case 7: { fcl::Halfspace<double> p(V(a, -b, d), -a); take("Halfspace", p, {p.n[0], p.n[1], p.n[2], p.d}); break; }
    default: { std::vector<V> v = {V(0, 0, 0), V(a, 0, 0), V(0, b, 0), V(0, 0, d)}; auto x = convex(v, {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}}, true); s = x->representation(); os << *x; want = "Convex<double>("; for (auto& p : v) for (int q = 0; q < 3; ++q) w.push_back(p[q]); w.push_back(4); for (int q : x->getFaces()) w.push_back(q); }
  }
  if (s.find(want) == std::string::npos) c.fail("printed/type", "the representation " + s + " does not name " + want);
  numbers(s, g); if (g != w) { std::string e; for (double x : w) e += fmt(" %.17g", x); c.fail(fmt("printed/%d", k), "the representation " + s + " does not hold the numbers" + e); }
}
static void body(mc::C& c) { switch (c.choose(6)) { case 0: walk(c, false); break; case 1: walk(c, true); break; case 2: validity(c); break; case 3: supports_ccd(c); break; case 4: supports_indep(c); break; default: printed(c); } }
int main(int argc, char** argv) {
  mc::Spec s; s.property = "M06"; s.body = body; s.shard_depth = 4; s.counter_names = {"support queries"};
  s.explanation = "Every mesh of the pool under every stated numbering of its vertices is built and searched on the real code in every direction of the pool; support and centre functions of both solvers are compared with the support function of the shape.";
  s.assumptions = {"meshes, numberings and directions come from finite pools", "GST_INDEP hands unit directions to the support functions"};
  return mc::run(argc, argv, s);
}
