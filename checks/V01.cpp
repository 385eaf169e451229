// MC-BUILD: san=none
// V01: what bounding volumes guarantee: they hold what was put into them, and their tests are sound.
#include "bvs.h"
#include "convex.h"
#include "mc.h"
#include "fcl/math/bv/utility.h"
using namespace bvs; using mc::fmt;
typedef fcl::Transform3<double> T3;
static const V P[] = {V(0, 0, 0), V(1, 0, 0), V(0, 1, 0), V(0, 0, 1), V(1, 1, 1), V(-0.5, 0.25, 0.75), V(2, -1, 0.5), V(3, 3, 3.1), V(1, 1, 0), V(0.3, -0.8, 0.2)};
typedef std::vector<int> Idx;
static std::vector<V> at(const Idx& t) { std::vector<V> r; for (int i : t) r.push_back(P[i]); return r; }
static std::string str(const Idx& t) { std::string s = "{"; for (int i : t) s += fmt("%d ", i); return s + "}"; }
// the volumes that the binary operations combine: single points, segments, (degenerate) triangles, clouds
static const std::vector<Idx>& gens() { static const std::vector<Idx> g = {{0}, {7}, {5}, {0, 1}, {2, 1}, {5, 6}, {4, 7}, {1, 1}, {0, 1, 2}, {3, 4, 6}, {5, 6, 7}, {0, 4, 4}, {1, 2, 3}, {0, 1, 2, 3}, {0, 1, 2, 8}, {3, 5, 6, 9}, {0, 1, 2, 3, 4}, {5, 6, 7, 8, 9}, {4, 5, 6, 7}, {0, 1, 2, 3, 4, 5}, {2, 4, 5, 6, 8, 9}, {9, 9, 9, 9}}; return g; }
static const std::vector<T3>& moves() {
  static std::vector<T3> m; if (!m.empty()) return m;
  auto add = [&](const M& r, const V& t) { T3 x = T3::Identity(); x.linear() = r; x.translation() = t; m.push_back(x); };
  M I = M::Identity(); auto rot = [](double a, const V& v) { return M(Eigen::AngleAxisd(a, v.normalized())); };
  add(I, V(0, 0, 0)); for (int k = 0; k < 3; ++k) for (double s : {-1.7, 0.9, 4.0}) { V t = V::Zero(); t[k] = s; add(I, t); }
  add(I, V(1.5, -1.5, 0.75)); add(I, V(9, 9, -9));
  for (auto& r : {rot(M_PI / 2, V(0, 0, 1)), rot(M_PI / 2, V(1, 0, 0)), rot(0.7, V(1, 2, 3)), rot(2.5, V(-1, 0.5, 0.2)), rot(M_PI, V(0, 1, 0))}) { add(r, V(0, 0, 0)); add(r, V(2.2, 0, 0)); add(r, V(-0.5, 1.5, -2)); add(r, V(0, -3, 4)); }
  return m;
}
template <class B> struct Has { static bool in(const B& b, const V& p) { return b.contain(p); } static const bool dist = true, exact_overlap = true; };
template <size_t N> struct Has<fcl::KDOP<double, N>> { static bool in(const fcl::KDOP<double, N>& b, const V& p) { return b.inside(p); } static const bool dist = false, exact_overlap = true; };
// convex parts whose intersection is the volume; two volumes certainly do not meet when a pair of parts is apart
static cx::Body boxbody(const V& c, const M& ax, const V& e) { cx::Body b; for (int i = 0; i < 8; ++i) b.pts.push_back(c + ax * V(i & 1 ? e[0] : -e[0], i & 2 ? e[1] : -e[1], i & 4 ? e[2] : -e[2])); return b; }
static std::vector<cx::Body> parts(const fcl::AABB<double>& b) { return {boxbody((b.min_ + b.max_) / 2, M::Identity(), (b.max_ - b.min_) / 2)}; }
static std::vector<cx::Body> parts(const fcl::OBB<double>& b) { return {boxbody(b.To, b.axis, b.extent)}; }
static std::vector<cx::Body> parts(const fcl::RSS<double>& b) { cx::Body k; for (int i = 0; i < 4; ++i) k.pts.push_back(b.To + b.axis.col(0) * (i & 1 ? b.l[0] : 0) + b.axis.col(1) * (i & 2 ? b.l[1] : 0)); k.r = b.r; return {k}; }
static std::vector<cx::Body> parts(const fcl::OBBRSS<double>& b) { return parts(b.obb); }
static std::vector<cx::Body> parts(const fcl::kIOS<double>& b) { return parts(b.obb); }
static cx::Body moved(cx::Body b, const T3& t) { for (auto& p : b.pts) p = t * p; return b; }
static cx::Body cloud(const std::vector<V>& v) { cx::Body b; b.pts = v; return b; }
template <class B> B make(const Idx& t) { auto v = at(t); B b; fcl::fit(v.data(), (int)v.size(), b); return b; }
template <class B> void holds(mc::C& c, const char* what, const B& b, const std::vector<V>& v, const std::string& how) {
  const char* n = Name<B>::get(); c.count(0, 1);
  if (!finite(b)) c.fail(fmt("finite/%s/%s", what, n), fmt("%s %s has non-finite numbers", n, how.c_str()));
  for (auto& p : v) { double o = out(b, p); if (!(o <= 1e-9 * (1 + p.norm()))) c.fail(fmt("holds/%s/%s", what, n), fmt("%s %s leaves (%g %g %g) out by %.3g", n, how.c_str(), p[0], p[1], p[2], o)); }
}
template <class B> void measures(mc::C& c, const B& b, const std::vector<V>& v, const std::string& how) {
  const char* n = Name<B>::get(); double w = b.width(), h = b.height(), d = b.depth(), vol = b.volume(); V ce = b.center();
  // each content lies within the center +- half the dimensions of the volume (this is what conversions rely on)
  if (!(w >= 0 && h >= 0 && d >= 0 && vol >= -1e-12 && std::isfinite(w + h + d + vol))) c.fail(fmt("measure/%s", n), fmt("%s %s: width %g height %g depth %g volume %g", n, how.c_str(), w, h, d, vol));
  double r = 0.5 * std::sqrt(w * w + h * h + d * d);
  for (auto& p : v) if (!((p - ce).norm() <= r + 1e-7 * (1 + r + p.norm()))) c.fail(fmt("center/%s", n), fmt("%s %s: a content is %g from the center, half the diagonal is %g", n, how.c_str(), (p - ce).norm(), r));
}
static double true_volume(const fcl::RSS<double>& b) { return b.l[0] * b.l[1] * 2 * b.r + (b.l[0] + b.l[1]) * M_PI * b.r * b.r + 4.0 / 3 * M_PI * b.r * b.r * b.r; }
template <class B> double true_volume(const B& b) { return b.width() * b.height() * b.depth(); }
template <class B> void member(mc::C& c, const B& b, const std::string& how) {
  // contain() agrees with the volume
  const char* n = Name<B>::get();
  for (int x = -2; x <= 6; ++x) for (int y = -2; y <= 6; ++y) for (int z = -2; z <= 6; ++z) {
    V p(x * 0.55 + 0.013, y * 0.55 - 0.007, z * 0.55 + 0.003); double o = out(b, p); if (std::abs(o) < 1e-7) continue; bool g = Has<B>::in(b, p); c.count(1, 1);
    if (g && o > 0 && !std::is_same<B, fcl::OBBRSS<double>>::value && !std::is_same<B, fcl::kIOS<double>>::value) c.fail(fmt("contain/%s", n), fmt("%s %s claims to contain a point %.3g outside", n, how.c_str(), o));
    if (!g && o < 0) c.fail(fmt("contain/%s", n), fmt("%s %s denies containing a point %.3g inside", n, how.c_str(), -o));
  }
}
template <class B, bool D> struct Dist { static void run(mc::C&, const B&, const B&, const T3*, const std::vector<V>&, const std::vector<V>&, const std::string&) {} };
template <class B> double bvdist(const B& a, const B& b, const T3* t) { return t ? fcl::distance(t->linear(), t->translation(), a, b) : a.distance(b); }
static double bvdist(const fcl::AABB<double>& a, const fcl::AABB<double>& b, const T3*) { return a.distance(b); }
template <class B> bool bvoverlap(const B& a, const B& b, const T3* t) { return t ? fcl::overlap(t->linear(), t->translation(), a, b) : a.overlap(b); }
static bool bvoverlap(const fcl::AABB<double>& a, const fcl::AABB<double>& b, const T3*) { return a.overlap(b); }
template <size_t N> bool bvoverlap(const fcl::KDOP<double, N>& a, const fcl::KDOP<double, N>& b, const T3*) { return a.overlap(b); }
template <class B> void apart(mc::C& c, const B& a, const B& b, const T3* t, bool g, const std::string& how) {
  if (!g) return; const char* n = Name<B>::get(); T3 m = t ? *t : T3::Identity();
  for (auto& x : parts(a)) for (auto& y : parts(b)) { cx::Bounds bd = cx::dist_bounds(x, moved(y, m), V::Zero(), 1e-7); if (bd.lo > 1e-4) c.fail(fmt("apart/%s", n), fmt("%s %s overlap() is true, the volumes are %.3g apart", n, how.c_str(), bd.lo)); }
}
template <size_t N> void apart(mc::C& c, const fcl::KDOP<double, N>& a, const fcl::KDOP<double, N>& b, const T3*, bool g, const std::string& how) {
  if (!g) return; for (size_t i = 0; i < N / 2; ++i) if (a.dist(i) > b.dist(i + N / 2) + 1e-9 || b.dist(i) > a.dist(i + N / 2) + 1e-9) c.fail(fmt("apart/%s", Name<fcl::KDOP<double, N>>::get()), fmt("%s overlap() is true, direction %zu separates the volumes", how.c_str(), i));
}
static void apart(mc::C& c, const fcl::kIOS<double>& a, const fcl::kIOS<double>& b, const T3* t, bool g, const std::string& how) {
  if (!g) return; T3 m = t ? *t : T3::Identity();
  for (unsigned i = 0; i < a.num_spheres; ++i) for (unsigned j = 0; j < b.num_spheres; ++j) if ((a.spheres[i].o - m * b.spheres[j].o).norm() > a.spheres[i].r + b.spheres[j].r + 1e-6) c.fail("apart/kIOS", fmt("%s overlap() is true, spheres %u and %u are apart", how.c_str(), i, j));
  cx::Bounds bd = cx::dist_bounds(parts(a)[0], moved(parts(b)[0], m), V::Zero(), 1e-7); if (bd.lo > 1e-4) c.fail("apart/kIOS", fmt("%s overlap() is true, the boxes are %.3g apart", how.c_str(), bd.lo));
}
static bool exact_dist(const fcl::AABB<double>*) { return true; }
static bool exact_dist(const fcl::RSS<double>*) { return true; }
static bool exact_dist(const fcl::OBBRSS<double>*) { return true; }
static bool exact_dist(...) { return false; }
static std::vector<cx::Body> distparts(const fcl::OBBRSS<double>& b) { return parts(b.rss); }
template <class B> std::vector<cx::Body> distparts(const B& b) { return parts(b); }
template <class B> struct Dist<B, true> { static void run(mc::C& c, const B& a, const B& b, const T3* t, const std::vector<V>& va, const std::vector<V>& vb, const std::string& how) {
  const char* n = Name<B>::get(); T3 m = t ? *t : T3::Identity(); double d = bvdist(a, b, t); c.count(2, 1);
  if (!(d >= 0) || !std::isfinite(d)) c.fail(fmt("distance/%s", n), fmt("%s %s distance %g", n, how.c_str(), d));
  double best = 1e300; for (auto& p : va) for (auto& q : vb) best = std::min(best, (p - m * q).norm());
  cx::Bounds tb = cx::dist_bounds(cloud(va), moved(cloud(vb), m), V::Zero(), 1e-7);
  if (d > tb.hi + 1e-6) c.fail(fmt("lower/%s", n), fmt("%s %s distance %.9g exceeds the distance %.9g between the contents", n, how.c_str(), d, tb.hi));
  if (exact_dist((const B*)nullptr)) { cx::Bounds e = cx::dist_bounds(distparts(a)[0], moved(distparts(b)[0], m), V::Zero(), 1e-8); if (d < e.lo - 1e-6 || d > e.hi + 1e-6) c.fail(fmt("exact/%s", n), fmt("%s %s distance %.9g, the volumes are between %.9g and %.9g apart", n, how.c_str(), d, e.lo, e.hi)); }
} };
template <class B> const bool has_tf() { return !std::is_same<B, fcl::AABB<double>>::value && Has<B>::dist; }
template <class B, class C> void conv(mc::C& c, const B& b, const std::vector<V>& v, const T3& t, const std::string& how) {
  C o; fcl::convertBV(b, t, o); std::vector<V> w; for (auto& p : v) w.push_back(t * p);
  c.count(3, 1);
  for (auto& p : w) { double x = out(o, p); if (!(x <= 1e-7 * (1 + p.norm()))) c.fail(fmt("convert/%s-%s", Name<B>::get(), Name<C>::get()), fmt("%s %s converted to %s leaves a content out by %.3g", Name<B>::get(), how.c_str(), Name<C>::get(), x)); }
}
template <class B> struct ToRSS { static void run(mc::C&, const B&, const std::vector<V>&, const T3&, const std::string&) {} };
#define TORSS(X) template <> struct ToRSS<fcl::X<double>> { static void run(mc::C& c, const fcl::X<double>& b, const std::vector<V>& v, const T3& t, const std::string& how) { conv<fcl::X<double>, fcl::RSS<double>>(c, b, v, t, how); } };
TORSS(AABB) TORSS(OBB) TORSS(RSS) TORSS(OBBRSS)
static std::vector<V> cat(std::vector<V> a, const std::vector<V>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static void nearest(mc::C& c, const fcl::AABB<double>& a, const fcl::AABB<double>& b, const std::string& how) {
  V p(9e9, 9e9, 9e9), q = p; double d = a.distance(b, &p, &q);
  if (std::abs((p - q).norm() - d) > 1e-9 || out(a, p) > 1e-9 || out(b, q) > 1e-9) c.fail("nearest/AABB", fmt("AABB %s distance %g, nearest points (%g %g %g) (%g %g %g), outside by %g and %g", how.c_str(), d, p[0], p[1], p[2], q[0], q[1], q[2], out(a, p), out(b, q)));
  fcl::AABB<double> o; bool g = a.overlap(b, o); if (g != a.overlap(b)) c.fail("overlap_part/AABB", how);
  if (g) { V lo = a.min_.cwiseMax(b.min_), hi = a.max_.cwiseMin(b.max_); if (o.min_ != lo || o.max_ != hi) c.fail("overlap_part/AABB", how); }
  bool in = true; for (int k = 0; k < 3; ++k) { if (a.min_[k] > b.min_[k] || a.max_[k] < b.max_[k]) in = false; bool ao = a.min_[k] <= b.max_[k] && b.min_[k] <= a.max_[k]; if (a.axisOverlap(b, k) != ao) c.fail("axisOverlap/AABB", how); }
  if (a.contain(b) != in) c.fail("containbox/AABB", how);
}
static void nearest(mc::C& c, const fcl::kIOS<double>& a, const fcl::kIOS<double>& b, const std::string& how) {
  V p(9e9, 9e9, 9e9), q = p; double d = a.distance(b, &p, &q); if (std::abs(d - a.distance(b)) > 0) c.fail("nearest/kIOS", how);
  if (d > 0 && std::abs((p - q).norm() - d) > 1e-7 * (1 + d)) c.fail("nearest/kIOS", fmt("kIOS %s distance %g, nearest points %g apart", how.c_str(), d, (p - q).norm()));
}
static void nearest(mc::C& c, const fcl::RSS<double>& a, const fcl::RSS<double>& b, const std::string& how) {
  // documented: the direction of P - Q is right, in the frame of the first; their distance is that of the rectangles
  V p(9e9, 9e9, 9e9), q = p; double d = a.distance(b, &p, &q); if (d < 1e-6) return; V e = a.axis * (q - p); double l = e.norm(); cx::Body ra = parts(a)[0], rb = parts(b)[0]; ra.r = rb.r = 0;
  double sep = -rb.h(-e / l) - ra.h(e / l);
  if (std::abs(l - a.r - b.r - d) > 1e-6 || std::abs(sep - l) > 1e-5) c.fail("nearest/RSS", fmt("RSS %s distance %g radii %g %g, points %g apart, rectangles %g apart along them", how.c_str(), d, a.r, b.r, l, sep));
}
template <class B> void nearest(mc::C&, const B&, const B&, const std::string&) {}
template <class B> bool ovpart(const B& a, const B& b) { B o; return a.overlap(b, o); }
template <size_t N> bool ovpart(const fcl::KDOP<double, N>& a, const fcl::KDOP<double, N>& b) { return a.overlap(b); }
template <class B> void pairtests(mc::C& c, const B& a, const B& b, const std::vector<V>& va, const std::vector<V>& vb, const T3* t, const std::string& how) {
  const char* n = Name<B>::get(); T3 m = t ? *t : T3::Identity(); c.count(4, 1);
  bool g = bvoverlap(a, b, t); int v = cx::verdict(cloud(va), moved(cloud(vb), m), 1e-6);
  bool touch = v == 1; for (auto& p : va) for (auto& q : vb) if ((p - m * q).norm() < 1e-12) touch = t == nullptr;   // a point in both
  if (touch && !g) { // exactly touching volumes are decided up to rounding: the contents must meet robustly, or share a point in axis-aligned types
    if (v == 1 || std::is_same<B, fcl::AABB<double>>::value || std::is_same<B, K16>::value || std::is_same<B, K18>::value || std::is_same<B, K24>::value) c.fail(fmt("miss/%s", n), fmt("%s %s overlap() is false, the contents meet", n, how.c_str())); }
  apart(c, a, b, t, g, how);
  Dist<B, Has<B>::dist && !std::is_same<B, fcl::OBB<double>>::value>::run(c, a, b, t, va, vb, how);
  if (!t) { nearest(c, a, b, how); if (ovpart(a, b) != g) c.fail(fmt("overlap_part/%s", n), how); }
}
template <class B> void all(mc::C& c) {
  bool th = c.thorough(); const char* n = Name<B>::get(); auto& g = gens(); int NG = (int)g.size();
  switch (c.choose(5)) {
  case 0: {  // fit of every tuple
    int k = 1 + c.choose(th ? 6 : 5), np = k <= 3 ? 10 : k == 4 ? (th ? 10 : 7) : k == 5 ? (th ? 7 : 5) : 6; Idx t; for (int i = 0; i < k; ++i) t.push_back(c.choose(np));
    std::string how = "fit to " + str(t); c.note("%s %s", n, how.c_str()); auto v = at(t); B b = make<B>(t); holds(c, "fit", b, v, how); measures(c, b, v, how);
    if (std::abs(b.volume() - true_volume(b)) > 1e-9 * (1 + b.volume())) c.fail(fmt("volume/%s", n), fmt("%s %s volume() %g, true %g", n, how.c_str(), b.volume(), true_volume(b)));
    if (k <= 3) member(c, b, how);
    B tr = fcl::translate(b, V(0.5, -2, 7)); auto w = v; for (auto& p : w) p += V(0.5, -2, 7); holds(c, "translate", tr, w, how);
    B u; u = make<B>({t[0]}); for (int i = 1; i < k; ++i) { u += P[t[i]]; } holds(c, "addpoint", u, v, "grown from a point by " + str(t)); measures(c, u, v, "grown " + str(t));
    u = make<B>({t[0]}); for (int i = 1; i < k; ++i) u += make<B>({t[i]}); holds(c, "addvolume", u, v, "grown from a point by point volumes " + str(t));
    break; }
  case 1: {  // merging, three levels
    int i = c.choose(NG), j = c.choose(NG), k = c.choose(NG); auto v = cat(at(g[i]), at(g[j])); B a = make<B>(g[i]), b = make<B>(g[j]), ab = a + b; std::string how = str(g[i]) + "+" + str(g[j]); c.note("%s %s", n, how.c_str());
    if (k == 0) { holds(c, "merge", ab, v, how); measures(c, ab, v, how); B x = a; x += b; holds(c, "merge", x, v, how); member(c, ab, how); B tr = fcl::translate(ab, V(0.5, -2, 7)); auto w = v; for (auto& p : w) p += V(0.5, -2, 7); holds(c, "translate", tr, w, how); }
    v = cat(v, at(g[k])); B abc = ab + make<B>(g[k]); how += "+" + str(g[k]); holds(c, "merge", abc, v, how); measures(c, abc, v, how);
    B y = ab; for (int q : g[k]) y += P[q]; holds(c, "addpoint", y, v, how + " (points)");
    B z = make<B>(g[k]) + ab; holds(c, "merge", z, v, how + " (swapped)");
    break; }
  case 2: {  // overlap and distance in place, of fitted and merged volumes
    int i = c.choose(NG), j = c.choose(NG), k = c.choose(NG + 1), l = th ? c.choose(NG + 1) : 0; auto va = at(g[i]), vb = at(g[j]); B a = make<B>(g[i]), b = make<B>(g[j]); std::string how = str(g[i]);
    if (k < NG) { a = a + make<B>(g[k]); va = cat(va, at(g[k])); how += "+" + str(g[k]); } how += " against " + str(g[j]); if (l && l <= NG) { b += make<B>(g[l - 1]); vb = cat(vb, at(g[l - 1])); how += "+" + str(g[l - 1]); } c.note("%s %s", n, how.c_str()); pairtests(c, a, b, va, vb, nullptr, how); break; }
  case 3: {  // the second one moved
    if (!has_tf<B>()) { if (c.choose(1)) return; // types without the moved test: move the contents by a translation
      int i = c.choose(NG), j = c.choose(NG), m = c.choose(12); V t = moves()[m].translation(); auto va = at(g[i]), vb = at(g[j]); for (auto& p : vb) p += t; B a = make<B>(g[i]), b = fcl::translate(make<B>(g[j]), t); std::string how = str(g[i]) + " against " + str(g[j]) + fmt(" shifted %d", m); c.note("%s %s", n, how.c_str()); pairtests(c, a, b, va, vb, nullptr, how); return; }
    int i = c.choose(NG), j = c.choose(NG), m = c.choose((int)moves().size()), k = th ? c.choose(NG + 1) : 0; std::string how = str(g[i]) + " against " + str(g[j]) + fmt(" moved %d", m); c.note("%s %s", n, how.c_str());
    B a = make<B>(g[i]), b = make<B>(g[j]); auto va = at(g[i]), vb = at(g[j]); if (k) { b += make<B>(g[k - 1]); vb = cat(vb, at(g[k - 1])); how += fmt("+%d", k - 1); }
    pairtests(c, a, b, va, vb, &moves()[m], how); break; }
  case 4: {  // conversion
    int i = c.choose(NG), j = c.choose(NG + 1), m = c.choose((int)moves().size()); auto v = at(g[i]); B b = make<B>(g[i]); std::string how = str(g[i]); if (j) { b += make<B>(g[j - 1]); v = cat(v, at(g[j - 1])); how += "+" + str(g[j - 1]); } how += fmt(" moved %d", m); c.note("%s %s", n, how.c_str());
    conv<B, fcl::AABB<double>>(c, b, v, moves()[m], how); conv<B, fcl::OBB<double>>(c, b, v, moves()[m], how); ToRSS<B>::run(c, b, v, moves()[m], how); break; }
  }
}
static void body(mc::C& c) {
  switch (c.choose(8)) { case 0: all<fcl::AABB<double>>(c); break; case 1: all<fcl::OBB<double>>(c); break; case 2: all<fcl::RSS<double>>(c); break; case 3: all<fcl::OBBRSS<double>>(c); break;
    case 4: all<fcl::kIOS<double>>(c); break; case 5: all<K16>(c); break; case 6: all<K18>(c); break; case 7: all<K24>(c); break; }
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "V01"; s.body = body; s.shard_depth = 4; s.hang_s = 20;
  s.explanation = "every tuple of up to five (thorough: six) points from a set of ten with collinear, coplanar and equal ones is fitted by each of the eight bounding volume types, grown point by point and volume by volume; every two- and three-level merge, overlap, distance, conversion and translation of 22 such volumes under 32 rigid motions; what the volume holds is computed from its published fields alone, distances and separations by an independent convex oracle";
  s.assumptions = {"double precision; contents must be held up to 1e-9 relative; tests at a margin below 1e-4 (overlap) and 1e-6 (distance) are not judged"};
  s.counter_names = {"containments", "membership tests", "distances", "conversions", "pair tests"};
  return mc::run(argc, argv, s);
}
