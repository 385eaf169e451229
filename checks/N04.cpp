// MC-BUILD: san=none big=collision
// N04: collide() on triangle meshes: exactly the overlapping primitives, valid contacts, whatever the bounding volume type.
#include "mesh_world.h"
#include "fcl/narrowphase/collision.h"
using namespace mw; using mc::fmt;
typedef std::pair<int, int> P2;
static const double MG = 1e-4;
static void mesh_mesh(mc::C& c) {
  auto& S = meshes(); bool th = c.thorough();
  int i = c.choose(8), j = c.choose(8); Tf t1, t2; uint64_t key; choose_tf(c, S[i].hull, S[j].hull, th ? 16 : 9, th ? 12 : 7, th ? 3 : 2, th ? 28 : 14, t1, t2, key);
  const Mesh &m1 = S[i], &m2 = S[j]; std::string nm = m1.name + "-" + m2.name; c.context(nm);
  if (c.verbose()) c.note("%s at %s\n%s at %s", m1.name.c_str(), ts(t1).c_str(), m2.name.c_str(), ts(t2).c_str());
  auto b1 = placed_all(m1, t1), b2 = placed_all(m2, t2); std::map<P2, int> ver; int no = 0, ns = 0;
  std::vector<Box3> x1, x2; for (auto& b : b1) x1.push_back(box_of(b)); for (auto& b : b2) x2.push_back(box_of(b));
  for (size_t a = 0; a < b1.size(); ++a) for (size_t b = 0; b < b2.size(); ++b) { int v = far(x1[a], x2[b], MG) ? -1 : cx::verdict(b1[a], b2[b], MG); ver[P2(a, b)] = v; if (v == 1) ++no; if (v == 0) ++ns; }
  c.count(no ? 0 : ns ? 2 : 1); c.state(mc::mix(key, i * 64 + j)); c.outcome(mc::mix(i * 64 + j, no));
  std::vector<std::string> first;
  for (int k = 0; k < NBV; ++k) for (int ct = 0; ct < 2; ++ct) {
    fcl::CollisionRequest<double> q; q.num_max_contacts = 100000; q.enable_contact = ct; fcl::CollisionResult<double> r;
    size_t ret = fcl::collide(m1.g[k].get(), t1, m2.g[k].get(), t2, q, r); std::string kk = std::string(bvname(k)) + (ct ? "/contacts" : "/plain");
    if (ret != r.numContacts()) c.fail("return/" + kk, fmt("%s: returned %zu, result has %zu contacts", nm.c_str(), ret, r.numContacts()));
    std::map<P2, int> got; std::vector<std::string> sig;
    for (size_t x = 0; x < r.numContacts(); ++x) {
      auto& t = r.getContact(x); 
      if (t.o1 != m1.g[k].get() || t.o2 != m2.g[k].get()) c.fail("objects/" + std::string(bvname(k)), fmt("%s: a contact names objects that are not the ones given to collide()", nm.c_str()));
      if (t.b1 < 0 || t.b1 >= (int)b1.size() || t.b2 < 0 || t.b2 >= (int)b2.size()) { c.fail("range/" + kk, fmt("%s: contact names triangles %d and %d", nm.c_str(), (int)t.b1, (int)t.b2)); continue; }
      P2 p((int)t.b1, (int)t.b2); ++got[p];
      if (ver[p] == -1) c.fail("phantom/" + kk, fmt("%s: triangles %d and %d are reported in contact but apart", nm.c_str(), p.first, p.second));
      if (!ct || ver[p] != 1) continue;
      const Body &A = b1[p.first], &B = b2[p.second];
      V na = (A.pts[1] - A.pts[0]).cross(A.pts[2] - A.pts[0]).normalized(), nb = (B.pts[1] - B.pts[0]).cross(B.pts[2] - B.pts[0]).normalized();
      double tol = 1e-6 * (1 + t1.translation().norm());
      if (!(std::abs(t.normal.norm() - 1) < 1e-6)) c.fail("unit/" + kk, fmt("%s: normal %s", nm.c_str(), vs(t.normal).c_str()));
      if (!(std::min(t.normal.cross(na).norm(), t.normal.cross(nb).norm()) < 1e-6)) c.fail("normal/" + kk, fmt("%s: normal %s is neither triangle's", nm.c_str(), vs(t.normal).c_str()));
      double w = cx::width(A, B, t.normal), bestw = 1e300; for (int s = -1; s <= 1; s += 2) bestw = std::min(bestw, std::min(cx::width(A, B, s * na), cx::width(A, B, s * nb)));
      if (!(t.penetration_depth > 0 && std::abs(t.penetration_depth - w) < tol)) c.fail("depth/" + kk, fmt("%s: depth %.9g, but the triangles overlap by %.9g along the normal", nm.c_str(), t.penetration_depth, w));
      double near = 1e300; for (auto& v : A.pts) near = std::min(near, (v - t.pos).norm()); for (auto& v : B.pts) near = std::min(near, (v - t.pos).norm());
      double oa = na.dot(t.pos - A.pts[0]), ob = nb.dot(t.pos - B.pts[0]);
      if (!(near < tol)) c.fail("position/" + kk, fmt("%s: contact point %s is no vertex of the two triangles", nm.c_str(), vs(t.pos).c_str()));
      else if (!(std::min(std::abs(oa), std::abs(ob)) < 1e-6 + tol && std::abs(std::max(std::abs(oa), std::abs(ob)) - t.penetration_depth) < 2e-6 + tol)) c.fail("deepest/" + kk, fmt("%s: contact point %s is %.6g and %.6g from the planes, depth %.6g", nm.c_str(), vs(t.pos).c_str(), oa, ob, t.penetration_depth));
    }
    for (auto& v : ver) if (v.second == 1 && !got.count(v.first)) c.fail("missed/" + kk, fmt("%s: triangles %d and %d overlap but are not reported", nm.c_str(), v.first.first, v.first.second));
    for (auto& g : got) if (g.second > (ct ? 2 : 1)) c.fail("repeated/" + kk, fmt("%s: %d contacts for one pair of triangles", nm.c_str(), g.second));
  }
}
static void mesh_shape(mc::C& c) {
  auto& S = meshes(); auto& H = shapes(); bool th = c.thorough();
  int i = c.choose(8), j = c.choose(th ? NALL : NBASIC + 2); bool indep = c.flag(); Tf t1, t2; uint64_t key; choose_tf(c, S[i].hull, H[j].b, th ? 12 : 6, th ? 12 : 7, th ? 3 : 2, th ? 28 : 7, t1, t2, key);
  const Mesh& m1 = S[i]; const Sh& s = H[j]; std::string nm = m1.name + "-" + s.name + (indep ? "/indep" : "/libccd"); c.context(nm);
  if (c.verbose()) c.note("%s at %s\n%s at %s", m1.name.c_str(), ts(t1).c_str(), s.name.c_str(), ts(t2).c_str());
  auto b1 = placed_all(m1, t1); Body B = placed(s.b, t2); std::vector<int> ver; int no = 0, ns = 0; 
  for (auto& b : b1) { int v = cx::verdict(b, B, 2e-4); ver.push_back(v); if (v == 1) ++no; if (v == 0) ++ns; }
  c.count(no ? 3 : ns ? 5 : 4); c.state(mc::mix(key, 4096 + i * 64 + j * 2 + indep)); c.outcome(mc::mix(4096 + i * 64 + j, no));
  for (int k = 0; k < NBV; ++k) for (int ct = 0; ct < 2; ++ct) for (int sw = 0; sw < 2; ++sw) {
    fcl::CollisionRequest<double> q; q.num_max_contacts = 100000; q.enable_contact = ct; q.gjk_solver_type = indep ? fcl::GST_INDEP : fcl::GST_LIBCCD; fcl::CollisionResult<double> r;
    size_t ret = sw ? fcl::collide(s.g.get(), t2, m1.g[k].get(), t1, q, r) : fcl::collide(m1.g[k].get(), t1, s.g.get(), t2, q, r);
    std::string kk = nm + "/" + bvname(k) + (ct ? "/contacts" : "/plain");
    if (ret != r.numContacts()) c.fail("return/" + kk, fmt("returned %zu, result has %zu contacts", ret, r.numContacts()));
    std::vector<int> got(b1.size(), 0);
    for (size_t x = 0; x < r.numContacts(); ++x) {
      auto& t = r.getContact(x); bool fw = t.o1 == m1.g[k].get() && t.o2 == s.g.get(), rv = t.o2 == m1.g[k].get() && t.o1 == s.g.get();
      if (!fw && !rv) { c.fail("objects/" + std::string(bvname(k)), fmt("%s: a contact names objects that are not the ones given to collide()", nm.c_str())); fw = true; }
      int b = (int)(fw ? t.b1 : t.b2); if (b < 0 || b >= (int)b1.size()) { c.fail("range/" + kk, fmt("contact names triangle %d", b)); continue; }
      ++got[b]; if (ver[b] == -1) c.fail("phantom/" + kk, fmt("triangle %d is reported in contact but apart", b));
      if (!ct || ver[b] != 1) continue;
      V n = fw ? t.normal : V(-t.normal);
      if (!(std::abs(n.norm() - 1) < 1e-6)) c.fail("unit/" + kk, fmt("normal %s", vs(n).c_str()));
      if (!(t.penetration_depth > -1e-9)) c.fail("sign/" + kk, fmt("depth %.9g", t.penetration_depth));
      double w = way_out(b1[b], B, n), tol = 1e-3;
      c.note("%s swap %d triangle %d: depth %.6g width %.6g normal %s", kk.c_str(), sw, b, t.penetration_depth, w, vs(n).c_str());
      if (!(t.penetration_depth <= w + tol)) c.fail("over/" + kk, fmt("contact depth %.9g of triangle %d, but moving the shape %.9g along the normal %s separates", t.penetration_depth, b, w, vs(n).c_str()));
      bool exact = s.name == "sphere" || s.b.unbounded() || (indep && !s.curved);
      if (exact && !(t.penetration_depth >= w - tol * 0.1)) c.fail("under/" + kk, fmt("contact depth %.9g of triangle %d does not separate: overlap %.9g along the normal %s", t.penetration_depth, b, w, vs(n).c_str()));
      Body P; P.pts = {t.pos}; double o1 = cx::dist_bounds(b1[b], P, V::Zero(), 1e-7).lo, o2 = B.unbounded() ? std::max(0.0, cx::sep_unbounded(B, P)) : cx::dist_bounds(B, P, V::Zero(), 1e-7).lo;
      if (!(std::max(o1, o2) <= t.penetration_depth + tol)) c.fail("pos/" + kk, fmt("position %s is %.6g and %.6g outside the two primitives, depth %.6g", vs(t.pos).c_str(), o1, o2, t.penetration_depth));
    }
    for (size_t b = 0; b < ver.size(); ++b) { if (ver[b] == 1 && !got[b]) c.fail("missed/" + kk, fmt("triangle %zu overlaps the shape but is not reported", b)); if (got[b] > 1) c.fail("repeated/" + kk, fmt("%d contacts for one triangle", got[b])); }
  }
}
static void body(mc::C& c) { if (c.flag()) mesh_shape(c); else mesh_mesh(c); }
int main(int argc, char** argv) {
  mc::Spec s; s.property = "N04"; s.body = body; s.shard_depth = 5;
  s.explanation = "every ordered pair of catalogue meshes, and every catalogue mesh with every catalogue shape (both solvers, both argument orders), in every relative rotation of a fixed list, placed along a fan of directions at gaps from deep overlap to far apart, under several common rigid motions; for all 8 bounding volume types, with and without contacts, the set of reported triangles is compared with an oracle for every pair of primitives, and each contact with the geometry of its two primitives";
  s.assumptions = {"primitives within 1e-4 (mesh) or 2e-4 (shape) of first contact are not judged", "contacts of shapes are held to a unit normal out of the first primitive and a depth that is not negative and not more than the way out along it, and a position within that depth of both primitives; for spheres, planes and half spaces, and polytopes with the built-in solver, the depth must also separate"};
  s.counter_names = {"mesh_overlap", "mesh_apart", "mesh_close", "shape_overlap", "shape_apart", "shape_close"};
  return mc::run(argc, argv, s);
}
