// MC-BUILD: san=none big=collision,distance
// G05: collision objects under any sequence of placements.
#include "mesh_world.h"
#include "octree_world.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
using namespace mw; using mc::fmt;
typedef fcl::CollisionObject<double> Obj; typedef fcl::CollisionGeometry<double> Geo;
struct Item { std::string name; std::shared_ptr<Geo> g; std::vector<Body> parts; };
static std::vector<Item>& items() {
  static std::vector<Item> v; if (!v.empty()) return v;
  for (int i : {0, 1, 3, 4}) { auto& s = shapes()[i]; v.push_back({s.name, s.g, {s.b}}); }
  { std::vector<V> p; for (auto& x : box_pts(1, 0.5, 2)) p.push_back(x + V(2, -1, 0.5)); std::vector<std::array<int, 3>> t = {{0, 1, 2}, {1, 3, 2}, {4, 6, 5}, {5, 6, 7}}; static Mesh m = make("shifted mesh", p, t); v.push_back({m.name, m.g[3], m.b}); v.push_back({m.name + "/AABB", m.g[0], m.b}); }
  { auto& t = ow::trees()[1]; std::vector<Body> b; for (auto& k : t.leaf) if (k.cls == ow::OCC) b.push_back(k.b); v.push_back({"octree", t.g, b}); }
  return v;
}
static bool same(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || a == b; }
static uint64_t hash(const Tf& t) { uint64_t h = 7; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) h = mc::mix(h, mc::hbits(t(i, j))); return h; }
static void getters(mc::C& c, const std::string& k, const Obj& o, const Tf& t, bool quat, const std::string& how) {
  double e = quat ? 1e-14 : 0; if (!((o.getRotation() - t.linear()).cwiseAbs().maxCoeff() <= e)) c.fail("rotation" + k, how + ": getRotation() is not what was set"); if (!((o.getTranslation() - t.translation()).cwiseAbs().maxCoeff() <= 0)) c.fail("translation" + k, how + ": getTranslation() is not what was set");
  if (!((o.getTransform().matrix() - t.matrix()).cwiseAbs().maxCoeff() <= e)) c.fail("transform" + k, how + ": getTransform() is not what was set"); if (!((o.getQuatRotation().toRotationMatrix() - t.linear()).norm() <= 1e-12)) c.fail("quaternion" + k, how + ": getQuatRotation() is not what was set");
  double d = (t.matrix() - Tf::Identity().matrix()).cwiseAbs().maxCoeff(); if (d == 0 ? !o.isIdentityTransform() : d > 1e-6 && o.isIdentityTransform()) c.fail("identity" + k, how + ": isIdentityTransform() is wrong");
}
static void box(mc::C& c, const std::string& k, const Item& m, const Obj& o, const Tf& t, const std::string& how) {
  auto& b = o.getAABB(); for (auto& p : m.parts) { Body q = placed(p, t); for (int i = 0; i < 3; ++i) for (int s = -1; s <= 1; s += 2) { double have = s > 0 ? b.max_[i] : -b.min_[i], need = q.h(V::Unit(i) * s); if (!(have >= need - 1e-9 * (1 + std::abs(need)))) { c.fail("box" + k, fmt("%s: the box of the object misses its geometry by %g along %c%d", how.c_str(), need - have, s > 0 ? '+' : '-', i)); return; } } }
  if (t.linear() == M::Identity()) { auto& l = m.g->aabb_local; if (!((b.min_ - (l.min_ + t.translation())).norm() <= 1e-12 * (1 + b.min_.norm()) && (b.max_ - (l.max_ + t.translation())).norm() <= 1e-12 * (1 + b.max_.norm()))) c.fail("tight" + k, how + ": without a rotation the box is not the local box moved along"); }
  else { V mid = t * V(m.g->aabb_center); double r = m.g->aabb_radius; if (!((b.max_ - mid).maxCoeff() <= r * (1 + 1e-9) + 1e-9 && (mid - b.min_).maxCoeff() <= r * (1 + 1e-9) + 1e-9)) c.fail("loose" + k, how + ": the box is larger than that of the bounding sphere"); }
}
static void answers(mc::C& c, const std::string& k, const Obj& a, const Obj& b, const Tf& ta, const Tf& tb, const Geo* ga, const Geo* gb, const std::string& how) {
  fcl::CollisionRequest<double> q(4, true); q.gjk_solver_type = c.flag() ? fcl::GST_INDEP : fcl::GST_LIBCCD; fcl::CollisionResult<double> x, y; size_t n = fcl::collide(&a, &b, q, x), m = fcl::collide(ga, ta, gb, tb, q, y);
  bool ok = n == m && x.isCollision() == y.isCollision() && x.numContacts() == y.numContacts(); for (size_t i = 0; ok && i < x.numContacts(); ++i) { auto &u = x.getContact(i), &v = y.getContact(i); ok = u.o1 == v.o1 && u.o2 == v.o2 && u.b1 == v.b1 && u.b2 == v.b2 && same(u.penetration_depth, v.penetration_depth) && u.pos == v.pos && u.normal == v.normal; ok = ok && ((u.o1 == ga && u.o2 == gb) || (u.o1 == gb && u.o2 == ga)); }
  if (!ok && c.verbose()) { c.note("%zu %zu", n, m); for (auto* r : {&x, &y}) for (size_t i = 0; i < r->numContacts(); ++i) { auto& u = r->getContact(i); c.note("%p %p (%p %p) %ld %ld depth %.17g pos %.17g %.17g %.17g normal %.17g %.17g %.17g", (void*)u.o1, (void*)u.o2, (void*)ga, (void*)gb, (long)u.b1, (long)u.b2, u.penetration_depth, u.pos[0], u.pos[1], u.pos[2], u.normal[0], u.normal[1], u.normal[2]); } }
  if (!ok) c.fail("collide" + k, how + ": collide() on the objects differs from collide() on their geometries and placements");
  if (a.getNodeType() == fcl::GEOM_OCTREE && b.getNodeType() == fcl::GEOM_OCTREE) return;
  fcl::DistanceRequest<double> dq(true); dq.gjk_solver_type = q.gjk_solver_type; fcl::DistanceResult<double> dx, dy; double d1 = fcl::distance(&a, &b, dq, dx), d2 = fcl::distance(ga, ta, gb, tb, dq, dy);
  if (!same(d1, d2) || !same(dx.min_distance, dy.min_distance) || dx.b1 != dy.b1 || dx.b2 != dy.b2 || dx.o1 != dy.o1 || dx.o2 != dy.o2) c.fail("distance" + k, how + ": distance() on the objects differs from distance() on their geometries and placements"); c.count(1);
}
static void run(mc::C& c) {
  bool th = c.thorough(); auto& I = items(); int gi = c.choose((int)I.size()), gj = c.choose(th ? (int)I.size() : 3); if (!th) gj = (gi + gj * 2 + 1) % I.size(); auto& A = I[gi]; auto& B = I[gj]; std::string k = "/" + A.name;
  static const double P[][3] = {{0, 0, 0}, {0.25, -0.5, 1}, {-3, 2, 0.125}, {1, 0, -2}}; int start = c.choose(4), st = c.choose(3); M R0 = start == 0 ? M(M::Identity()) : rotations()[st == 0 ? 0 : st * 3]; V T0(P[st][0], P[st][1], P[st][2]); if (start == 0) { if (st) c.prune(); T0.setZero(); }
  std::unique_ptr<Obj> a(start == 0 ? new Obj(A.g) : start == 1 ? new Obj(A.g, tf(R0, T0)) : start == 2 ? new Obj(A.g, R0, T0) : new Obj(A.g, tf(R0, T0))); Tf other = tf(rotations()[2], V(0.5, 0.25, 0)); Obj b(B.g, other), twin(A.g, other); Tf t = tf(R0, T0); std::string how = "new"; bool quat = false; int tag = 0; a->setUserData(&tag);
  if (start == 3) { Obj copy(*a); a->setTranslation(V(9, 9, 9)); *a = copy; how = "copied"; }
  getters(c, k, *a, t, quat, how); box(c, k, A, *a, t, how); if (a->getCollisionGeometry() != A.g.get() || a->collisionGeometry() != A.g || a->getNodeType() != A.g->getNodeType() || a->getObjectType() != A.g->getObjectType()) c.fail("geometry" + k, "the object is of another geometry");
  int depth = th ? 4 : 3; for (int i = 0; i < depth; ++i) { int op = c.choose(9); if (op == 0) break; int v = op == 1 || op == 8 ? 0 : c.choose(3) + 1; M R = rotations()[v == 1 ? 5 : 0]; V T(P[v][0], P[v][1], P[v][2]); if (v == 2) R = rot(V(0.3, -1, 0.7), 2.5); if (v == 3) R = rot(V(1, 0.5, -0.2), 0.004); fcl::Quaternion<double> q(R);
    switch (op) { case 1: a->setIdentityTransform(); t = Tf::Identity(); quat = false; how += " identity"; break; case 2: a->setTransform(tf(R, T)); t = tf(R, T); quat = false; how += fmt(" transform%d", v); break; case 3: a->setTransform(R, T); t = tf(R, T); quat = false; how += fmt(" RT%d", v); break; case 4: a->setTransform(q, T); t = tf(R, T); quat = true; how += fmt(" qT%d", v); break;
      case 5: a->setRotation(R); t.linear() = R; quat = false; how += fmt(" R%d", v); break; case 6: a->setTranslation(T); t.translation() = T; how += fmt(" T%d", v); break; case 7: a->setQuatRotation(q); t.linear() = R; quat = true; how += fmt(" q%d", v); break; default: a->computeAABB(); how += " box"; box(c, k, A, *a, t, how); }
    getters(c, k, *a, t, quat, how); c.state(mc::mix(mc::mix(hash(t), gi * 16 + gj), mc::mix(i, op == 8))); }
  if (c.verbose()) c.note("%s, against %s", how.c_str(), B.name.c_str());
  a->computeAABB(); box(c, k, A, *a, t, how); getters(c, k, twin, other, false, how + ", the other object of this geometry"); if (a->getUserData() != &tag) c.fail("user" + k, how + ": the user data is lost");
  answers(c, k, *a, b, quat ? Tf(a->getTransform()) : t, other, A.g.get(), B.g.get(), how); if (a->getAABB().overlap(b.getAABB()) == false) { fcl::CollisionRequest<double> rq; fcl::CollisionResult<double> r; if (fcl::collide(a.get(), &b, rq, r)) c.fail("apart" + k, how + ": the boxes are apart, but collide() finds a contact"); } c.count(0);
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "G05"; s.body = run; s.shard_depth = 4; s.hang_s = 10; s.counter_names = {"histories", "compared queries"};
  s.explanation = "Every sequence of placing operations up to the stated depth is run on collision objects of every geometry of the pool, from every constructor; after each step the getters are compared with the placement the operations define, after computeAABB() the box is compared with the moved geometry, and at the end collide() and distance() on objects are compared with the same on geometries.";
  s.assumptions = {"geometries and placements come from finite pools"};
  return mc::run(argc, argv, s);
}
