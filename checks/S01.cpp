// MC-BUILD: san=address
// S01: bounding volume hierarchies of the broad phase stay full binary trees over exactly their leaves, tight at every node.
#include "mc.h"
#include <map>
#include <set>
#include "fcl/math/bv/AABB.h"
#include "fcl/broadphase/detail/hierarchy_tree.h"
#include "fcl/broadphase/detail/hierarchy_tree_array.h"
using mc::fmt; typedef fcl::AABB<double> B; typedef fcl::Vector3<double> V;
static const double INF = std::numeric_limits<double>::infinity();
static B box(double x, double y, double z, double a, double b, double d) { B r; r.min_ = V(x, y, z); r.max_ = V(a, b, d); return r; }
static const std::vector<B>& pool() { static const std::vector<B> p = {box(0, 0, 0, 1, 1, 1), box(5, 0, 0, 6, 1, 1), box(-4, 3, 0.5, -3, 3.5, 2), box(0.25, 0.25, 0.25, 0.5, 0.5, 0.5), box(-10, -10, -10, 10, 10, 10), box(2, 2, 2, 2, 2, 2), box(0, 0, -INF, 1, 1, 1)}; return p; }
static bool same(const B& a, const B& b) { return a.min_ == b.min_ && a.max_ == b.max_; }
static std::string bs(const B& b) { return fmt("[%g %g %g : %g %g %g]", b.min_[0], b.min_[1], b.min_[2], b.max_[0], b.max_[1], b.max_[2]); }
static int IDS[64];   // the data pointers of the leaves point here
struct Seen { std::map<int, B> leaves; size_t height = 0; uint64_t shape = 0; };

struct Ptr {
  typedef fcl::detail::HierarchyTree<B> T; typedef T::NodeType N; typedef N* L; T t; std::vector<N*> trash; bool moves() const { return false; }
  Ptr(int th, int lev) : t(th, lev) {}
  L insert(const B& b, int id) { return t.insert(b, IDS + id); }
  void init(const std::vector<std::pair<int, B>>& v, int level) { std::vector<N*> l; for (auto& x : v) { N* n = new N; n->bv = x.second; n->parent = nullptr; n->children[1] = nullptr; n->data = IDS + x.first; l.push_back(n); } t.init(l, level); }
  B& bv(L l) { return l->bv; }
  std::string walk(N* n, N* parent, Seen& s, std::map<int, L>& where, size_t h, B& u, size_t& height) {
    if (n->parent != parent) return "a node does not know its parent"; if (h > 60) return "the tree is deeper than its leaves allow";
    if (n->isLeaf()) { if (n->isInternal()) return "a leaf is internal"; int id = (int)((int*)n->data - IDS); if (id < 0 || id >= 64 || s.leaves.count(id)) return "a leaf is there twice or foreign"; s.leaves[id] = n->bv; where[id] = n; u = n->bv; height = 0; s.shape = mc::mix(s.shape, id); return ""; }
    B l, r; size_t hl, hr; s.shape = mc::mix(s.shape, 1000); std::string e = walk(n->children[0], n, s, where, h + 1, l, hl); if (e.empty()) e = walk(n->children[1], n, s, where, h + 1, r, hr); if (!e.empty()) return e;
    u = l + r; height = 1 + std::max(hl, hr); if (!same(n->bv, u)) return "a node has the box " + bs(n->bv) + ", its leaves need " + bs(u); return ""; }
  std::string walk(Seen& s, std::map<int, L>& w) { if (!t.getRoot()) return ""; B u; return walk(t.getRoot(), nullptr, s, w, 0, u, s.height); }
};
struct Arr {
  typedef fcl::detail::implementation_array::HierarchyTree<B> T; typedef fcl::detail::implementation_array::NodeBase<B> N; typedef size_t L; T t; bool moves() const { return true; }
  Arr(int th, int lev) : t(th, lev) {}
  L insert(const B& b, int id) { return t.insert(b, IDS + id); }
  void init(const std::vector<std::pair<int, B>>& v, int level) { std::vector<N> l; for (auto& x : v) { N n; n.bv = x.second; n.parent = (size_t)-1; n.children[1] = (size_t)-1; n.data = IDS + x.first; l.push_back(n); } t.init(l.data(), (int)l.size(), level); }
  B& bv(L l) { return t.getNodes()[l].bv; }
  std::string walk(size_t k, size_t parent, Seen& s, std::map<int, L>& where, size_t h, B& u, size_t& height, std::set<size_t>& used) {
    if (!used.insert(k).second) return "a node is there twice"; N* n = t.getNodes() + k; if (n->parent != parent) return "a node does not know its parent"; if (h > 60) return "the tree is deeper than its leaves allow";
    if (n->isLeaf()) { if (n->isInternal()) return "a leaf is internal"; int id = (int)((int*)n->data - IDS); if (id < 0 || id >= 64 || s.leaves.count(id)) return "a leaf is there twice or foreign"; s.leaves[id] = n->bv; where[id] = k; u = n->bv; height = 0; s.shape = mc::mix(s.shape, id); return ""; }
    B l, r; size_t hl, hr; s.shape = mc::mix(s.shape, 1000); std::string e = walk(n->children[0], k, s, where, h + 1, l, hl, used); if (e.empty()) e = walk(t.getNodes()[k].children[1], k, s, where, h + 1, r, hr, used); if (!e.empty()) return e;
    u = l + r; height = 1 + std::max(hl, hr); if (!same(n->bv, u)) return "a node has the box " + bs(n->bv) + ", its leaves need " + bs(u); return ""; }
  std::string walk(Seen& s, std::map<int, L>& w) { if (t.getRoot() == (size_t)-1) return ""; B u; std::set<size_t> used; return walk(t.getRoot(), (size_t)-1, s, w, 0, u, s.height, used); }
};
static std::vector<B> arrangement(int k, int n) {   // sets of leaves for bulk construction
  std::vector<B> v; for (int i = 0; i < n; ++i) switch (k) {
    case 0: v.push_back(box(i * 2, 0, 0, i * 2 + 1, 1, 1)); break;                                   // a row
    case 1: v.push_back(box(0, 0, 0, 1, 1, 1)); break;                                              // all the same
    case 2: v.push_back(box(-i, -i, -i, i, i, i)); break;                                           // nested, one centre
    case 3: v.push_back(box((i * 7) % 5, (i * 3) % 4, (i * 5) % 7, (i * 7) % 5 + 0.5, (i * 3) % 4 + 1, (i * 5) % 7 + 2)); break;   // spread
    case 4: v.push_back(box(i % 2 * 100, 0, 0, i % 2 * 100 + 1, 1, 1 + i)); break;                   // two heaps
    default: v.push_back(i ? box(i, 0, 0, i, 0, 0) : box(0, 0, -INF, 1, 1, 1)); break;               // points and an unbounded box
  }
  return v;
}
template <class W> static void drive(mc::C& c, const char* nm) {
  bool th = c.thorough(); static const int TH[] = {16, 2, 4}; int bu = TH[c.choose(3)], lev = c.choose(2); W w(bu, lev); std::map<int, B> model; int next = 0; std::string hist = fmt("%s/%d/%d", nm, bu, lev);
  std::map<int, typename W::L> where; auto full = std::string(nm);
  auto check = [&](const std::string& op) {
    hist += " " + op; Seen s; where.clear(); std::string e = w.walk(s, where); std::string key = full + "/" + op.substr(0, op.find('('));
    if (!e.empty()) { c.fail(key, "after" + hist + ": " + e); return false; }
    if (s.leaves.size() != model.size()) { c.fail(key, "after" + hist + fmt(": %zu leaves, %zu were put in", s.leaves.size(), model.size())); return false; }
    for (auto& m : model) { auto f = s.leaves.find(m.first); if (f == s.leaves.end()) { c.fail(key, "after" + hist + fmt(": leaf %d is missing", m.first)); return false; } if (!same(f->second, m.second)) { c.fail(key, "after" + hist + fmt(": leaf %d has the box ", m.first) + bs(f->second) + ", not " + bs(m.second)); return false; } }
    if (w.t.size() != model.size() || w.t.empty() != model.empty()) { c.fail(key, "after" + hist + fmt(": size() %zu empty() %d, there are %zu leaves", w.t.size(), (int)w.t.empty(), model.size())); return false; }
    if (w.t.getMaxHeight() != s.height || w.t.getMaxDepth() != s.height) { c.fail(key, "after" + hist + fmt(": height %zu depth %zu, the tree has %zu", w.t.getMaxHeight(), w.t.getMaxDepth(), s.height)); return false; }
    c.state(mc::mix(mc::mix(std::hash<std::string>()(full), bu * 2 + lev), s.shape)); c.outcome(mc::mix(model.size(), s.height)); return true; };
  static const int NS[] = {0, 1, 2, 3, 5, 8, 17, 18}; int n0 = NS[c.choose(th ? 8 : 7)]; if (n0) {
    int ar = c.choose(n0 == 1 ? 1 : 6), level = c.choose(5); std::vector<std::pair<int, B>> v; int used = 0; if (c.flag()) { w.insert(pool()[1], 40); used = 1; } for (auto& b : arrangement(ar, n0)) { v.push_back({next, b}); model[next++] = b; } w.init(v, level == 4 ? 77 : level); c.count(0); if (!check(fmt("init(%d,%d,%d,%d)", n0, ar, level, used))) return; }
  else if (!check("new()")) return;
  int steps = n0 == 0 ? (th ? 4 : 3) : n0 > 8 ? 1 : n0 > 2 ? (th || (n0 == 5 && model[2].min_[2] == 3) ? 2 : 1) : n0 == 2 ? (th ? 3 : 1) : (th ? 3 : 2);
  auto some = [&](size_t n) { size_t m = model.size(); if (m <= n) { auto it = model.begin(); std::advance(it, c.choose((int)m)); return it->first; } size_t k = c.choose((int)n); auto it = model.begin(); std::advance(it, k * (m - 1) / (n - 1)); return it->first; };
  for (int s = 0; s < steps; ++s) {
    int op = c.choose(model.empty() ? 3 : 10); c.context(hist + fmt(" op %d", op)); c.count(1);
    if (op == 0) { int k = c.choose(7); int id = next++ % 64; B b = pool()[k]; auto l = w.insert(b, id); if (!same(w.bv(l), b)) { c.fail(full + "/insert", "the leaf returned has another box"); return; } model[id] = b; if (!check(fmt("insert(%d)", k))) return; }
    else if (op == 1) { int k = c.choose(3); int n = k == 0 ? 1 : k == 1 ? 2 : -1; w.t.balanceIncremental(k == 2 ? -1 : n); if (!check(fmt("balanceIncremental(%d)", n))) return; }
    else if (op == 2) { w.t.clear(); model.clear(); if (!check("clear()")) return; }
    else if (op == 3) { w.t.balanceBottomup(); if (!check("balanceBottomup()")) return; }
    else if (op == 4) { w.t.balanceTopdown(); if (!check("balanceTopdown()")) return; }
    else { int id = some(th ? 4 : 3); auto l = where[id];
      if (op == 5) { w.t.remove(l); model.erase(id); if (!check(fmt("remove(%d)", id))) return; }
      else { int k = c.choose(th ? 7 : 5); B b = pool()[th || k < 4 ? k : 6];
        if (op == 6) { bool had = model[id].contain(b); bool r = w.t.update(l, b); if (r == had) { c.fail(full + "/update", "after" + hist + fmt(": update to a box that %s inside returned %d", had ? "lies" : "does not lie", (int)r)); return; } if (!had) model[id] = b; if (!check(fmt("update(%d,%d)", id, k))) return; }
        else if (op == 7) { int la = c.choose(3) * 2 - 1; w.bv(l) = b; model[id] = b; w.t.update(l, la); if (!check(fmt("move(%d,%d,%d)", id, k, la))) return; }
        else if (op == 8) { w.bv(l) = b; model[id] = b; w.t.refit(); if (!check(fmt("refit(%d,%d)", id, k))) return; }
        else { bool had = model[id].contain(b), r = w.t.update(l, b, V(1, 0, 0)); if (r == had) { c.fail(full + "/predict", "after" + hist + ": update with a velocity returned the wrong answer"); return; } if (!had) model[id] = b; if (!check(fmt("predict(%d,%d)", id, k))) return; } } }
  }
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "S01"; s.body = [](mc::C& c) { if (c.choose(2)) drive<Arr>(c, "array"); else drive<Ptr>(c, "tree"); }; s.shard_depth = 5; s.counter_names = {"bulk constructions", "operations"};
  s.explanation = "Every sequence of operations up to the stated depth on both implementations of the hierarchy, from every start (empty or bulk construction at every level from six arrangements of up to 18 leaves), for all thresholds; after every operation the whole tree is walked and compared with the set of leaves.";
  s.assumptions = {"boxes come from a pool of seven and six arrangements"};
  return mc::run(argc, argv, s);
}
