// MC-BUILD: san=address
// S02: interval trees, hash tables and Morton codes of the broad phase answer as the sets they hold.
#include "mc.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include "fcl/broadphase/detail/interval_tree.h"
#include "fcl/broadphase/detail/simple_hash_table.h"
#include "fcl/broadphase/detail/sparse_hash_table.h"
#include "fcl/broadphase/detail/spatial_hash.h"
#include "fcl/broadphase/detail/morton.h"
using mc::fmt; typedef fcl::Vector3<double> V; typedef fcl::AABB<double> B;
typedef fcl::detail::SimpleInterval<double> Ivl; typedef fcl::detail::IntervalTreeNode<double> Node;
struct Look;   // a friend of the nodes by name
namespace fcl { namespace detail { template <> class IntervalTree<Look> : public IntervalTree<double> { public:
  static Node* root_of(IntervalTree<double>& t) { return static_cast<IntervalTree<Look>&>(t).root; }
  struct R { std::string bad; std::vector<std::pair<Node*, Ivl*>> order; uint64_t shape = 0; int height = 0; };
  static int walk(Node* n, Node* nil, Node* parent, R& r, double& mx, int h) {   // black height, -1 when broken
    mx = -std::numeric_limits<double>::max(); if (n == nil) { r.shape = mc::mix(r.shape, 3); return 1; } r.height = std::max(r.height, h); if (h > 40) { r.bad = "the tree is too deep"; return -1; }
    if (n->parent != parent) { r.bad = "a node does not know its parent"; return -1; } if (n->red && (n->left->red || n->right->red)) { r.bad = "a red node has a red child"; return -1; }
    double a, b; r.shape = mc::mix(r.shape, n->red ? 1 : 2); int l = walk(n->left, nil, n, r, a, h + 1); if (l < 0) return -1; r.order.push_back({n, n->stored_interval}); if (n->key != n->stored_interval->low || n->high != n->stored_interval->high) { r.bad = "a node holds other ends than its interval"; return -1; }
    int k = walk(n->right, nil, n, r, b, h + 1); if (k < 0) return -1; if (l != k) { r.bad = "the black heights differ"; return -1; } mx = std::max(n->high, std::max(a, b)); if (n->max_high != mx) { r.bad = fmt("a node has the greatest upper end %g, below it is %g", n->max_high, mx); return -1; } return l + !n->red; }
  static R look(IntervalTree<double>& t) { R r; auto& s = static_cast<IntervalTree<Look>&>(t); double m; if (s.nil->red) r.bad = "the sentinel is red"; else if (s.root->red || s.root->left->red) r.bad = "the root is red"; else walk(s.root->left, s.nil, s.root, r, m, 0); return r; }
  static Node* nil_of(IntervalTree<double>& t) { return static_cast<IntervalTree<Look>&>(t).nil; }
}; } }
typedef fcl::detail::IntervalTree<Look> L;
static const double INF = std::numeric_limits<double>::infinity();
struct World {
  fcl::detail::IntervalTree<double> t; std::vector<std::unique_ptr<Ivl>> own; std::map<Ivl*, Node*> in; std::vector<Ivl*> present; std::string hist;
  Ivl* make(double lo, double hi) { own.emplace_back(new Ivl); own.back()->low = lo; own.back()->high = hi; return own.back().get(); }
  void put(Ivl* i) { in[i] = t.insert(i); present.push_back(i); hist += fmt(" +[%g,%g]", i->low, i->high); }
  void drop(size_t k, bool by_node, mc::C& c) { Ivl* i = present[k]; hist += fmt(" -[%g,%g]", i->low, i->high); if (by_node) { Ivl* r = t.deleteNode(in[i]); if (r != i) c.fail("interval/delete", "after" + hist + ": another interval was returned"); } else t.deleteNode(i); present.erase(present.begin() + k); in.erase(i); }
  bool check(mc::C& c) {
    auto r = L::look(t); if (!r.bad.empty()) { c.fail("interval/tree", "after" + hist + ": " + r.bad); return false; } c.state(r.shape); c.outcome(mc::mix(r.height, present.size()));
    if (r.order.size() != present.size()) { c.fail("interval/size", "after" + hist + fmt(": %zu nodes for %zu intervals", r.order.size(), present.size())); return false; }
    for (size_t i = 0; i < r.order.size(); ++i) { auto f = in.find(r.order[i].second); if (f == in.end() || f->second != r.order[i].first) { c.fail("interval/node", "after" + hist + ": an interval moved to another node or is foreign"); return false; } if (i && r.order[i - 1].second->low > r.order[i].second->low) { c.fail("interval/order", "after" + hist + ": the tree is not ordered"); return false; }
      Node *p = t.getPredecessor(r.order[i].first), *s = t.getSuccessor(r.order[i].first), *wp = i ? r.order[i - 1].first : L::nil_of(t), *ws = i + 1 < r.order.size() ? r.order[i + 1].first : L::nil_of(t); if (p != wp || s != ws) { c.fail("interval/next", "after" + hist + fmt(": neighbour of node %zu of %zu is wrong", i, r.order.size())); return false; } }
    static const double q[] = {-INF, -2, 0, 0.5, 1, 2, 3, 4.5, 8, 20, INF};
    for (double a : q) for (double b : q) if (a <= b) { auto d = t.query(a, b); c.count(1); std::set<Ivl*> got(d.begin(), d.end()); if (got.size() != d.size()) { c.fail("interval/twice", "after" + hist + fmt(": query [%g,%g] returned an interval twice", a, b)); return false; } size_t want = 0; for (Ivl* i : present) if (i->low <= b && a <= i->high) { ++want; if (!got.count(i)) { c.fail("interval/missing", "after" + hist + fmt(": query [%g,%g] misses [%g,%g]", a, b, i->low, i->high)); return false; } } if (want != got.size()) { c.fail("interval/extra", "after" + hist + fmt(": query [%g,%g] returned %zu intervals, %zu overlap", a, b, got.size(), want)); return false; } }
    return true; }
};
static const double POOL[][2] = {{0, 1}, {0, 3}, {2, 2}, {-2, 8}, {3, 4.5}, {1, 2}, {-INF, 0}, {4.5, INF}, {-INF, INF}};
static void intervals(mc::C& c) {
  bool th = c.thorough(); World w; int mode = c.choose(3);
  if (mode == 0) {   // every sequence of insertions and deletions
    int depth = th ? 7 : 5, np = th ? 9 : 6; static const int PI[] = {0, 1, 2, 3, 6, 7, 4, 5, 8}; if (!w.check(c)) return; c.count(0);
    for (int s = 0; s < depth; ++s) { int k = c.choose(np + (int)w.present.size()); c.context("intervals"); if (k < np) { int j = PI[k]; w.put(w.make(POOL[j][0], POOL[j][1])); } else w.drop(k - np, s & 1, c); if (!w.check(c)) return; }
    Ivl foreign; foreign.low = 0; foreign.high = 1; w.t.deleteNode(&foreign); w.check(c);
  } else if (mode == 1) {   // fill in a fixed order, empty in every order
    int n = th ? 8 : 7, ord = c.choose(6), kind = c.choose(3); c.count(0); c.context("drain");
    for (int i = 0; i < n; ++i) { int j = ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : ord == 3 ? (i * 3) % n : ord == 4 ? (i * 5 + 2) % n : (i * (n - 2) + 1) % n; double lo = kind == 0 ? j : kind == 1 ? j / 3 : j; double hi = kind == 0 ? j + 1 : kind == 1 ? 8 - j : j + (j * 5 % 7); w.put(w.make(lo, std::max(lo, hi))); if (!w.check(c)) return; }
    while (!w.present.empty()) { w.drop(c.choose((int)w.present.size()), kind == 1, c); if (!w.check(c)) return; }
  } else {   // larger trees, a few deletions anywhere and an insertion
    static const int N[] = {12, 20, 33}; int n = N[c.choose(th ? 3 : 2)], ord = c.choose(4); c.count(0); c.context("large");
    for (int i = 0; i < n; ++i) { int j = ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : (i * 7 + 3) % n; if (n == 33 && ord == 3) j = (i * 10) % n; if (n == 20 && ord == 3) j = (i * 7) % n; w.put(w.make(j * 0.5, j * 0.5 + (j * 5 % 11))); } if (!w.check(c)) return;
    for (int s = 0; s < (th ? 3 : 2); ++s) { w.drop(c.choose((int)w.present.size()), c.choose(2), c); if (!w.check(c)) return; } int k = c.choose(4); w.put(w.make(k * 3, k * 4)); w.check(c);
  }
}
static B box(double x, double y, double z, double a, double b, double d) { B r; r.min_ = V(x, y, z); r.max_ = V(a, b, d); return r; }
typedef fcl::detail::SpatialHash<double> H;
template <class T> static void hash_ops(mc::C& c, T& t, const B& scene, double cell, const char* nm, size_t buckets) {
  static const std::vector<B> boxes = {box(0.25, 0.25, 0.25, 0.5, 0.5, 0.5), box(0.5, 0.5, 0.5, 1.5, 1.25, 0.75), box(1, 1, 1, 1, 1, 1), box(-0.5, 0, 0, 3.5, 3.5, 0.25), box(3, 3, 3, 4, 4, 4), box(1, 0, 0, 2, 0, 3), box(-1, -1, -1, 4, 4, 4)};
  std::vector<std::pair<int, int>> model; std::string hist; int depth = c.thorough() ? 5 : 4, next = 0; c.count(2);
  for (int s = 0; s <= depth; ++s) {
    c.context(nm); c.state(mc::mix(mc::mix(buckets, s), std::hash<std::string>()(hist)));
    for (size_t q = 0; q < boxes.size(); ++q) { auto r = t.query(boxes[q]); std::set<int> got(r.begin(), r.end()); c.count(1); std::string key = std::string("hash/") + nm; if (got.size() != r.size()) { c.fail(key + "/twice", "after" + hist + fmt(": box %zu has a value twice", q)); return; } std::set<int> have; for (auto& m : model) { have.insert(m.second); bool near = boxes[m.first].overlap(boxes[q]); if (near && !got.count(m.second)) { c.fail(key + "/missing", "after" + hist + fmt(": query of box %zu misses value %d of box %d", q, m.second, m.first)); return; }
        bool inner = true, apart = false; for (int z = 0; z < 3; ++z) { const B &a = boxes[m.first], &b = boxes[q]; inner = inner && a.min_[z] >= scene.min_[z] && b.min_[z] >= scene.min_[z] && a.max_[z] < scene.max_[z] && b.max_[z] < scene.max_[z]; double a0 = std::floor((a.min_[z] - scene.min_[z]) / cell), a1 = std::floor((a.max_[z] - scene.min_[z]) / cell), b0 = std::floor((b.min_[z] - scene.min_[z]) / cell), b1 = std::floor((b.max_[z] - scene.min_[z]) / cell); apart = apart || a1 < b0 || b1 < a0; } if (inner && apart && !buckets && got.count(m.second)) { c.fail(key + "/foreign", "after" + hist + fmt(": query of box %zu returned value %d of box %d, which shares no cell", q, m.second, m.first)); return; } }
      for (int g : got) if (!have.count(g)) { c.fail(key + "/stale", "after" + hist + fmt(": query of box %zu returned value %d, which is not in the table", q, g)); return; } }
    if (s == depth) break; int nb = c.thorough() ? 7 : 5, op = c.choose(nb + (int)model.size() + 1);
    if (op < nb) { t.insert(boxes[op], next); model.push_back({op, next}); hist += fmt(" insert(%d,%d)", op, next); ++next; } else if (op < nb + (int)model.size()) { auto m = model[op - nb]; t.remove(boxes[m.first], m.second); model.erase(model.begin() + (op - nb)); hist += fmt(" remove(%d,%d)", m.first, m.second); } else { t.clear(); model.clear(); hist += " clear"; }
  }
}
static void hashes(mc::C& c) {
  static const double CS[] = {1, 0.5, 2.5}; B scene = box(-1, -1, -1, 4, 4, 4); double cell = CS[c.choose(3)]; H h(scene, cell); int k = c.choose(6);
  if (k < 5) { static const size_t sz[] = {1, 2, 7, 64, 1000}; fcl::detail::SimpleHashTable<B, int, H> t(h); t.init(sz[k]); hash_ops(c, t, scene, cell, "simple", sz[k]); }
  else { fcl::detail::SparseHashTable<B, int, H> t(h); t.init(0); hash_ops(c, t, scene, cell, "sparse", 0); }
}
static uint64_t interleave(const uint32_t k[3], int bits) { uint64_t r = 0; for (int i = 0; i < bits; ++i) for (int z = 0; z < 3; ++z) r |= (uint64_t)(k[z] >> i & 1) << (3 * i + z); return r; }
static void codes(mc::C& c) {
  static const std::vector<B> bx = {box(0, 0, 0, 1, 1, 1), box(-4, 2, 10, 4, 4, 42), box(-1e-3, -1e3, 0, 1e-3, 1e3, 1)}; const B& b = bx[c.choose(3)]; int n = c.thorough() ? 34 : 18; double f[3]; V p; c.context("codes");
  for (int z = 0; z < 3; ++z) { int k = c.choose(n); static const double s[] = {0, 1, 0.5, 0.25, 0.75, 1.0 / 1024, 1023.0 / 1024, 1.0 / 1048576, 1048575.0 / 1048576, 0.125, 0.375, 0.625, 0.875, 513.0 / 1024, 511.0 / 1024, 85.0 / 256, 170.0 / 256, 0.0625}; f[z] = k < 18 ? s[k] : (k - 17) / 17.0 * 0.9999; p[z] = b.min_[z] + f[z] * (b.max_[z] - b.min_[z]); }
  c.count(1); c.state(mc::mix(mc::hbits(p[0]), mc::mix(mc::hbits(p[1]), mc::hbits(p[2]))));
  fcl::detail::morton_functor<double, fcl::uint32> m32(b); fcl::detail::morton_functor<double, fcl::uint64> m64(b); fcl::detail::morton_functor<double, std::bitset<30>> ms(b); fcl::detail::morton_functor<double, std::bitset<60>> ml(b);
  if (m32.bits() != 30 || m64.bits() != 60 || ms.bits() != 30 || ml.bits() != 60) c.fail("codes/bits", "number of bits"); uint64_t a = m32(p), d = m64(p), s = ms(p).to_ulong(), l = ml(p).to_ulong(); uint32_t k[3], k2[3]; bool edge = false;
  for (int z = 0; z < 3; ++z) { double u = (p[z] - b.min_[z]) * (1.0 / (b.max_[z] - b.min_[z])); k[z] = (uint32_t)std::min(std::floor(u * 1024), 1023.0); k2[z] = (uint32_t)std::min(std::floor(u * 1048576), 1048575.0); edge = edge || std::abs(u - 1) < 1e-12; }
  (void)edge; if (a != interleave(k, 10)) c.fail("codes/32", fmt("%llx instead of %llx", (unsigned long long)a, (unsigned long long)interleave(k, 10))); if (d != interleave(k2, 20)) c.fail("codes/64", fmt("%llx instead of %llx", (unsigned long long)d, (unsigned long long)interleave(k2, 20))); if (s != a) c.fail("codes/bitset30", fmt("%llx instead of %llx", (unsigned long long)s, (unsigned long long)a)); if (l != d) c.fail("codes/bitset60", fmt("%llx instead of %llx", (unsigned long long)l, (unsigned long long)d));
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "S02"; s.body = [](mc::C& c) { int k = c.choose(3); if (k == 0) intervals(c); else if (k == 1) hashes(c); else codes(c); }; s.shard_depth = 5; s.counter_names = {"interval histories", "queries", "hash histories"};
  s.explanation = "Interval trees: every sequence of insertions and deletions of the stated depth, every order of emptying trees filled in six orders, and deletions anywhere in larger trees, with all invariants of the tree and all queries over eleven ends after each step. Hash tables: every sequence of insertions, removals and clearing of the stated depth for several cell and table sizes, all boxes queried after each. Morton codes: all points of a grid in three boxes.";
  s.assumptions = {"intervals and boxes come from finite pools; a value is in a hash table once"};
  return mc::run(argc, argv, s);
}
