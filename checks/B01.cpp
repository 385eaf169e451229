// MC-BUILD: san=none
// B01: broad-phase collision queries after every history of manager operations.
#include "arena.h"
#include "bp_world.h"
using namespace bp;
using mc::fmt;

static std::vector<size_t> stops(size_t n) { std::vector<size_t> r; for (size_t k = 1; k <= n; ++k) if (k <= 4 || k + 1 >= n) r.push_back(k); return r; }

// expected: all overlapping unordered pairs among `need`; allowed: any pair accepted by `ok`
static void check_pairs(World& w, const char* what, const PairLog& l, const std::set<std::pair<int, int>>& need, const std::function<bool(int, int)>& ok, const std::function<int(const Obj*)>& idx) {
  std::set<std::pair<int, int>> got;
  for (auto& p : l.v) {
    int a = idx(p.first), b = idx(p.second);
    if (a < 0 || b < 0) w.c.fail(fmt("%s/%s/stale", kind_family(w.kind), what), fmt("%s: %s reported an object that is not managed", kind_name(w.kind), what));
    if (a > b) std::swap(a, b);
    if (a == b) w.c.fail(fmt("%s/%s/self", kind_family(w.kind), what), fmt("%s: %s paired object %d with itself", kind_name(w.kind), what, a));
    if (!ok(a, b)) w.c.fail(fmt("%s/%s/stale", kind_family(w.kind), what), fmt("%s: %s reported pair (%d,%d) that must not be considered", kind_name(w.kind), what, a, b));
    if (!got.insert({a, b}).second) w.c.fail(fmt("%s/%s/dup", kind_family(w.kind), what), fmt("%s: %s reported pair (%d,%d) twice", kind_name(w.kind), what, a, b));
  }
  for (auto& p : need) if (!got.count(p)) w.c.fail(fmt("%s/%s/missed", kind_family(w.kind), what), fmt("%s: %s missed overlapping pair (%d,%d)", kind_name(w.kind), what, p.first, p.second));
}

static void queries(World& w, int first_ext) {
  mc::C& c = w.c;
  if (w.need_setup) w.setup();
  auto idx = [&](const Obj* o) { return w.idx(o); };
  int n = first_ext;
  // self collision
  std::set<std::pair<int, int>> need;
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (w.reg[i] && w.reg[j] && overlaps(w.box(i), w.box(j))) need.insert({i, j});
  auto okself = [&](int a, int b) { return a < n && b < n && w.reg[a] && w.reg[b]; };
  PairLog l; w.m->collide(&l, log_cb); check_pairs(w, "self-collide", l, need, okself, idx); c.count(0);
  uint64_t out = w.kind; for (auto& p : need) out = mc::mix(out, p.first * 16 + p.second); c.outcome(out);
  for (size_t k : stops(l.v.size())) { PairLog s; s.stop_at = k; w.m->collide(&s, log_cb); if (s.v.size() != k) c.fail(fmt("%s/stop", kind_family(w.kind)), fmt("%s: callback asked to stop after %zu, got %zu", kind_name(w.kind), k, s.v.size())); }
  // an object outside the manager, at every position; two of them also as a second manager
  for (int e = first_ext; e < (int)w.objs.size(); ++e) {
    for (const V3& p : POS) {
      w.place(e, p);
      std::set<std::pair<int, int>> nd; for (int i = 0; i < n; ++i) if (w.reg[i] && overlaps(w.box(i), w.box(e))) nd.insert({i, e});
      PairLog q; w.m->collide(w.objs[e].get(), &q, log_cb); c.count(1);
      check_pairs(w, "object-collide", q, nd, [&](int a, int b) { return b == e && a < n && w.reg[a]; }, idx);
      for (size_t k : stops(q.v.size())) { PairLog s; s.stop_at = k; w.m->collide(w.objs[e].get(), &s, log_cb); if (s.v.size() != k) c.fail(fmt("%s/stop", kind_family(w.kind)), fmt("%s: object query: callback asked to stop after %zu, got %zu", kind_name(w.kind), k, s.v.size())); }
    }
  }
  // a managed object against the others
  for (int i = 0; i < 3; ++i) if (w.reg[i]) {
    std::set<std::pair<int, int>> nd; for (int j = 0; j < n; ++j) if (j != i && w.reg[j] && overlaps(w.box(i), w.box(j))) nd.insert({std::min(i, j), std::max(i, j)});
    PairLog q; w.m->collide(w.objs[i].get(), &q, log_cb); c.count(2);
    PairLog q2; for (auto& p : q.v) if (p.first != p.second) q2.v.push_back(p);
    check_pairs(w, "member-collide", q2, nd, [&](int a, int b) { return (a == i || b == i) && a < n && b < n && w.reg[a] && w.reg[b]; }, idx);
  }
  // a second manager of the same kind holding the outside objects
  for (size_t pi = 0; pi < POS.size(); ++pi) {
    int e0 = first_ext, ne = (int)w.objs.size() - first_ext;
    std::vector<Obj*> eo; for (int e = 0; e < ne; ++e) { w.place(e0 + e, POS[(pi + e) % POS.size()]); eo.push_back(w.objs[e0 + e].get()); }
    std::unique_ptr<Mgr> o(make(w.kind)); o->registerObjects(eo); o->setup();
    std::set<std::pair<int, int>> nd; for (int i = 0; i < n; ++i) for (int e = e0; e < e0 + ne; ++e) if (w.reg[i] && overlaps(w.box(i), w.box(e))) nd.insert({i, e});
    auto ok = [&](int a, int b) { return a < n && b >= e0 && w.reg[a]; };
    PairLog q1; w.m->collide(o.get(), &q1, log_cb); check_pairs(w, "manager-collide", q1, nd, ok, idx);
    PairLog q2; o->collide(w.m.get(), &q2, log_cb); check_pairs(w, "manager-collide", q2, nd, ok, idx); c.count(3, 2);
    for (size_t k : stops(q1.v.size())) { PairLog s; s.stop_at = k; w.m->collide(o.get(), &s, log_cb); if (s.v.size() != k) c.fail(fmt("%s/stop", kind_family(w.kind)), fmt("%s: manager query: callback asked to stop after %zu, got %zu", kind_name(w.kind), k, s.v.size())); }
  }
  PairLog qs; w.m->collide(w.m.get(), &qs, log_cb); check_pairs(w, "own-manager-collide", qs, need, okself, idx);
}

static void body(mc::C& c) {
  int kind = c.choose(NKINDS);
  bool down = c.flag(), eager = c.flag();
  arena::begin(down);
  struct End { ~End() { arena::end(); } } end_;
  c.note("addresses %s", down ? "descending" : "ascending");
  Opts o; o.depth = c.thorough() ? 4 : 3; o.npos = c.thorough() ? 6 : 5; o.crowd_depth = c.thorough() ? 2 : 1; o.infinite_depth = c.thorough() ? 3 : 2;
  Driver d(c, kind, eager, o);
  queries(d.w, d.first_ext);
}

int main(int argc, char** argv) {
  mc::Spec s; s.property = "B01"; s.body = body; s.shard_depth = 6;
  s.explanation = "every history of at most D operations (register one/many, unregister, move+update in its three forms, clear, setup) on 3 boxes (alone, among 112 others, or one of them a half-space), from 3 start states, for 13 manager configurations, both address orders and both setup disciplines; after each history self, object, member and two-manager collision queries are compared with pairwise box overlap";
  s.counter_names = {"self_queries", "object_queries", "member_queries", "manager_queries"};
  return mc::run(argc, argv, s);
}
