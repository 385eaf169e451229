// MC-BUILD: san=none
// B02: broad-phase distance queries after every history of manager operations.
#include "arena.h"
#include "bp_world.h"
using namespace bp;
using mc::fmt;
typedef std::set<std::pair<int, int>> Pairs;

// improve: the callback lowers the bound to the true box distance; otherwise it never lowers it
struct DLog { World* w; bool improve; size_t n = 0, stop_at = 0; double best = std::numeric_limits<double>::max(); Pairs got; std::string bad; std::function<bool(int, int)> ok; const char* what; };
static bool dcb(Obj* a, Obj* b, void* d, double& dist) {
  DLog* l = (DLog*)d; ++l->n;
  int i = l->w->idx(a), j = l->w->idx(b); if (i > j) std::swap(i, j);
  if (i < 0) l->bad = "an object that is not managed"; else if (i == j) l->bad = fmt("object %d paired with itself", i); else if (!l->ok(i, j)) l->bad = fmt("pair (%d,%d), which must not be considered", i, j);
  l->got.insert({i, j});
  if (l->improve && i >= 0) { l->best = std::min(l->best, boxdist(l->w->box(i), l->w->box(j))); dist = l->best; }
  if (l->n > 1000000) l->bad = "more than a million calls";
  return (l->stop_at && l->n >= l->stop_at) || l->n > 1000000;
}
template <class F> static void check(World& w, const char* what, const Pairs& all, double expect, F query) {
  mc::C& c = w.c; auto key = [&](const char* k) { return fmt("%s/%s/%s", kind_family(w.kind), what, k); };
  auto ok = [&](int i, int j) { return all.count({i, j}) > 0; };
  DLog l; l.w = &w; l.improve = true; l.ok = ok; query(&l);
  if (!l.bad.empty()) c.fail(key("stale"), fmt("%s: %s reported %s", kind_name(w.kind), what, l.bad.c_str()));
  if (!(std::abs(l.best - expect) <= 1e-9 * (1 + std::abs(expect)) || l.best == expect)) c.fail(key("minimum"), fmt("%s: %s found %.17g, the smallest distance is %.17g", kind_name(w.kind), what, l.best, expect));
  c.outcome(mc::mix(mc::hbits(l.best), l.n));
  if (expect == 0) {   // touching or overlapping: nothing can be closer, and the callback may end the query
    DLog s; s.w = &w; s.improve = true; s.ok = ok; s.stop_at = 1; query(&s); if (s.n != 1) c.fail(key("stop"), fmt("%s: %s went on after the callback asked to stop", kind_name(w.kind), what));
  }
  if (all.size() <= 400) {
    DLog p; p.w = &w; p.improve = false; p.ok = ok; query(&p);
    if (!p.bad.empty()) c.fail(key("stale"), fmt("%s: %s reported %s", kind_name(w.kind), what, p.bad.c_str()));
    if (p.got != all) { std::pair<int, int> m(-1, -1); for (auto& x : all) if (!p.got.count(x)) { m = x; break; } c.fail(key("skipped"), fmt("%s: %s never considered pair (%d,%d) although nothing closer is known", kind_name(w.kind), what, m.first, m.second)); }
    for (size_t k = 1; k <= p.n && k <= 3; ++k) { DLog s; s.w = &w; s.improve = false; s.ok = ok; s.stop_at = k; query(&s); if (s.n != k) c.fail(key("stop"), fmt("%s: %s went on after the callback asked to stop", kind_name(w.kind), what)); }
  }
}
static double low(World& w, const Pairs& p) { double m = std::numeric_limits<double>::max(); for (auto& x : p) m = std::min(m, boxdist(w.box(x.first), w.box(x.second))); return m; }

// more than a hundred boxes in a column or a cluster, so that the windows the managers search are crowded along
// some axes only, and one box nearer to the last of them than any other two are
static void layout(mc::C& c, int kind) {
  arena::begin(false); struct End { ~End() { arena::end(); } } end_;
  int along = c.choose(4), side = c.choose(6); static const double G[] = {0.5, 1.5, 3, 4.5, 6, 0.125, 2, 7.5}; double gap = G[c.choose(c.thorough() ? 8 : 4)]; bool first = c.flag(), cold = c.flag(); int n = 130; World w(c, kind);
  V3 off = V3::Zero(); off[side % 3] = (side < 3 ? 1 : -1) * (1 + gap);
  auto at = [&](int i) { V3 p; if (along < 3) { p = V3::Constant(0.1 * (i % 3)); p[along] = 40 + 9.0 * i; } else p = V3(9.0 * (i % 6), 9.0 * (i / 6 % 6), 9.0 * (i / 36)); return p; };
  V3 h(0.5, 0.5, 0.5); std::vector<int> v; 
  if (first) w.add(h, at(n - 1) + off);
  for (int i = 0; i < n; ++i) w.add(h, at(i));
  if (!first) w.add(h, at(n - 1) + off);
  int e = w.add(h, V3::Zero()); for (int i = 0; i < e; ++i) v.push_back(i);
  c.note("manager %s, %d boxes %s, one %g beyond the last along %d", kind_name(kind), n, along < 3 ? "in a column" : "in a grid", gap, side);
  if (cold) for (int i : v) w.registerOne(i); else w.registerMany(v);
  w.setup(); c.state(mc::mix(kind, along * 1000 + side * 100 + (int)(gap * 8) * 4 + first * 2 + cold));
  Pairs self; for (int i = 0; i < e; ++i) for (int j = i + 1; j < e; ++j) self.insert({i, j});
  check(w, "self-distance", self, low(w, self), [&](DLog* l) { w.m->distance(l, dcb); }); c.count(0);
  w.unregister(first ? 0 : e - 1); w.setup();
  int lo = first ? 1 : 0; Pairs s; for (int i = lo; i < lo + n; ++i) s.insert({i, e});
  for (int k : {n - 1, n / 2, 0}) { w.place(e, at(k) + off); check(w, "object-distance", s, low(w, s), [&](DLog* l) { w.m->distance(w.objs[e].get(), l, dcb); }); c.count(1); }
  int f = first ? 0 : e - 1; w.place(f, at(n / 3) + off * 1.5); w.place(e, at(n - 1) + off); 
  std::unique_ptr<Mgr> om(make(kind)); om->registerObjects({w.objs[f].get(), w.objs[e].get()}); om->setup();
  Pairs t = s; for (int i = lo; i < lo + n; ++i) t.insert({std::min(i, f), std::max(i, f)});
  check(w, "manager-distance", t, low(w, t), [&](DLog* l) { w.m->distance(om.get(), l, dcb); }); check(w, "manager-distance", t, low(w, t), [&](DLog* l) { om->distance(w.m.get(), l, dcb); }); c.count(3, 2);
}
static void body(mc::C& c) {
  int kind = c.choose(NKINDS);
  if (c.flag()) { layout(c, kind); return; }
  bool down = c.flag(), eager = c.flag();
  arena::begin(down);
  struct End { ~End() { arena::end(); } } end_;
  Opts o; bool hash = kind == 4 || kind == 5; o.depth = (c.thorough() ? 4 : 3) - (hash ? 1 : 0); o.npos = c.thorough() ? 5 : hash ? 5 : 3; o.crowd_depth = c.thorough() ? 2 : 1; o.infinite_depth = c.thorough() ? 3 : 2;
  Driver d(c, kind, eager, o);
  World& w = d.w; int n = d.nmanaged, e0 = d.first_ext, ne = (int)w.objs.size() - e0;
  if (w.need_setup) w.setup();
  Pairs self; for (int i = 0; i < n; ++i) if (w.reg[i]) for (int j = i + 1; j < n; ++j) if (w.reg[j]) self.insert({i, j});
  double ls = low(w, self);
  check(w, "self-distance", self, ls, [&](DLog* l) { w.m->distance(l, dcb); }); c.count(0);
  if (n <= 8) check(w, "own-manager-distance", self, ls, [&](DLog* l) { w.m->distance(w.m.get(), l, dcb); });
  for (int e = e0; e < e0 + ne; ++e) for (const V3& p : POS) {
    w.place(e, p);
    Pairs s; for (int i = 0; i < n; ++i) if (w.reg[i]) s.insert({i, e});
    check(w, "object-distance", s, low(w, s), [&](DLog* l) { w.m->distance(w.objs[e].get(), l, dcb); }); c.count(1);
    if ((n > 8 || !c.thorough()) && e > e0) break;
  }
  for (int i = 0; i < 3; ++i) if (w.reg[i]) {
    // a managed object: managers may or may not offer the object itself, so only the distance to the others is judged
    Pairs s; for (int j = 0; j < n; ++j) if (j != i && w.reg[j]) s.insert({std::min(i, j), std::max(i, j)});
    if (kind == 1 || kind == 2 || kind == 3 || kind == 4 || kind == 5) { check(w, "member-distance", s, low(w, s), [&](DLog* l) { w.m->distance(w.objs[i].get(), l, dcb); }); c.count(2); }
  }
  for (size_t pi = 0; pi < POS.size(); pi += c.thorough() ? 1 : 2) {
    std::vector<Obj*> eo; for (int e = 0; e < ne; ++e) { w.place(e0 + e, POS[(pi + e) % POS.size()]); eo.push_back(w.objs[e0 + e].get()); }
    std::unique_ptr<Mgr> om(make(w.kind)); om->registerObjects(eo); om->setup();
    Pairs s; for (int i = 0; i < n; ++i) if (w.reg[i]) for (int e = e0; e < e0 + ne; ++e) s.insert({i, e});
    double lm = low(w, s);
    check(w, "manager-distance", s, lm, [&](DLog* l) { w.m->distance(om.get(), l, dcb); });
    check(w, "manager-distance", s, lm, [&](DLog* l) { om->distance(w.m.get(), l, dcb); }); c.count(3, 2);
    if (n > 8 && pi > 1) break;
  }
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "B02"; s.body = body; s.shard_depth = 6;
  s.explanation = "every layout of 131 boxes in a column along an axis or in a grid with one box nearer along an axis, and every history of at most D manager operations on 3 boxes (alone, among 112 others, or one of them a half-space), from 3 start states, for 13 manager configurations, both address orders and both setup disciplines; after each, self, object, member and two-manager distance queries, once with a callback that lowers the bound to the exact box distance (the result must be the exact minimum) and once with one that never does (every pair must be offered, and the query must end)";
  s.counter_names = {"self_queries", "object_queries", "member_queries", "manager_queries"};
  return mc::run(argc, argv, s);
}
