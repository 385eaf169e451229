// MC-BUILD: san=address
// B03: what a broad-phase manager says it holds, and its memory, over every history of operations.
#include "arena.h"
#include "bp_world.h"
using namespace bp;
using mc::fmt;

static void registry(World& w, int n) {
  mc::C& c = w.c; auto key = [&](const char* k) { return fmt("%s/%s", kind_family(w.kind), k); };
  int want = w.nreg();
  if ((int)w.m->size() != want) c.fail(key("size"), fmt("%s: size() is %zu with %d objects registered", kind_name(w.kind), w.m->size(), want));
  if (w.m->empty() != (want == 0)) c.fail(key("empty"), fmt("%s: empty() is %d with %d objects registered", kind_name(w.kind), (int)w.m->empty(), want));
  std::vector<Obj*> v; w.m->getObjects(v);
  std::vector<int> seen(n, 0);
  for (Obj* o : v) { int i = w.idx(o); if (i < 0 || i >= n || !w.reg[i]) c.fail(key("getObjects"), fmt("%s: getObjects() lists an object that is not registered", kind_name(w.kind))); ++seen[i]; }
  for (int i = 0; i < n; ++i) if (seen[i] != w.reg[i]) c.fail(key("getObjects"), fmt("%s: getObjects() lists object %d %d times, registered %d times", kind_name(w.kind), i, seen[i], (int)w.reg[i]));
  c.count(0);
}

static void body(mc::C& c) {
  int kind = c.choose(NKINDS);
  bool down = c.flag(), eager = c.flag();
  arena::begin(down);
  struct End { ~End() { arena::end(); } } end_;
  long before = arena::live();
  {
    Opts o; o.depth = c.thorough() ? 4 : 3; o.npos = c.thorough() ? 5 : 4; o.crowd_depth = c.thorough() ? 2 : 1; o.infinite_depth = c.thorough() ? 3 : 2;
    Driver d(c, kind, eager, o, registry);
    if (d.w.need_setup) d.w.setup();
    PairLog l; d.w.m->collide(&l, log_cb); c.outcome(mc::mix(l.v.size(), d.w.nreg()));   // touches every node under the address sanitizer
    long objs = arena::live(); (void)objs;
  }
  if (arena::live() != before) c.fail(fmt("%s/leak", kind_family(kind)), fmt("%s: %ld allocations are still live after the manager was destroyed", kind_name(kind), arena::live() - before));
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "B03"; s.body = body; s.shard_depth = 6;
  s.explanation = "every history of at most D manager operations on 3 boxes (alone, among 112 others, or one of them a half-space), from 3 start states, for 13 manager configurations, both address orders and both setup disciplines; after every operation size(), empty() and getObjects() are compared with the set of registered objects; all of it under the address sanitizer with poisoned never-reused memory, and at the end every allocation must have been freed";
  s.counter_names = {"registry_comparisons"};
  return mc::run(argc, argv, s);
}
