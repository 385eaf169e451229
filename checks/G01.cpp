// MC-BUILD: san=address
// G01: the build / replace / update protocol of BVHModel.
#include "arena.h"
#include "bvh_world.h"
using namespace bw;
typedef fcl::OBBRSS<double> BV; typedef fcl::BVHModel<BV> Model; typedef fcl::Triangle Tri;
static V pt(int k) { return V((k * 5) % 7, (k * k) % 5 - 2, (k * 3) % 4 * 0.5); }
struct Ref {
  fcl::BVHBuildState st = fcl::BVH_BUILD_STATE_EMPTY; std::vector<V> v, prev; std::vector<std::array<int, 3>> t; size_t upd = 0; bool has_prev = false;
};
enum { BEGIN, BEGIN_N, BEGIN_1, ADDV, ADDT, SUBP, SUBT, SUB0, END, BREP, REPV, REPT, REPS, EREP, BUPD, UPDV, UPDT, UPDS, EUPD, COPY, ASSIGN, NOPS };
static const char* opname[] = {"beginModel()", "beginModel(-1,-1)", "beginModel(1,1)", "addVertex", "addTriangle", "addSubModel(5 points)", "addSubModel(5 points, 3 triangles)", "addSubModel(no points)", "endModel", "beginReplaceModel", "replaceVertex", "replaceTriangle", "replaceSubModel", "endReplaceModel", "beginUpdateModel", "updateVertex", "updateTriangle", "updateSubModel", "endUpdateModel", "copy", "assign"};
static void body(mc::C& c) {
  using namespace fcl;
  bool th = c.thorough(); int k = 0;
  arena::begin(false);
  struct End { ~End() { arena::end(); } } end_;
  struct Quiet { std::streambuf* o; Quiet() { static struct N : std::streambuf { int overflow(int ch) override { return ch; } } n; o = std::cerr.rdbuf(&n); } ~Quiet() { std::cerr.rdbuf(o); } } quiet;
  long before = arena::live();
  {
  std::unique_ptr<Model> m(new Model); std::unique_ptr<Ref> r(new Ref);
  auto check = [&](const char* what) {
    if (m->num_vertices != (int)r->v.size() || m->num_tris != (int)r->t.size()) c.fail(fmt("content/%s", what), fmt("%d vertices and %d triangles, expected %zu and %zu", m->num_vertices, m->num_tris, r->v.size(), r->t.size()));
    if (m->build_state != r->st) c.fail(fmt("state/%s", what), fmt("build state %d, expected %d", (int)m->build_state, (int)r->st));
    bool upd = r->st == BVH_BUILD_STATE_UPDATE_BEGUN;
    for (size_t i = 0; i < r->v.size(); ++i) if ((!upd || i < r->upd) && m->vertices[i] != r->v[i]) c.fail(fmt("content/%s", what), fmt("vertex %zu is wrong", i));
    for (size_t i = 0; i < r->t.size(); ++i) for (int j = 0; j < 3; ++j) if ((int)m->tri_indices[i][j] != r->t[i][j]) c.fail(fmt("content/%s", what), fmt("triangle %zu is wrong", i));
    if (r->st == BVH_BUILD_STATE_PROCESSED || r->st == BVH_BUILD_STATE_UPDATED) {
      bool pv = r->st == BVH_BUILD_STATE_UPDATED;
      if (pv) for (size_t i = 0; i < r->prev.size(); ++i) if (m->prev_vertices[i] != r->prev[i]) c.fail(fmt("previous/%s", what), fmt("previous position of vertex %zu is wrong", i));
      std::string e = unsound(*m, pv ? &r->prev : nullptr); if (!e.empty()) c.fail(fmt("tree/%s", what), e);
    }
  };
  auto want = [&](const char* what, int got, int exp) { if (got != exp) c.fail(fmt("code/%s", what), fmt("%s returned %d, expected %d (state %d)", what, got, exp, (int)r->st)); };
  auto apply = [&](int op, int var) {
    const char* w = opname[op]; c.note("%s %d", w, var);
    auto st = r->st; bool emptyv = r->v.empty();
    auto fresh = [&](int n) { std::vector<V> p; for (int i = 0; i < n; ++i) p.push_back(pt(k++)); return p; };
    auto renew = [&](int n, int got) { size_t left = r->v.size() - r->upd; if (got == BVH_OK) { if ((size_t)n > left) c.fail(fmt("excess/%s", w), "more vertices than the model has were accepted"); } else want(w, got, (size_t)n > left ? BVH_ERR_INCORRECT_DATA : BVH_OK); };
    switch (op) {
    case BEGIN: case BEGIN_N: case BEGIN_1: {
      int g = op == BEGIN ? m->beginModel() : op == BEGIN_N ? m->beginModel(-1, -1) : m->beginModel(1, 1);
      want(w, g, st == BVH_BUILD_STATE_EMPTY ? BVH_OK : BVH_ERR_BUILD_OUT_OF_SEQUENCE);
      r->st = st == BVH_BUILD_STATE_EMPTY ? BVH_BUILD_STATE_BEGUN : BVH_BUILD_STATE_EMPTY; r->v.clear(); r->t.clear(); r->prev.clear(); r->upd = 0; r->has_prev = false; break; }
    case ADDV: case ADDT: case SUBP: case SUBT: case SUB0: {
      int n = op == ADDV ? 1 : op == ADDT ? 3 : op == SUB0 ? 0 : 5; auto p = fresh(n); int b = (int)r->v.size(); std::vector<Tri> ts{Tri(0, 1, 2), Tri(1, 2, 3), Tri(4, 0, 3)};
      int g = op == ADDV ? m->addVertex(p[0]) : op == ADDT ? m->addTriangle(p[0], p[1], p[2]) : op == SUBT ? m->addSubModel(p, ts) : m->addSubModel(p);
      want(w, g, st == BVH_BUILD_STATE_BEGUN ? BVH_OK : BVH_ERR_BUILD_OUT_OF_SEQUENCE); if (st != BVH_BUILD_STATE_BEGUN) break;
      r->v.insert(r->v.end(), p.begin(), p.end());
      if (op == ADDT) r->t.push_back({b, b + 1, b + 2}); if (op == SUBT) for (auto& t : ts) r->t.push_back({b + (int)t[0], b + (int)t[1], b + (int)t[2]}); break; }
    case END: { int g = m->endModel(); want(w, g, st != BVH_BUILD_STATE_BEGUN ? BVH_ERR_BUILD_OUT_OF_SEQUENCE : emptyv ? BVH_ERR_BUILD_EMPTY_MODEL : BVH_OK); if (g == BVH_OK) r->st = BVH_BUILD_STATE_PROCESSED; break; }
    case BREP: { int g = m->beginReplaceModel(); want(w, g, st == BVH_BUILD_STATE_PROCESSED ? BVH_OK : BVH_ERR_BUILD_EMPTY_PREVIOUS_FRAME); if (g == BVH_OK) { r->st = BVH_BUILD_STATE_REPLACE_BEGUN; r->upd = 0; r->has_prev = false; } break; }
    case BUPD: { int g = m->beginUpdateModel(); want(w, g, st == BVH_BUILD_STATE_PROCESSED || st == BVH_BUILD_STATE_UPDATED ? BVH_OK : BVH_ERR_BUILD_EMPTY_PREVIOUS_FRAME); if (g == BVH_OK) { r->st = BVH_BUILD_STATE_UPDATE_BEGUN; r->upd = 0; r->prev = r->v; r->has_prev = true; } break; }
    case REPV: case REPT: case REPS: case UPDV: case UPDT: case UPDS: {
      bool rep = op == REPV || op == REPT || op == REPS; int n = op == REPV || op == UPDV ? 1 : op == REPT || op == UPDT ? 3 : (int)r->v.size(); auto p = fresh(n);
      int g = op == REPV ? m->replaceVertex(p[0]) : op == REPT ? m->replaceTriangle(p[0], p[1], p[2]) : op == REPS ? m->replaceSubModel(p) : op == UPDV ? m->updateVertex(p[0]) : op == UPDT ? m->updateTriangle(p[0], p[1], p[2]) : m->updateSubModel(p);
      if (st != (rep ? BVH_BUILD_STATE_REPLACE_BEGUN : BVH_BUILD_STATE_UPDATE_BEGUN)) { want(w, g, BVH_ERR_BUILD_OUT_OF_SEQUENCE); break; }
      renew(n, g); if (g == BVH_OK) for (auto& x : p) r->v[r->upd++] = x; break; }
    case EREP: case EUPD: {
      bool refit = var < 2, bottomup = var & 1; int g = op == EREP ? m->endReplaceModel(refit, bottomup) : m->endUpdateModel(refit, bottomup);
      if (st != (op == EREP ? BVH_BUILD_STATE_REPLACE_BEGUN : BVH_BUILD_STATE_UPDATE_BEGUN)) { want(w, g, BVH_ERR_BUILD_OUT_OF_SEQUENCE); break; }
      want(w, g, r->upd == r->v.size() ? BVH_OK : BVH_ERR_INCORRECT_DATA); if (g == BVH_OK) r->st = op == EREP ? BVH_BUILD_STATE_PROCESSED : BVH_BUILD_STATE_UPDATED; break; }
    case COPY: m.reset(new Model(*m)); break;
    case ASSIGN: { std::unique_ptr<Model> o(new Model); if (var) { o->beginModel(); o->addVertex(pt(1)); o->endModel(); } *o = *m; m.swap(o); break; }
    }
    check(w);
  };
  // a prefix brings the model into one of the states
  auto build = [&](int kind) { apply(BEGIN, 0); if (kind == 0) apply(SUBT, 0); else if (kind == 1) { apply(ADDV, 0); apply(SUBP, 0); } else { apply(ADDT, 0); apply(ADDT, 0); } };
  int pre = c.choose(8), kind = pre ? c.choose(3) : 0;
  if (pre >= 1) build(kind);
  if (pre >= 2) apply(END, 0);
  if (pre >= 3 && pre <= 4) { apply(BREP, 0); if (pre == 4) apply(REPS, 0); }
  if (pre >= 5) { apply(BUPD, 0); if (pre >= 6) apply(UPDS, 0); if (pre >= 7) apply(EUPD, 1); }
  int depth = th ? 4 : 3, nops = NOPS;
  for (int d = 0; d < depth; ++d) {
    int op = c.choose(nops + 1); if (op == nops) break;
    int var = op == EREP || op == EUPD ? c.choose(3) : op == ASSIGN ? c.choose(2) : 0;
    apply(op, var); c.count(0);
    c.state(mc::mix(mc::mix(mc::mix((int)r->st, r->v.size()), mc::mix(r->t.size(), r->upd)), mc::mix(m->num_vertices + 100 * (r->has_prev ? 1 : 0), m->getNumBVs())));
  }
  c.outcome(mc::mix((int)r->st, r->v.size()));
  }
  if (arena::live() != before) c.fail("leak", fmt("%ld allocations are still live after the model was destroyed", arena::live() - before));
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "G01"; s.body = body; s.shard_depth = 4;
  s.explanation = "Exhaustive enumeration of call sequences of beginModel, add*, endModel, begin/replace*/endReplaceModel, begin/update*/endUpdateModel and copies on BVHModel<OBBRSS>, from eight starting states (three kinds of content), under AddressSanitizer with a poisoned never-reusing allocator; after every call the return code, build state, vertex and triangle arrays, previous frame and the soundness of the tree are compared with a reference model; at the end nothing may be leaked.";
  s.counter_names = {"calls"};
  return mc::run(argc, argv, s);
}
