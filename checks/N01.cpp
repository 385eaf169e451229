// MC-BUILD: san=none big=collision
// N01: the boolean answer of fcl::collide() for pairs of primitive shapes.
#include "pairs.h"
#include "fcl/narrowphase/collision.h"
using namespace sw; using mc::fmt;
static void body(mc::C& c) {
  auto& S = shapes(); bool th = c.thorough();
  Pose p = choose_pose(c, NALL, th ? 16 : 8, th ? 12 : 7, th ? 3 : 2);
  c.context(pair_key(p));
  bool hit[2];
  auto ask = [&](bool contacts, const Tf& t2) {
    fcl::CollisionRequest<double> q; q.gjk_solver_type = p.indep ? fcl::GST_INDEP : fcl::GST_LIBCCD; q.enable_contact = contacts;
    fcl::CollisionResult<double> r; size_t n = fcl::collide(S[p.i].g.get(), p.t1, S[p.j].g.get(), t2, q, r);
    if ((n > 0) != r.isCollision()) c.fail("inconsistent/" + pair_key(p), fmt("return value %zu, isCollision %d", n, (int)r.isCollision()));
    return r.isCollision();
  };
  for (int k = 0; k < 2; ++k) hit[k] = ask(k, p.t2);
  cx::Bounds bd; int v = cx::verdict(p.b1, p.b2, 2e-4, &bd);
  c.count(v == 1 ? 0 : v == -1 ? 1 : 2); c.state(mc::mix(mc::mix(mc::mix(p.i * 16 + p.j, p.r * 64 + p.d), p.g * 4 + p.base), p.indep)); c.outcome(mc::mix(p.i * 16 + p.j, v + 1));
  if (v == 0) return;
  for (int k = 0; k < 2; ++k) if (hit[k] != (v == 1)) {
    std::string m = fmt("%s (contacts %s): the shapes are %s (distance in [%.6g,%.6g]), collide says %d", pair_key(p).c_str(), k ? "on" : "off", v == 1 ? "overlapping" : "apart", bd.lo, bd.hi, (int)hit[k]);
    // an isolated wrong answer of an iterative solver in a degenerate position (it is right in all poses around)
    // is one recorded finding per solver; anything else is reported by pair
    bool isolated = iterative(p);
    for (int d = 0; isolated && d < 4; ++d) isolated = ask(k, nudged(p, d, 3e-5)) == (v == 1);
    if (isolated) { c.count(3); c.fail(std::string("degenerate-gjk/") + (p.indep ? "indep" : "libccd"), m); }
    c.fail(std::string(v == 1 ? "missed/" : "phantom/") + pair_key(p), m);
  }
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "N01"; s.body = body; s.shard_depth = 5;
  s.explanation = "every ordered pair of catalogue shapes, in every relative rotation of a fixed list, placed along 28 directions at every gap of a list from deep overlap over near contact to far apart, under several common rigid motions, for both GJK solvers, with and without contacts; the answer of fcl::collide is compared with an independent oracle (rigorous two-sided distance bounds on the Minkowski difference) that abstains within 2e-4 of contact";
  s.assumptions = {"poses within 2e-4 of first contact are not judged", "plane and half-space pairs that are parallel only up to rounding are not judged"};
  s.counter_names = {"overlapping", "apart", "too_close_to_call", "isolated_degenerate"};
  return mc::run(argc, argv, s);
}
