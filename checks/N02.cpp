// MC-BUILD: san=none big=distance,collision
// N02: fcl::distance() for pairs of primitive shapes.
#include "pairs.h"
#include "fcl/narrowphase/distance.h"
using namespace sw; using mc::fmt;
static double point_gap(const Body& b, const V& p) { Body q; q.pts = {p}; if (b.unbounded()) return std::max(0.0, cx::sep_unbounded(b, q)); return cx::dist_bounds(b, q, V::Zero(), 1e-7).lo; }
static void body(mc::C& c) {
  auto& S = shapes(); bool th = c.thorough();
  Pose p = choose_pose(c, NALL, th ? 16 : 8, th ? 12 : 7, th ? 3 : 2);
  c.context(pair_key(p));
  if (p.b1.unbounded() || p.b2.unbounded()) {
    // distance() is not implemented for planes and half spaces (recorded finding): one representative pose per pair
    // is asked, in a process of its own because the libccd solver crashes
    if (p.r || p.d || p.base || p.g != 2) return;
    double sep = std::max(0.0, cx::sep_unbounded(p.b1, p.b2));
    pid_t pid = fork();
    if (!pid) { for (int g : {SIGSEGV, SIGFPE, SIGABRT, SIGALRM}) signal(g, SIG_DFL); fcl::DistanceRequest<double> q; q.gjk_solver_type = p.indep ? fcl::GST_INDEP : fcl::GST_LIBCCD; fcl::DistanceResult<double> r; fcl::distance(S[p.i].g.get(), p.t1, S[p.j].g.get(), p.t2, q, r); _exit(sep > 1e-3 ? !(std::abs(r.min_distance - sep) < 1e-3) : !(r.min_distance <= 0)); }
    int st = 0; waitpid(pid, &st, 0); c.count(4);
    if (st) c.fail(std::string("unbounded-distance/") + (p.indep ? "indep" : "libccd"), fmt("%s: distance() %s; the true distance is %.6g", pair_key(p).c_str(), WIFSIGNALED(st) ? "crashed" : "returned a wrong value", sep));
    return;
  }
  cx::Bounds bd; int v = cx::verdict(p.b1, p.b2, 2e-4, &bd);
  c.count(v == 1 ? 0 : v == -1 ? 1 : 2); c.state(mc::mix(mc::mix(mc::mix(p.i * 16 + p.j, p.r * 64 + p.d), p.g * 4 + p.base), p.indep)); c.outcome(mc::mix(p.i * 16 + p.j, v + 1));
  double scale = 1 + p.t1.translation().norm() + p.t2.translation().norm();
  double tol = 2e-5 * scale + (p.indep ? 5e-4 : 0);   // the built-in GJK only asks for two support points within 1e-3 of each other
  auto wrong = [&](double d, double ret) -> const char* {
    if (v == 1) return d <= 1e-9 && ret <= 1e-9 ? nullptr : "positive";
    if (!(d >= bd.lo - tol && d <= bd.hi + tol)) return "value";
    return ret == d ? nullptr : "return";
  };
  for (int k = 0; k < 3; ++k) {
    auto ask = [&](const Tf& t2, fcl::DistanceResult<double>& r) {
      fcl::DistanceRequest<double> q; q.gjk_solver_type = p.indep ? fcl::GST_INDEP : fcl::GST_LIBCCD; q.enable_nearest_points = k > 0; q.enable_signed_distance = k > 1 && v == -1;
      return fcl::distance(S[p.i].g.get(), p.t1, S[p.j].g.get(), t2, q, r);
    };
    fcl::DistanceResult<double> r; double ret = ask(p.t2, r);
    if (v == 0) continue;
    const char* w = wrong(r.min_distance, ret);
    std::string what = k == 0 ? "plain" : k == 1 ? "points" : "signed";
    if (w) c.fail(std::string(w) + "/" + what + "/" + pair_key(p), fmt("distance %.12g (returned %.12g), expected %s [%.12g, %.12g]", r.min_distance, ret, v == 1 ? "nothing positive: overlap" : "", bd.lo, bd.hi));
    if (v == -1 && k > 0) {
      V a = r.nearest_points[0], b = r.nearest_points[1];
      double g = (a - b).norm(), ga = point_gap(p.b1, a), gb = point_gap(p.b2, b);
      c.note("nearest %s %s gap %.9g off %.3g %.3g", vs(a).c_str(), vs(b).c_str(), g, ga, gb);
      if (!(std::abs(g - r.min_distance) <= 4 * tol)) c.fail("points-gap/" + pair_key(p), fmt("nearest points %s and %s are %.9g apart, the distance is %.9g", vs(a).c_str(), vs(b).c_str(), g, r.min_distance));
      if (!(ga <= 4 * tol && gb <= 4 * tol)) c.fail("points-off/" + pair_key(p), fmt("nearest points %s, %s are %.3g and %.3g away from their shapes", vs(a).c_str(), vs(b).c_str(), ga, gb));
    }
  }
}
int main(int argc, char** argv) {
  mc::Spec s; s.property = "N02"; s.body = body; s.shard_depth = 5;
  s.explanation = "every ordered pair of bounded catalogue shapes, in every relative rotation of a fixed list, placed along 28 directions at every gap of a list from deep overlap over contact to far apart, under several common rigid motions, for both GJK solvers, plain, with nearest points and with signed distance requested; distance, return value and nearest points are compared with rigorous two-sided bounds from an independent oracle";
  s.assumptions = {"poses within 2e-4 of first contact are only required not to crash", "planes and half spaces are excluded: distance() does not support them (recorded finding)", "tolerance 2e-5 times the scale of the scene, plus 5e-4 for the built-in GJK"};
  s.counter_names = {"overlapping", "apart", "too_close_to_call", "isolated_degenerate", "unbounded_probes"};
  return mc::run(argc, argv, s);
}
