#pragma once
#include "mc.h"
#include "mesh_world.h"
#include "fcl/narrowphase/distance.h"
#include "fcl/narrowphase/collision.h"
// a signed distance: the greatest depth of all contacts, negated, at the place of a deepest one
inline void judge_signed(mc::C& c, const std::string& kk, const fcl::DistanceResult<double>& r, double ret, double lo, double hi, double MG, double tol, const fcl::CollisionGeometry<double>* g1, const fcl::Transform3<double>& t1, const fcl::CollisionGeometry<double>* g2, const fcl::Transform3<double>& t2, fcl::GJKSolverType solver) {
  if (ret != r.min_distance) c.fail("signed-return/" + kk, mc::fmt("returned %.9g, result has %.9g", ret, r.min_distance));
  if (lo > MG) { if (!(r.min_distance >= lo - tol && r.min_distance <= hi + tol)) c.fail("signed-value/" + kk, mc::fmt("signed distance %.9g, but it is within [%.9g, %.9g]", r.min_distance, lo, hi)); return; }
  if (!(hi < MG)) return;
  fcl::CollisionRequest<double> q(1000000, true); fcl::CollisionResult<double> k; fcl::detail::GJKSolver_libccd<double> s1; fcl::detail::GJKSolver_indep<double> s2; s1.distance_tolerance = s2.gjk_tolerance = 1e-6;
  if (solver == fcl::GST_LIBCCD) fcl::collide(g1, t1, g2, t2, &s1, q, k); else fcl::collide(g1, t1, g2, t2, &s2, q, k);
  double D = 0; for (size_t i = 0; i < k.numContacts(); ++i) D = std::max(D, k.getContact(i).penetration_depth);
  if (!(std::abs(r.min_distance + D) <= tol) && !(r.min_distance > 0 && r.min_distance <= MG + tol)) c.fail("signed-depth/" + kk, mc::fmt("signed distance %.9g, the deepest of %d contacts is %.9g deep", r.min_distance, (int)k.numContacts(), D));
  if (D <= tol || r.min_distance > 0) return; bool at = false;
  for (size_t i = 0; i < k.numContacts(); ++i) at |= k.getContact(i).penetration_depth >= D - tol && (k.getContact(i).pos - r.nearest_points[0]).norm() <= 4 * tol && r.nearest_points[0] == r.nearest_points[1];
  if (!at && c.verbose()) for (size_t i = 0; i < k.numContacts(); ++i) c.note("contact %d depth %.9g at %s", (int)i, k.getContact(i).penetration_depth, mw::vs(k.getContact(i).pos).c_str());
  if (!at) c.fail("signed-points/" + kk, mc::fmt("nearest points %s, %s are not at a deepest contact", mw::vs(r.nearest_points[0]).c_str(), mw::vs(r.nearest_points[1]).c_str()));
  // what a result holds of other objects that are deeper, or apart, is not disturbed
  fcl::DistanceRequest<double> d; d.enable_signed_distance = true; d.gjk_solver_type = solver; fcl::DistanceResult<double> r2; r2.min_distance = -123; r2.nearest_points[0] = fcl::Vector3<double>(1, 2, 3); fcl::distance(g1, t1, g2, t2, d, r2);
  if (r2.min_distance != -123 || r2.nearest_points[0] != fcl::Vector3<double>(1, 2, 3)) c.fail("signed-kept/" + kk, mc::fmt("a result that held -123 holds %.9g after a query", r2.min_distance));
}
