// bvs.h - what a bounding volume contains, from its published fields and documentation alone
#ifndef VERIF_BVS_H
#define VERIF_BVS_H
#include "fcl/math/bv/AABB.h"
#include "fcl/math/bv/OBB.h"
#include "fcl/math/bv/RSS.h"
#include "fcl/math/bv/OBBRSS.h"
#include "fcl/math/bv/kIOS.h"
#include "fcl/math/bv/kDOP.h"
namespace bvs {
typedef fcl::Vector3<double> V; typedef fcl::Matrix3<double> M;
// how far p is outside (0 or negative: inside)
inline double out(const fcl::AABB<double>& b, const V& p) { double m = -1e300; for (int k = 0; k < 3; ++k) m = std::max(m, std::max(b.min_[k] - p[k], p[k] - b.max_[k])); return m; }
inline double out(const fcl::OBB<double>& b, const V& p) { double m = -1e300; for (int k = 0; k < 3; ++k) m = std::max(m, std::abs(b.axis.col(k).dot(p - b.To)) - b.extent[k]); return m; }
inline double out(const fcl::RSS<double>& b, const V& p) { V q = b.axis.transpose() * (p - b.To); V c(std::min(std::max(q[0], 0.0), b.l[0]), std::min(std::max(q[1], 0.0), b.l[1]), 0); return (q - c).norm() - b.r; }
inline double out(const fcl::OBBRSS<double>& b, const V& p) { return std::max(out(b.obb, p), out(b.rss, p)); }
inline double out(const fcl::kIOS<double>& b, const V& p) { double m = out(b.obb, p); for (unsigned i = 0; i < b.num_spheres; ++i) m = std::max(m, (p - b.spheres[i].o).norm() - b.spheres[i].r); return m; }
inline V kdir(int i) { static const V d[12] = {V(1, 0, 0), V(0, 1, 0), V(0, 0, 1), V(1, 1, 0), V(1, 0, 1), V(0, 1, 1), V(1, -1, 0), V(1, 0, -1), V(0, 1, -1), V(1, 1, -1), V(1, -1, 1), V(-1, 1, 1)}; return d[i]; }
template <size_t N> double out(const fcl::KDOP<double, N>& b, const V& p) { double m = -1e300; for (size_t i = 0; i < N / 2; ++i) { double x = kdir((int)i).dot(p); m = std::max(m, std::max(b.dist(i) - x, x - b.dist(i + N / 2))); } return m; }
template <class B> struct Name; 
#define BVN(T, s) template <> struct Name<T> { static const char* get() { return s; } };
BVN(fcl::AABB<double>, "AABB") BVN(fcl::OBB<double>, "OBB") BVN(fcl::RSS<double>, "RSS") BVN(fcl::OBBRSS<double>, "OBBRSS") BVN(fcl::kIOS<double>, "kIOS")
typedef fcl::KDOP<double, 16> K16; typedef fcl::KDOP<double, 18> K18; typedef fcl::KDOP<double, 24> K24;
BVN(K16, "KDOP16") BVN(K18, "KDOP18") BVN(K24, "KDOP24")
template <class B> bool finite(const B& b);
inline bool finite(const fcl::AABB<double>& b) { return b.min_.allFinite() && b.max_.allFinite(); }
inline bool finite(const fcl::OBB<double>& b) { return b.axis.allFinite() && b.To.allFinite() && b.extent.allFinite(); }
inline bool finite(const fcl::RSS<double>& b) { return b.axis.allFinite() && b.To.allFinite() && std::isfinite(b.l[0]) && std::isfinite(b.l[1]) && std::isfinite(b.r); }
inline bool finite(const fcl::OBBRSS<double>& b) { return finite(b.obb) && finite(b.rss); }
inline bool finite(const fcl::kIOS<double>& b) { bool f = finite(b.obb) && b.num_spheres <= 5; for (unsigned i = 0; f && i < b.num_spheres; ++i) f = b.spheres[i].o.allFinite() && std::isfinite(b.spheres[i].r); return f; }
template <size_t N> bool finite(const fcl::KDOP<double, N>& b) { for (size_t i = 0; i < N; ++i) if (!std::isfinite(b.dist(i))) return false; return true; }
} // namespace bvs
#endif
