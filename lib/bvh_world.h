// bvh_world.h - the structure of a BVHModel, judged from its public interface
#ifndef VERIF_BVH_WORLD_H
#define VERIF_BVH_WORLD_H
#include "bvs.h"
#include "mc.h"
#include "fcl/math/bv/utility.h"
#include "fcl/geometry/bvh/BVH_model.h"
namespace bw {
using bvs::V; using mc::fmt;
// every primitive in exactly one leaf; each node's volume holds its primitives (current and, when kept, previous positions);
// children partition their parent's primitives.  Empty string when sound.
template <class BV> std::string unsound(const fcl::BVHModel<BV>& m, const std::vector<V>* prev, double tol = 1e-9) {
  int n = m.num_tris ? m.num_tris : m.num_vertices, nb = m.getNumBVs();
  if (nb != 2 * n - 1) return fmt("structure: %d nodes for %d primitives", nb, n);
  std::vector<int> seen(n, 0), nodes(nb, 0); std::string bad;
  struct F { const fcl::BVHModel<BV>& m; const std::vector<V>* prev; std::vector<int>&seen, &nodes; std::string& bad; double tol; int nb, n;
    std::vector<int> walk(int id, int depth) {
      std::vector<int> r; if (!bad.empty()) return r;
      if (id < 0 || id >= nb || nodes[id]++) { bad = fmt("structure: node %d is out of range or has two parents", id); return r; }
      auto& nd = m.getBV(id);
      if (nd.isLeaf()) { int p = nd.primitiveId(); if (p < 0 || p >= n || seen[p]++) { bad = fmt("structure: leaf %d has primitive %d (out of range or twice)", id, p); return r; } r.push_back(p); if (nd.num_primitives != 1) bad = fmt("structure: leaf %d claims %d primitives", id, nd.num_primitives); }
      else { r = walk(nd.leftChild(), depth + 1); auto b = walk(nd.rightChild(), depth + 1); if (!bad.empty()) return r; r.insert(r.end(), b.begin(), b.end());
        if ((int)r.size() != nd.num_primitives) { bad = fmt("structure: node %d claims %d primitives, holds %zu", id, nd.num_primitives, r.size()); return r; } }
      if (!bvs::finite(nd.bv)) { bad = fmt("volume: node %d has a volume with non-finite numbers", id); return r; }
      for (int p : r) { int k = m.num_tris ? 3 : 1; for (int i = 0; i < k; ++i) { int v = m.num_tris ? m.tri_indices[p][i] : p;
        double scale = 1 + m.vertices[v].norm();
        double o = bvs::out(nd.bv, m.vertices[v]); if (!(o <= tol * scale)) { bad = fmt("volume: node %d (%zu primitives) leaves vertex %d of primitive %d out by %.3g", id, r.size(), v, p, o); return r; }
        if (prev) { o = bvs::out(nd.bv, (*prev)[v]); if (!(o <= tol * scale)) { bad = fmt("volume: node %d leaves the previous position of vertex %d out by %.3g", id, v, o); return r; } } } }
      return r;
    } } f{m, prev, seen, nodes, bad, tol, nb, n};
  f.walk(0, 0);
  if (bad.empty()) for (int i = 0; i < n; ++i) if (!seen[i]) bad = fmt("structure: primitive %d is in no leaf", i);
  return bad;
}
} // namespace bw
#endif
