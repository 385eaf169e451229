// octree_world.h - a pool of octrees with occupied, uncertain, free and missing cells, walked independently of FCL
#ifndef VERIF_OCTREE_WORLD_H
#define VERIF_OCTREE_WORLD_H
#include "mesh_world.h"
#include "fcl/geometry/octree/octree.h"
namespace ow {
using namespace mw;
typedef octomap::OcTreeNode Node;
enum { OCC = 1, UNS = 2, FREE = 3, ABSENT = 4 };
struct Cell { Body b; double size; int cls; double occ; const Node* n; V mid; };
struct Tree { std::string name; std::shared_ptr<octomap::OcTree> t; std::shared_ptr<fcl::OcTree<double>> g; std::vector<Cell> leaf, absent; };
inline Body cube(const V& m, double s) { Body b; for (auto& p : box_pts(s, s, s)) b.pts.push_back(p + m); return b; }
inline void walk(Tree& t, const Node* n, const V& m, double s, double occ_t, double free_t) {   // own walk over the nodes of octomap
  double lo = n->getLogOdds(); int cls = lo >= occ_t ? OCC : lo <= free_t ? FREE : UNS;
  if (!t.t->nodeHasChildren(n)) { t.leaf.push_back({cube(m, s), s, cls, n->getOccupancy(), n, m}); return; }
  for (int i = 0; i < 8; ++i) { V q = m + V(i & 1 ? s / 4 : -s / 4, i & 2 ? s / 4 : -s / 4, i & 4 ? s / 4 : -s / 4);
    if (t.t->nodeChildExists(n, i)) walk(t, t.t->getNodeChild(n, i), q, s / 2, occ_t, free_t); else if (cls != FREE) t.absent.push_back({cube(q, s / 2), s / 2, ABSENT, octomap::probability(occ_t), nullptr, q}); }
}
inline void leaf(octomap::OcTree& t, double x, double y, double z, float log_odds) { t.updateNode(octomap::point3d((float)x, (float)y, (float)z), log_odds); }
inline Tree tree(const std::string& name, double res, const std::vector<std::array<double, 4>>& cells, double occ = -1, double free = -1) {
  Tree t; t.name = name; t.t = std::make_shared<octomap::OcTree>(res); for (auto& c : cells) leaf(*t.t, c[0], c[1], c[2], (float)c[3]); if (t.t->getRoot()) { t.t->updateInnerOccupancy(); t.t->prune(); }
  t.g = std::make_shared<fcl::OcTree<double>>(t.t); if (occ > 0) t.g->setOccupancyThres(occ); if (free > 0) t.g->setFreeThres(free); t.g->computeLocalAABB();
  if (t.t->getRoot()) walk(t, t.t->getRoot(), V(0, 0, 0), 65536.0 * res, occ > 0 ? (double)octomap::logodds(occ) : (double)t.t->getOccupancyThresLog(), free > 0 ? (double)octomap::logodds(free) : 0.0);
  else { double z = 65536.0 * res; t.absent.push_back({cube(V(0, 0, 0), z), z, ABSENT, t.g->getOccupancyThres(), nullptr, V(0, 0, 0)}); }   // nothing is known
  return t;
}
inline std::vector<Tree>& trees() {
  static std::vector<Tree> t;
  if (t.empty()) {
    std::vector<std::array<double, 4>> one = {{0.1, 0.1, 0.1, 2}}, few = {{0.1, 0.1, 0.1, 2}, {-0.1, 0.1, 0.1, 1}, {-0.1, -0.1, -0.6, 2}, {0.6, -0.4, 0.1, 0.5}}, mixed = {{0.1, 0.1, 0.1, 2}, {0.4, 0.1, 0.1, -1}, {0.1, 0.4, 0.1, 0.3}, {-0.2, -0.2, 0.1, -2}, {-0.4, 0.1, -0.1, 0.4}, {1.1, 0.1, 0.1, -0.3}}, block, far = {{0.1, 0.1, 0.1, 2}, {7.1, 3.1, -5.1, 2}}, none = {{0.1, 0.1, 0.1, -1}, {-0.6, 0.1, 0.1, -0.5}};
    for (int i = 0; i < 8; ++i) block.push_back({i & 1 ? 0.1 : 0.4, i & 2 ? 0.1 : 0.4, i & 4 ? 0.1 : 0.4, 2}); block.push_back({-0.1, 0.1, 0.1, 1});
    t = {tree("one", 0.25, one), tree("few", 0.25, few), tree("mixed", 0.25, mixed, 0.7, 0.4), tree("block", 0.25, block), tree("far", 0.25, far), tree("empty", 0.25, {}), tree("free", 0.25, none), tree("unsure", 0.5, mixed, 0.99, 0.3)};
  }
  return t;
}
}
#endif
