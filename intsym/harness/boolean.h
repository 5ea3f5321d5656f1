// Boolean combinations computed by the real tree, for all harnesses that check
// a result solid.
#ifndef VERIF_BOOLEAN_H
#define VERIF_BOOLEAN_H
#include "solids.h"

namespace geo {
using Tree = BSPTree<>;
using Out = Tree::OutputPolygon;
template <class Filter>
std::vector<Out> Combine(Tree& tree, Filter f, size_t bound) {
  CollectorVisitor<Out, Filter> v(f);
  tree.Traverse(v, bound);
  std::deque<HalfSpace3> planes;
  return v.TakePolygons(planes);
}
// op: 0 intersection, 1 union, 2 a minus b, 3 exclusive or
inline std::vector<Out> CombineOp(Tree& tree, BSPContentId ia, BSPContentId ib, int op, size_t bound) {
  switch (op) {
    case 0: return Combine(tree, MakeIntersectionFilter(PolygonFilter(ia), PolygonFilter(ib)), bound);
    case 1: return Combine(tree, MakeUnionFilter(PolygonFilter(ia), PolygonFilter(ib)), bound);
    case 2: return Combine(tree, MakeSubtractionFilter(PolygonFilter(ia), InvertedPolygonFilter(ib)), bound);
    default: return Combine(tree, MakeXORFilter(PolygonFilter(ia), PolygonFilter(ib)), bound);
  }
}
template <class Polys>
void CheckBoxes(Grid& g, const SBoxSolid& a, const SBoxSolid& b, const Polys& out, int op) {
  CheckSurface(g, out, [&](const int* c) {
    bool x = g.Inside(a, c), y = g.Inside(b, c);
    return op == 0 ? x && y : op == 1 ? x || y : op == 2 ? x && !y : x != y;
  }, [&](const int* lo, const int* hi) {
    bool al = g.Inside(a, lo), ah = g.Inside(a, hi), bl = g.Inside(b, lo), bh = g.Inside(b, hi);
    return (op == 1 || op == 3) && al != ah && bl != bh && al == bh;
  }, op != 3);
}
inline void Boolean(const SBoxSolid& a, const SBoxSolid& b, int op, size_t bound) {
  Tree tree;
  BSPContentId ia = tree.AllocateId(), ib = tree.AllocateId();
  tree.AddContents(ia, BoxMesh(a));
  tree.AddContents(ib, BoxMesh(b, op == 2));
  std::vector<Out> out = CombineOp(tree, ia, ib, op, bound);
  Grid g;
  g.Add(a); g.Add(b);
  CheckBoxes(g, a, b, out, op);
  Reach("end");
}
// Highly divisible, so that most quotients are exact.
const long kUnit = 4096L * 81 * 25 * 49 * 11 * 13;
}  // namespace geo
#endif
