// Exact check of the links between the edges of connected polygons.
#ifndef VERIF_LINKS_H
#define VERIF_LINKS_H
#include "boolean.h"
#include "walnut/connecting_visitor.h"

namespace geo {
template <class P>
struct EdgeAt {
  const P* p;
  size_t i;
  const HomoPoint3& a() const { return p->vertex(i); }
  const HomoPoint3& b() const { return p->vertex((i + 1) % p->vertex_count()); }
};
// (x - o) . d, as a sign
inline int Along(const Vector3& d, const HomoPoint3& o, const HomoPoint3& x) { return Sg(DotR(d, DirR(o, x))); }

// Position in which a face direction g is met when turning from the face with
// direction f and normal n through the inside: 0 before the turn by half a
// circle, 1 at it, 2 after it, 3 at f itself.
inline int Turn(const Vector3& f, const Vector3& n, const Vector3& g) {
  int y = -Sg(DotR(g, n));
  if (y > 0) return 0;
  if (y < 0) return 2;
  return Sg(DotR(g, f)) < 0 ? 1 : 3;
}
// All edges of the polygons that selected(edge) is true for.  If closed, every
// one of them has to be linked.  If loose, a link may pass over a face.
template <class Polys, class Sel>
void CheckLinks(const Polys& polys, bool closed, bool loose, const Sel& selected) {
  using P = typename Polys::value_type;
  std::vector<EdgeAt<P>> es;
  std::vector<Vector3> d, f;
  for (const P& p : polys)
    for (size_t i = 0; i < p.vertex_count(); ++i) {
      EdgeAt<P> e{&p, i};
      if (!selected(e)) continue;
      es.push_back(e);
      d.push_back(DirR(e.a(), e.b()));
      f.push_back(CrossR(p.plane().normal(), d.back()));
    }
  // Edges of one line, with overlap.
  auto overlap = [&](size_t i, size_t j) {
    if (!IsZeroR(CrossR(d[i], d[j]))) return false;
    Vector3 o = DirR(es[i].a(), es[j].a());
    if (!IsZeroR(CrossR(d[i], o))) return false;
    bool same = Sg(DotR(d[i], d[j])) > 0;
    const HomoPoint3 &lo = same ? es[j].a() : es[j].b(), &hi = same ? es[j].b() : es[j].a();
    return Along(d[i], es[i].b(), lo) < 0 && Along(d[i], es[i].a(), hi) > 0;
  };
  for (size_t i = 0; i < es.size(); ++i) {
    const auto& edge = es[i].p->const_edge(es[i].i);
    Check(&edge.polygon() == es[i].p && edge.edge_index() == es[i].i, "edges know their polygon");
    if (!edge.partner()) {
      Check(!closed, "every part of every edge of a closed surface is linked");
      continue;
    }
    Check(edge.partner()->partner() == &edge, "links are mutual");
    int k = -1;
    for (size_t j = 0; j < es.size(); ++j) if (&es[j].p->const_edge(es[j].i) == edge.partner()) k = (int)j;
    Check(k >= 0, "the link refers to an edge of the surface");
    Check(SameLoc(es[i].a(), es[k].b()) && SameLoc(es[i].b(), es[k].a()), "linked edges are the same segment in opposite directions");
    if (loose) continue;
    const Vector3& n = es[i].p->plane().normal();
    int tk = Turn(f[i], n, f[k]);
    for (size_t j = 0; j < es.size(); ++j) {
      if (j == i || (int)j == k || !overlap(i, j)) continue;
      int tj = Turn(f[i], n, f[j]);
      bool before = tj < tk;
      if (tj == tk && (tj == 0 || tj == 2)) before = Sg(DotR(CrossR(f[j], f[k]), d[i])) < 0;  // turning about -d
      Check(!before, "the link goes to the next face through the inside");
    }
  }
}
template <class Polys>
void CheckLinks(const Polys& polys, bool closed) {
  CheckLinks(polys, closed, false, [](const EdgeAt<typename Polys::value_type>&) { return true; });
}

using CPoly = ConnectingVisitorOutputPolygon<>;
template <class Filter>
std::vector<CPoly> ConnectedCombine(Tree& tree, Filter f, size_t bound) {
  ConnectingVisitor<Filter> v(f, [](const std::string&) { Check(false, "a closed result is connected without an error"); });
  tree.Traverse(v, bound);
  v.FilterEmptyPolygons();
  return v.TakePolygons();
}
inline std::vector<CPoly> ConnectedOp(Tree& tree, BSPContentId ia, BSPContentId ib, int op, size_t bound) {
  switch (op) {
    case 0: return ConnectedCombine(tree, MakeIntersectionFilter(PolygonFilter(ia), PolygonFilter(ib)), bound);
    case 1: return ConnectedCombine(tree, MakeUnionFilter(PolygonFilter(ia), PolygonFilter(ib)), bound);
    default: return ConnectedCombine(tree, MakeSubtractionFilter(PolygonFilter(ia), InvertedPolygonFilter(ib)), bound);
  }
}
}  // namespace geo
#endif
