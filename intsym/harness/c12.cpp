#include "polys.h"
using namespace geo;

namespace {
std::vector<int> Sides(const HalfSpace3& h, const std::vector<HomoPoint3>& v) {
  std::vector<int> s;
  for (const HomoPoint3& p : v) s.push_back(SideR(h, p));
  return s;
}
// The part on one side, rotated as documented: the negative part ends with its
// two vertices on the plane, the positive part starts with one and ends with
// the other.
std::vector<HomoPoint3> Clip(const HalfSpace3& h, const std::vector<HomoPoint3>& v, const std::vector<int>& s, int keep) {
  std::vector<HomoPoint3> r;
  std::vector<int> on;
  size_t n = v.size();
  for (size_t i = 0; i < n; ++i) {
    size_t j = (i + 1) % n;
    if (s[i] * keep >= 0) { r.push_back(v[i]); on.push_back(s[i] == 0); }
    if (s[i] * s[j] < 0) { r.push_back(CrossPoint(h, v[i], v[j])); on.push_back(1); }
  }
  size_t m = r.size(), k = 0;
  while (!(on[(k + m - 2) % m] && on[(k + m - 1) % m])) ++k;
  if (keep > 0) k = (k + m - 1) % m;
  std::rotate(r.begin(), r.begin() + k, r.end());
  return r;
}
template <class P>
bool SameVertices(const P& p, const std::vector<HomoPoint3>& exp) {
  if (p.vertex_count() != exp.size()) return false;
  for (size_t i = 0; i < exp.size(); ++i) if (!SameLoc(p.vertex(i), exp[i])) return false;
  return true;
}
template <class Child, class Poly>
void CheckChild(const Child& c, const Poly& parent, const std::vector<HomoPoint3>& exp, const HalfSpace3& h, bool neg, bool full) {
  Check(SameVertices(c, exp), "child has exactly the vertices of its side and the crossings");
  if (full) CheckValid(c, "child is a valid convex polygon");
  else for (size_t i = 0; i < c.vertex_count(); ++i)
    Check(OnLineR(c.edge(i).line(), c.vertex(i)) && OnLineR(c.edge(i).line(), c.vertex((i + 1) % c.vertex_count())), "edge lines join the vertices");
  Check(SamePlaneR(c.plane(), parent.plane()), "child keeps the plane and orientation");
}
template <class Poly>
void CheckSplit(const Poly& p, const std::vector<HomoPoint3>& v, const HalfSpace3& h, const std::vector<int>& s, bool full = true) {
  bool any_neg = false, any_pos = false;
  for (int x : s) { any_neg |= x < 0; any_pos |= x > 0; }
  ConvexPolygonSplitInfo info = p.GetSplitInfo(h);
  Check(info.ShouldEmitNegativeChild() == any_neg, "a negative part exactly when a vertex is strictly below");
  Check(info.ShouldEmitPositiveChild() == any_pos, "a positive part exactly when a vertex is strictly above");
  Check(info.ShouldEmitOnPlane() == (!any_neg && !any_pos), "on-plane");
  size_t n = v.size();
  std::vector<int> got(n, 0);
  for (size_t i = info.neg_range().first; i < info.neg_range().second; ++i) got[i % n] = -1;
  for (size_t i = info.pos_range().first; i < info.pos_range().second; ++i) got[i % n] = 1;
  Check(got == s, "ranges hold exactly the vertices strictly on the side");
  Check(info.IsValid(n), "split info is valid");
  if (any_neg && any_pos) {
    auto ch = p.CreateSplitChildren(info);
    CheckChild(ch.first, p, Clip(h, v, s, -1), h, true, full);
    CheckChild(ch.second, p, Clip(h, v, s, 1), h, false, full);
    // The shared edge is on the splitting plane in opposite directions.
    size_t a = ch.first.vertex_count(), b = ch.second.vertex_count();
    Check(SameLoc(ch.first.vertex(a - 2), ch.second.vertex(0)) && SameLoc(ch.first.vertex(a - 1), ch.second.vertex(b - 1)), "children share the splitting edge");
    Poly q(p);
    auto mv = Poly::CreateSplitChildren(std::move(q).GetRValueKey(), std::move(info));
    Check(SameVertices(mv.first, Clip(h, v, s, -1)) && SameVertices(mv.second, Clip(h, v, s, 1)), "destructive split gives the same parts");
    if (full) { CheckValid(mv.first, "moved child valid"); CheckValid(mv.second, "moved child valid"); }
  }
}
}  // namespace

#define C12_BOUNDS "all splitting planes (4 unbounded coefficients, incl. invalid-normal excluded), concrete polygons: "
static void Fixed(const std::vector<int>& shapes, int nframes, bool starts) {
  PolySpec spec = PickSpec(shapes, nframes, starts);
  MutableConvexPolygon<> p = MakePoly(spec);
  HalfSpace3 h = SPlane("h", 1);
  AssumeValid(h.normal());
  std::vector<int> s = Sides(h, spec.v);
  CheckSplit(p, spec.v, h, s);
  Reach("end");
}
HARNESS(triangle, 0, C12_BOUNDS "triangle, 10 orientations, all drop dimensions, all starts, denominators 1 and mixed signs") { Fixed({0}, 10, true); }
HARNESS(quad, 0, C12_BOUNDS "rectangle and hexagon with collinear vertices, 8 orientations") { Fixed({1, 3}, 8, false); }
HARNESS(pentagon_starts, 0, C12_BOUNDS "hexagon with collinear vertices, 2 orientations, all starts") { Fixed({3}, 2, true); }
HARNESS(large, 0, C12_BOUNDS "11 and 12 vertices (bisecting search), 2 orientations") { Fixed({6, 7}, 2, false); }
HARNESS(all_shapes, 1, C12_BOUNDS "all 8 shapes, 10 orientations, all starts") { Fixed({0, 1, 2, 3, 4, 5, 6, 7}, 10, true); }

static void AnyTriangle(bool apex_only, bool any_plane) {
  Point3 a = SPoint3("a"), b(0, 0, 0), c(0, 0, 0);
  if (apex_only) {
    BigInt u = V("u");  // the unit, so that the model scales
    AssumePos(u);
    b = Point3(u * BigInt(2), u * BigInt(-1), u * BigInt(0));
    c = Point3(u * BigInt(0), u * BigInt(0), u * BigInt(1));
  } else { b = SPoint3("b"); c = SPoint3("c"); }
  HalfSpace3 plane(a, b, c);
  int drop = Choose(3, "drop");
  AssumeNonZero(plane.normal().components()[drop]);
  MutableConvexPolygon<> p(plane, drop, std::vector<Point3>{b, c, a});
  static const int kN[][3] = {{1, 0, 0}, {0, 0, -1}, {2, -1, 3}};
  HalfSpace3 h;
  if (any_plane) {
    h = SPlane("h", 2);
    AssumeValid(h.normal());
  } else {
    int i = Choose(3, "direction");
    h = HalfSpace3(BigInt(kN[i][0]), BigInt(kN[i][1]), BigInt(kN[i][2]), V("d", 1));
  }
  std::vector<HomoPoint3> v{HomoPoint3(a), HomoPoint3(b), HomoPoint3(c)};
  std::vector<int> s = Sides(h, v);
  CheckSplit(p, v, h, s, false);
  Reach("end");
}
HARNESS(apex_triangle, 0, "triangles with two fixed vertices and any third one, all planes perpendicular to (1,0,0), (0,0,-1) and (2,-1,3)") { AnyTriangle(true, false); }
HARNESS(any_triangle, 1, "all triangles with integer vertices, all planes perpendicular to (1,0,0), (0,0,-1) and (2,-1,3)") { AnyTriangle(false, false); }
HARNESS(any_triangle_plane, 1, "all triangles with integer vertices, all planes") { AnyTriangle(false, true); }
