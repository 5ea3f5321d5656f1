#include "polys.h"
#include "walnut/aabb_convex_polygon.h"
using namespace geo;

namespace {
typedef AABBConvexPolygon<> Poly;
// sign of x/w - q/den (den > 0)
int CmpFrac(const BigInt& x, const BigInt& w, const BigInt& q, const BigInt& den) { return Sg(x * den - q * w) * Sg(w); }

// The extreme vertices and the box agree with the vertices: the box contains
// all of them, and none of its sides could be moved in by one unit of its
// denominator, the largest denominator of the extreme vertices.
template <class At>
void CheckTracked(size_t n, const At& at, const std::array<size_t, 3>& lo, const std::array<size_t, 3>& hi, const AABB& box, const char* what) {
  Check(Sg(box.denom()) > 0, what);
  BigInt one(1);
  bool den = false;
  for (int c = 0; c < 3; ++c) {
    Check(lo[c] < n && hi[c] < n, what);
    const HomoPoint3 &l = at(lo[c]), &h = at(hi[c]);
    for (size_t i = 0; i < n; ++i) {
      const HomoPoint3& p = at(i);
      int sw = Sg(p.w());
      Check(Sg(Comp(p.vector_from_origin(), c) * l.w() - Comp(l.vector_from_origin(), c) * p.w()) * sw * Sg(l.w()) >= 0, what);
      Check(Sg(Comp(p.vector_from_origin(), c) * h.w() - Comp(h.vector_from_origin(), c) * p.w()) * sw * Sg(h.w()) <= 0, what);
    }
    const BigInt &ql = Comp(box.min_point_num(), c), &qh = Comp(box.max_point_num(), c);
    Check(CmpFrac(Comp(l.vector_from_origin(), c), l.w(), ql, box.denom()) >= 0, what);
    Check(CmpFrac(Comp(l.vector_from_origin(), c), l.w(), ql + one, box.denom()) < 0, what);
    Check(CmpFrac(Comp(h.vector_from_origin(), c), h.w(), qh, box.denom()) <= 0, what);
    Check(CmpFrac(Comp(h.vector_from_origin(), c), h.w(), qh - one, box.denom()) > 0, what);
    for (const HomoPoint3* e : {&l, &h}) {
      int s = Sg(box.denom() - e->w() * BigInt(Sg(e->w())));
      Check(s >= 0, what);
      den = den || s == 0;
    }
  }
  Check(den, what);
}
void CheckTracker(const Poly& p, const char* what) {
  std::array<size_t, 3> lo, hi;
  for (int c = 0; c < 3; ++c) { lo[c] = p.min_vertex_index(c); hi[c] = p.max_vertex_index(c); }
  CheckTracked(p.vertex_count(), [&](size_t i) -> const HomoPoint3& { return p.vertex(i); }, lo, hi, p.aabb(), what);
  for (int c = 0; c < 3; ++c) Check(&p.min_vertex(c) == &p.vertex(lo[c]) && &p.max_vertex(c) == &p.vertex(hi[c]), what);
  Check(p.IsValidState(), what);
}
// Points on a line with the given denominators; only one coordinate varies.
void Construct(int n, bool symw, bool more) {
  static const int kW[4][4] = {{1, 1, 1, 1}, {2, -3, 1, -1}, {-1, 5, 3, 2}, {4, 4, -6, 3}};
  static const int kY[3][4] = {{0, 1, 2, 3}, {2, -1, 0, 2}, {3, 3, -5, 1}};
  int axis = Choose(3, "axis"), ys = Choose(3, "others"), ws = symw ? 0 : Choose(more ? 4 : 3, "w");
  std::vector<HomoPoint3> v;
  for (int i = 0; i < n; ++i) {
    BigInt x = V("x" + std::to_string(i)), w(kW[ws][i]);
    if (symw && i < 2) { w = V("w" + std::to_string(i)); AssumeNonZero(w); }
    BigInt c[3];
    c[axis] = x;
    c[(axis + 1) % 3] = w * BigInt(kY[ys][i]);
    c[(axis + 2) % 3] = w * BigInt(kY[(ys + 1) % 3][i]);
    v.emplace_back(c[0], c[1], c[2], w);
  }
  ConvexVertexAABBTracker t(v.begin(), v.end());
  Check(t.IsValidState(n), "indices in range");
  CheckTracked(n, [&](size_t i) -> const HomoPoint3& { return v[i]; }, t.min_indices(), t.max_indices(), t.aabb(), "bounds of any points");
  Reach("end");
}
const int kNormal[10][3] = {{1, 0, 0}, {0, 2, 0}, {0, 0, -1}, {1, 1, 0}, {1, -1, 0}, {2, 3, 1}, {0, -1, 3}, {-1, 0, 2}, {-3, 1, -1}, {5, 0, -2}};
HalfSpace3 Cut(int k, const BigInt& d) { return HalfSpace3(BigInt(kNormal[k][0]), BigInt(kNormal[k][1]), BigInt(kNormal[k][2]), d); }
// The sides of all vertices, as two flags.
void CheckInfo(const Poly& p, const HalfSpace3& h, const ConvexPolygonSplitInfo& info) {
  bool neg = false, pos = false;
  for (size_t i = 0; i < p.vertex_count(); ++i) { int s = SideR(h, p.vertex(i)); neg |= s < 0; pos |= s > 0; }
  Check(info.ShouldEmitNegativeChild() == neg && info.ShouldEmitPositiveChild() == pos, "the split goes to the sides that have vertices");
  Check(info.ShouldEmitOnPlane() == (!neg && !pos), "on the plane only if all vertices are");
}
void Split(const std::vector<int>& shapes, int frames, int cuts, int second, bool starts) {
  PolySpec s = PickSpec(shapes, frames, starts);
  Poly p = MakePoly<Poly>(s);
  CheckTracker(p, "constructed polygon");
  int k = Choose(cuts, "cut");
  HalfSpace3 h = Cut(k, V("d"));
  ConvexPolygonSplitInfo info = p.GetSplitInfo(h);
  CheckInfo(p, h, info);
  if (!info.ShouldEmitNegativeChild() || !info.ShouldEmitPositiveChild()) { Reach("uncut"); return; }
  std::pair<Poly, Poly> ch = p.CreateSplitChildren(info);
  CheckTracker(p, "the parent is unchanged");
  CheckTracker(ch.first, "negative child");
  CheckTracker(ch.second, "positive child");
  Reach("cut");
  if (second) {
    int k2 = Choose(second, "cut2");
    if (k2 == k) k2 = cuts;
    Poly c = Choose(2, "side") ? ch.first : ch.second;
    HalfSpace3 h2 = Cut(k2, V("d2"));
    ConvexPolygonSplitInfo i2 = c.GetSplitInfo(h2);
    CheckInfo(c, h2, i2);
    if (!i2.ShouldEmitNegativeChild() || !i2.ShouldEmitPositiveChild()) return;
    std::pair<Poly, Poly> gc = std::move(c).CreateSplitChildren(std::move(i2));
    CheckTracker(gc.first, "negative child of a child");
    CheckTracker(gc.second, "positive child of a child");
    Reach("cut twice");
  }
}
// Split, merge again from any start vertices, rotate.
void Merge(const std::vector<int>& shapes, int frames, int cuts) {
  PolySpec s = PickSpec(shapes, frames, true);
  Poly p = MakePoly<Poly>(s);
  HalfSpace3 h = Cut(Choose(cuts, "cut"), V("d"));
  ConvexPolygonSplitInfo info = p.GetSplitInfo(h);
  if (!info.ShouldEmitNegativeChild() || !info.ShouldEmitPositiveChild()) { Reach("uncut"); return; }
  std::pair<Poly, Poly> ch = std::move(p).CreateSplitChildren(std::move(info));
  Poly a, b;
  if (Choose(2, "swap")) { a = ch.second; b = std::move(ch.first); } else { a = std::move(ch.first); b = ch.second; }
  int ra = Choose(2, "rotate"), rb = Choose(2, "rotate_other");
  if (ra) { a.RotateEdges(1 + ra % (a.vertex_count() - 1)); CheckTracker(a, "rotated polygon"); }
  if (rb) { b.SortVertices(); CheckTracker(b, "sorted polygon"); }
  // the shared edge
  size_t e = 0, f = 0;
  bool found = false;
  for (size_t i = 0; i < a.vertex_count(); ++i)
    for (size_t j = 0; j < b.vertex_count(); ++j)
      if (SameLoc(a.vertex(i), b.vertex((j + 1) % b.vertex_count())) && SameLoc(a.vertex((i + 1) % a.vertex_count()), b.vertex(j))) { e = i; f = j; found = true; }
  Check(found, "children share the cut");
  int dim = -1;
  for (int c = 0; c < 3; ++c) if (Sg(Comp(a.const_edge(e).line().d(), c)) != 0) dim = c;
  Check(a.TryMergePolygon(dim, e, b, f), "children merge");
  CheckTracker(a, "merged polygon");
  Poly copy(a), assigned;
  assigned = a;
  Poly moved(std::move(a));
  CheckTracker(copy, "copy"); CheckTracker(assigned, "assigned"); CheckTracker(moved, "moved");
  Check(copy == moved && assigned.aabb() == moved.aabb(), "copies are equal");
  Reach("end");
}
void Rotate(const std::vector<int>& shapes, int frames) {
  PolySpec s = PickSpec(shapes, frames, false);
  int n = s.v.size(), off = Choose(n, "offset");
  BigInt x = V("x");
  Poly p = MakePoly<Poly>(s);
  // move the polygon along the first axis
  PolySpec t = s;
  for (auto& v : t.v) v = HomoPoint3(v.x() + x * v.w(), v.y(), v.z(), v.w());
  t.plane = HalfSpace3(s.plane.normal(), s.plane.d() + x * s.plane.x());
  p = MakePoly<Poly>(t);
  p.RotateEdges(off);
  CheckTracker(p, "rotated polygon");
  for (int i = 0; i < n; ++i) Check(SameLoc(p.vertex(i), t.v[(i + off) % n]), "vertices rotate to the left");
  p.SortVertices();
  CheckTracker(p, "sorted polygon");
  Reach("end");
}
void Rounding(const std::vector<int>& dens) {
  BigInt a = V("a"), one(1);
  int k = dens.size(), i = Choose(2 * k, "old"), j = Choose(2 * k, "new");
  BigInt od(dens[i / 2] * (i % 2 ? -1 : 1)), nd(dens[j / 2] * (j % 2 ? -1 : 1));
  BigInt up = rational::RoundUp(a, od, nd), dn = rational::RoundDown(a, od, nd);
  // compares a / od and n / nd
  auto cmp = [&](const BigInt& n) { return Sg(a * nd - n * od) * Sg(nd) * Sg(od); };
  BigInt unit(Sg(nd));
  Check(cmp(up) <= 0 && cmp(up - unit) > 0, "rounded up");
  Check(cmp(dn) >= 0 && cmp(dn + unit) < 0, "rounded down");
  Reach("end");
}
}  // namespace
HARNESS(rounding, 0, "all numerators, 14 denominators up to 97 of either sign in both places") { Rounding({1, 2, 3, 6, 7, 64, 97}); }
HARNESS(rounding_symbolic, 0, "all numerators and denominators") {
  BigInt a = V("a"), od = NZ("old"), nd = NZ("new");
  BigInt up = rational::RoundUp(a, od, nd), dn = rational::RoundDown(a, od, nd);
  auto cmp = [&](const BigInt& n) { return Sg(a * nd - n * od) * Sg(nd) * Sg(od); };
  BigInt unit(Sg(nd));
  Check(cmp(up) <= 0, "rounded up");
  Check(cmp(up - unit) > 0, "rounded up to the next");
  Check(cmp(dn) >= 0, "rounded down");
  Check(cmp(dn + unit) < 0, "rounded down to the next");
  Reach("end");
}
HARNESS(construct, 0, "3 (thorough: 4) points with one coordinate anywhere, 3 (4) sets of denominators of either sign") { Construct(Thorough() ? 4 : 3, false, Thorough()); }
HARNESS(construct_denominators, 0, "3 points with one coordinate and two denominators anywhere") { Construct(3, true, false); }
HARNESS(split, 0, "triangle, hexagon with collinear vertices, octagon in 4 (thorough: 10) orientations and 2 denominator patterns, any start, cut anywhere in 6 (10) directions") { Split({0, 3, 4}, Thorough() ? 10 : 4, Thorough() ? 10 : 6, 0, true); }
HARNESS(split_oblique, 0, "triangle, pentagon in all 10 orientations and 2 denominator patterns, cut anywhere in 9 directions") { Split({0, 2}, 10, 9, 0, false); }
HARNESS(split_twice, 0, "triangle, octagon in 3 (thorough: 10) orientations, two cuts anywhere in 4 directions") { Split({0, 4}, Thorough() ? 10 : 3, 4, 4, false); }
HARNESS(merge, 0, "triangle, hexagon with collinear vertices in 3 (thorough: 10) orientations, cut anywhere in 4 (9) directions and merged again from different starts") { Merge({0, 3}, Thorough() ? 10 : 3, Thorough() ? 9 : 4); }
HARNESS(rotate, 0, "all shapes in 10 orientations moved by any amount along an axis, rotated to every start") { Rotate({0, 1, 2, 3, 4, 5, 6, 7}, 10); }
