#include "polys.h"
using namespace geo;

namespace {
typedef MutableConvexPolygon<> Poly;
// o w + x u + y v + z n
HomoPoint3 InFrame(int frame, const BigInt& x, const BigInt& y, const BigInt& z, const BigInt& w) {
  const Frame& f = Frames()[frame];
  int n[3];
  for (int i = 0; i < 3; ++i) n[i] = f.u[(i + 1) % 3] * f.v[(i + 2) % 3] - f.u[(i + 2) % 3] * f.v[(i + 1) % 3];
  BigInt c[3];
  for (int i = 0; i < 3; ++i) c[i] = w * BigInt(f.o[i]) + x * BigInt(f.u[i]) + y * BigInt(f.v[i]) + z * BigInt(n[i]);
  return HomoPoint3(c[0], c[1], c[2], w);
}
// turn of a->b->c about the normal: sign, collinear reversal counts as -1
int Turn(const HomoPoint3& a, const HomoPoint3& b, const HomoPoint3& c, const Vector3& n) {
  Vector3 d1 = DirR(a, b), d2 = DirR(b, c);
  int t = Sg(DotR(CrossR(d1, d2), n));
  if (t == 0 && Sg(DotR(d1, d2)) < 0) return -1;
  return t;
}
std::vector<int> Dims(const Vector3& v) {
  std::vector<int> r;
  for (int i = 0; i < 3; ++i) if (Sg(Comp(v, i)) != 0) r.push_back(i);
  return r;
}
// p1, p2 share the edge e of p1 / f of p2.
void TryMerge(const PolySpec& s1, const PolySpec& s2, int e, int f, bool mergeable_plane) {
  Poly p1 = MakePoly(s1), p2 = MakePoly(s2);
  int n = s1.v.size(), m = s2.v.size();
  auto a = [&](int i) { return s1.v[(i + n) % n]; };
  auto b = [&](int i) { return s2.v[(i + m) % m]; };
  std::vector<int> dims = Dims(DirR(a(e), a(e + 1)));
  int dim = dims[Choose(dims.size(), "edge_dim")];
  int t1 = 0, t2 = 0;
  bool expect = mergeable_plane;
  if (expect) {
    t1 = Turn(a(e - 1), a(e), b(f + 2), s1.plane.normal());
    t2 = Turn(b(f - 1), b(f), a(e + 2), s1.plane.normal());
    expect = t1 >= 0 && t2 >= 0;
  }
  bool ok = p1.TryMergePolygon(dim, e, p2, f);
  Check(ok == expect, "merged exactly when coplanar, same orientation and convex");
  if (!ok) {
    Check(SameAsSpec(p1, s1) && SameAsSpec(p2, s2), "a refused merge changes nothing");
    CheckValid(p1, "first polygon stays valid"); CheckValid(p2, "second polygon stays valid");
  } else {
    std::vector<HomoPoint3> exp;
    for (int i = 2; i < n; ++i) exp.push_back(a(e + i));
    if (t1 != 0) exp.push_back(a(e));
    for (int i = 2; i < m; ++i) exp.push_back(b(f + i));
    if (t2 != 0) exp.push_back(b(f));
    Check(CyclicMatch(p1, exp) >= 0, "union of the vertices without redundant joints");
    CheckValid(p1, "merged polygon is valid");
    Check(SamePlaneR(p1.plane(), s1.plane), "plane and orientation kept");
    Check(p2.vertex_count() == 0, "the merged polygon is emptied");
  }
  Reach("end");
}
PolySpec Rotated(PolySpec s, int r) { std::rotate(s.v.begin(), s.v.begin() + r, s.v.end()); return s; }

// A triangle on the shared edge with any third vertex in the plane
void Planar(const std::vector<int>& shapes, int frames, int extra, bool all_starts) {
  int frame;
  PolySpec s1 = PickSpec(shapes, frames, false, true, &frame);
  int n = s1.v.size(), e = Choose(n, "edge");
  PolySpec s2 = s1;
  s2.v = {s1.v[(e + 1) % n], s1.v[e]};
  for (int i = 0; i < extra; ++i) {
    std::string q = "q" + std::to_string(i);
    BigInt x = V(q + ".x");
    BigInt y = V(q + ".y");
    BigInt w = i == 0 ? NZ("q.w") : s2.v[2].w();
    s2.v.push_back(InFrame(frame, x, y, BigInt(0), w));
  }
  int m = s2.v.size();
  // the second polygon is convex with the same orientation
  for (int i = 0; i < m; ++i)
    AssumePos(DotR(CrossR(DirR(s2.v[i], s2.v[(i + 1) % m]), DirR(s2.v[(i + 1) % m], s2.v[(i + 2) % m])), s1.plane.normal()));
  int rot = all_starts ? Choose(m, "rotation") : (e % m);
  TryMerge(s1, Rotated(s2, rot), e, (m - rot) % m, true);
}
}  // namespace
HARNESS(planar_triangle, 0, "first polygon: 4 shapes up to 6 vertices, 2 orientations, every edge; second: any triangle on that edge, all starts") { Planar({0, 1, 2, 3}, 2, 1, true); }
HARNESS(planar_orient, 0, "triangles in 10 orientations, every edge, any triangle on that edge") { Planar({0}, 10, 1, false); }
HARNESS(other_plane, 0, "triangle and rectangle, 10 orientations, every edge; second: any triangle on that edge not in the same plane") {
  int shape = Choose(2, "shape"), frame = Choose(10, "frame");
  PolySpec s1 = MakeSpec(shape, frame, 0, false, 0);
  int n = s1.v.size(), e = Choose(n, "edge");
  PolySpec s2;
  s2.v = {s1.v[(e + 1) % n], s1.v[e]};
  BigInt x = V("q.x"), y = V("q.y"), z = NZ("q.z"), w = NZ("q.w");
  HomoPoint3 q = InFrame(frame, x, y, z, w);
  s2.v.push_back(q);
  // normal and offset as polynomials of the inputs: (A-B)x(Q-B)
  Vector3 nm = CrossR(DirR(s2.v[0], s2.v[1]), DirR(s2.v[0], q));
  s2.plane = HalfSpace3(nm, DotR(nm, s2.v[0].vector_from_origin()));
  std::vector<int> dims = Dims(nm);
  s2.drop = dims[0];
  TryMerge(s1, s2, e, 0, false);
}
HARNESS(opposite_orientation, 0, "triangle and rectangle, 10 orientations, every edge; second: any triangle in the same plane facing the other way") {
  int shape = Choose(2, "shape"), frame = Choose(10, "frame");
  PolySpec s1 = MakeSpec(shape, frame, 0, false, 0);
  int n = s1.v.size(), e = Choose(n, "edge");
  PolySpec s2 = s1;
  s2.plane.Negate();
  s2.v = {s1.v[(e + 1) % n], s1.v[e]};
  BigInt x = V("q.x"), y = V("q.y"), w = NZ("q.w");
  s2.v.push_back(InFrame(frame, x, y, BigInt(0), w));
  AssumePos(DotR(CrossR(DirR(s2.v[0], s2.v[1]), DirR(s2.v[0], s2.v[2])), s2.plane.normal()));
  TryMerge(s1, s2, e, 0, false);
}
HARNESS(split_then_merge, 0, "splitting 4 shapes by any plane and merging the parts over the new edge restores the polygon") {
  int shape = Choose(4, "shape"), frame = Choose(4, "frame");
  PolySpec s = MakeSpec(shape, frame, 0, Choose(2, "weird"));
  Poly p = MakePoly(s);
  HalfSpace3 h = SPlane("h", 1);
  AssumeValid(h.normal());
  ConvexPolygonSplitInfo info = p.GetSplitInfo(h);
  if (info.ShouldEmitNegativeChild() && info.ShouldEmitPositiveChild()) {
    auto ch = Poly::CreateSplitChildren(std::move(p).GetRValueKey(), std::move(info));
    Poly a(ch.first), b(ch.second);
    int e = a.vertex_count() - 2, f = b.vertex_count() - 1;
    Vector3 d = DirR(a.vertex(e), a.vertex(e + 1));
    int dim = Dims(d)[0];
    Check(a.TryMergePolygon(dim, e, b, f), "the two parts of a split merge again");
    // Vertices of the original that were collinear and on the plane go away.
    std::vector<HomoPoint3> exp;
    size_t n = s.v.size();
    for (size_t i = 0; i < n; ++i) {
      Vector3 d1 = DirR(s.v[(i + n - 1) % n], s.v[i]), d2 = DirR(s.v[i], s.v[(i + 1) % n]);
      if (SideR(h, s.v[i]) == 0 && IsZeroR(CrossR(d1, d2))) continue;
      exp.push_back(s.v[i]);
    }
    Check(CyclicMatch(a, exp) >= 0, "merging the parts restores the polygon");
    CheckValid(a, "restored polygon is valid");
  }
  Reach("end");
}
HARNESS(planar_quad, 1, "first polygon: 4 shapes; second: any convex quadrilateral on the edge with one common denominator") { Planar({0, 1, 2, 3}, 1, 2, false); }
HARNESS(planar_all, 1, "8 shapes, 10 orientations, every edge; any triangle on the edge, all starts") { Planar({0, 1, 2, 3, 4, 5, 6, 7}, 10, 1, true); }
