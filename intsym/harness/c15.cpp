#include "polys.h"
using namespace geo;

namespace {
typedef MutableConvexPolygon<> Poly;
struct IdInfo : public EdgeInfoRoot {
  IdInfo() = default;
  IdInfo(const IdInfo&) = default;
  IdInfo(RValueKey<IdInfo> o) noexcept : EdgeInfoRoot(RValueKey<EdgeInfoRoot>(o)), id(o.get().id) {}
  IdInfo(const IdInfo& p, const HomoPoint3& v) : EdgeInfoRoot(p, v), id(p.id) {}
  IdInfo(const IdInfo& p, const PluckerLine& l) : EdgeInfoRoot(p, l), id(p.id) {}
  IdInfo(const IdInfo& p, const HomoPoint3& v, const PluckerLine& l) : EdgeInfoRoot(p, v, l), id(p.id) {}
  IdInfo& operator=(const IdInfo& o) { id = o.id; return *this; }
  IdInfo& operator=(RValueKey<IdInfo> o) noexcept { id = o.get().id; return *this; }
  bool operator==(const IdInfo& o) const { return id == o.id; }
  bool operator!=(const IdInfo& o) const { return id != o.id; }
  int id = 0;
};
std::ostream& operator<<(std::ostream& o, const IdInfo& i) { return o << i.id; }
typedef MutableConvexPolygon<IdInfo> IdPoly;

PolySpec Rescaled(const PolySpec& s, int rot) {
  PolySpec r = s;
  for (size_t i = 0; i < s.v.size(); ++i) {
    BigInt k = NZ("k" + std::to_string(i), 10 + i);
    r.v[i] = ScaleHomo(s.v[(i + rot) % s.v.size()], k);
  }
  return r;
}
}  // namespace
HARNESS(equal_rescaled, 0, "triangle, rectangle, hexagon in 10 orientations against the same polygon from any start, with vertices and plane scaled by any nonzero numbers") {
  PolySpec s = PickSpec({0, 1}, 10, false);
  int n = s.v.size(), rot = Choose(n, "rot");
  PolySpec t = Rescaled(s, rot);
  BigInt k = V("kp", 1);
  AssumePos(k);
  t.plane = HalfSpace3(s.plane.normal() * k, s.plane.d() * k);
  Poly p = MakePoly(s), q = MakePoly(t);
  Check(p == q && q == p, "same polygon from another start and scale is equal");
  Check(!(p != q) && !(q != p), "!= is the negation of ==");
  Reach("end");
}
HARNESS(equal_moved_vertex, 0, "triangles in 8 orientations, from any start, with one vertex anywhere in the plane") {
  int frame;
  PolySpec s = PickSpec({0}, 8, false, true, &frame);
  int n = s.v.size(), rot = Choose(n, "rot"), which = Choose(n, "which");
  PolySpec t = s;
  BigInt x = V("x"), y = V("y"), w = NZ("w");
  const Frame& f = Frames()[frame];
  BigInt c[3];
  for (int i = 0; i < 3; ++i) c[i] = w * BigInt(f.o[i]) + x * BigInt(f.u[i]) + y * BigInt(f.v[i]);
  t.v[which] = HomoPoint3(c[0], c[1], c[2], w);
  for (int i = 0; i < 1; ++i)
    AssumePos(DotR(CrossR(DirR(t.v[0], t.v[1]), DirR(t.v[1], t.v[2])), s.plane.normal()));
  bool same = SameLoc(s.v[which], t.v[which]);
  std::rotate(t.v.begin(), t.v.begin() + rot, t.v.end());
  Poly p = MakePoly(s), q = MakePoly(t);
  Check((p == q) == same && (q == p) == same, "equal exactly when the vertices are the same");
  Check((p != q) == !same, "!= is the negation of ==");
  Reach("end");
}
HARNESS(plane_differs, 0, "parallel and opposite planes, different vertex counts, mirrored order") {
  PolySpec s = PickSpec({0, 1, 3}, 10, false);
  Poly p = MakePoly(s), q = MakePoly(s);
  BigInt k = NZ("k", 1);
  // translate along the normal
  PolySpec t = s;
  for (auto& v : t.v) v = HomoPoint3(v.x() * BigInt(1) + k * s.plane.x() * v.w(), v.y() + k * s.plane.y() * v.w(), v.z() + k * s.plane.z() * v.w(), v.w());
  t.plane = HalfSpace3(s.plane.normal(), s.plane.d() + k * DotR(s.plane.normal(), s.plane.normal()));
  Poly m = MakePoly(t);
  Check(p == q, "reflexive");
  Check(!(p == m) && !(m == p), "a translated polygon differs");
  Poly inv(p);
  inv.Invert();
  Check(!(p == inv) && !(inv == p), "an inverted polygon differs");
  PolySpec f = s;
  f.plane.Negate();
  std::reverse(f.v.begin(), f.v.end());
  Poly rv = MakePoly(f);
  Check(inv == rv, "inverting reverses the vertices and the plane");
  CheckValid(inv, "inverted polygon is valid");
  inv.Invert();
  Check(inv == p, "inverting twice restores");
  Reach("end");
}
HARNESS(edge_data, 0, "per edge data: triangle and rectangle, every start, every subset of differing edges; empty polygons") {
  int shape = Choose(2, "shape");
  PolySpec s = MakeSpec(shape, 0, 0, false);
  int n = s.v.size(), rot = Choose(n, "rot"), mask = Choose(1 << n, "mask");
  PolySpec t = s;
  std::rotate(t.v.begin(), t.v.begin() + rot, t.v.end());
  IdPoly p = MakePoly<IdPoly>(s), q = MakePoly<IdPoly>(t);
  BigInt unused = V("unused");
  (void)unused;
  for (int i = 0; i < n; ++i) {
    p.edge(i).id = i;
    q.edge(i).id = (i + rot) % n + ((mask >> ((i + rot) % n) & 1) ? 100 : 0);
  }
  Check((p == q) == (mask == 0) && (q == p) == (mask == 0), "edge data takes part in equality");
  IdPoly e1, e2;
  Check(e1 == e2, "empty polygons are equal");
  Check(!(e1 == p) && !(p == e1), "an empty polygon differs from a nonempty one");
  Reach("end");
}
namespace {
// twice the signed area of the projected polygon as num / den, by shoelace.
void Shoelace(const std::vector<HomoPoint3>& v, int drop, BigInt* num, BigInt* den) {
  size_t n = v.size();
  *num = BigInt(0); *den = BigInt(1);
  for (size_t i = 0; i < n; ++i) {
    const HomoPoint3 &a = v[i], &b = v[(i + 1) % n];
    Vector2 p = a.vector_from_origin().DropDimension(drop), q = b.vector_from_origin().DropDimension(drop);
    BigInt t = p.x() * q.y() - q.x() * p.y(), d = a.w() * b.w();
    *num = *num * d + t * *den;
    *den = *den * d;
  }
}
void CheckArea(const Poly& p, const std::vector<HomoPoint3>& v) {
  for (int drop = 0; drop < 3; ++drop) {
    BigInt num, den;
    Shoelace(v, drop, &num, &den);
    auto a = p.GetProjectedArea(drop);
    Check(Sg(a.second) != 0, "area denominator is nonzero");
    Check(Sg(a.first * den * BigInt(2) - num * a.second) == 0, "projected area is exact");
  }
}
// sum over the fan of (area * centroid); 6 * area * c = sum (p_i + p_{i+1}) cross
void CheckCentroid(const Poly& p, const std::vector<HomoPoint3>& v) {
  int drop = p.drop_dimension();
  size_t n = v.size();
  BigInt num, den, cx(0), cy(0), cd(1);
  Shoelace(v, drop, &num, &den);
  for (size_t i = 0; i < n; ++i) {
    const HomoPoint3 &a = v[i], &b = v[(i + 1) % n];
    Vector2 s = a.vector_from_origin().DropDimension(drop), t = b.vector_from_origin().DropDimension(drop);
    BigInt cr = s.x() * t.y() - t.x() * s.y(), d = a.w() * b.w();
    // (s/wa + t/wb) * cr / d
    BigInt tx = (s.x() * b.w() + t.x() * a.w()) * cr, ty = (s.y() * b.w() + t.y() * a.w()) * cr, td = d * d;
    cx = cx * td + tx * cd; cy = cy * td + ty * cd; cd = cd * td;
  }
  // true centroid = (cx/cd) / (3 num/den)
  HomoPoint2 c = p.GetProjectedCentroid(drop);
  Check(Sg(c.w()) != 0, "centroid denominator is nonzero");
  Check(Sg(c.x() * cd * BigInt(3) * num - cx * den * c.w()) == 0 && Sg(c.y() * cd * BigInt(3) * num - cy * den * c.w()) == 0, "projected centroid is exact");
  HomoPoint3 c3 = p.GetCentroid();
  Check(SideR(p.plane(), c3) == 0, "centroid is in the plane");
  Vector2 q = c3.vector_from_origin().DropDimension(drop);
  Check(Sg(q.x() * c.w() - c.x() * c3.w()) == 0 && Sg(q.y() * c.w() - c.y() * c3.w()) == 0, "centroid projects onto the projected centroid");
}
PolySpec Translated(const PolySpec& s, const Vector3& t, const BigInt& u) {
  PolySpec r = s;
  for (auto& v : r.v) v = HomoPoint3(v.x() * u + t.x() * v.w(), v.y() * u + t.y() * v.w(), v.z() * u + t.z() * v.w(), v.w() * u);
  // n . (x + t/u) = d + n.t/u
  r.plane = HalfSpace3(s.plane.normal() * u, s.plane.d() * u + DotR(s.plane.normal(), t));
  return r;
}
}  // namespace
HARNESS(area_triangle, 0, "all integer triangles") {
  Point3 a = SPoint3("a"), b = SPoint3("b"), c = SPoint3("c");
  HalfSpace3 plane(a, b, c);
  int drop = Choose(3, "drop");
  AssumeNonZero(plane.normal().components()[drop]);
  Poly p(plane, drop, std::vector<Point3>{b, c, a});
  std::vector<HomoPoint3> v{HomoPoint3(a), HomoPoint3(b), HomoPoint3(c)};
  CheckArea(p, v);
  CheckCentroid(p, v);
  Reach("end");
}
HARNESS(area_shapes, 0, "triangle, rectangle, pentagon, hexagon in 10 orientations, all starts, denominators 1 and mixed signs, any rational translation") {
  PolySpec s = PickSpec({0, 1, 2, 3}, 10, true);
  BigInt u = V("u");
  AssumePos(u);
  PolySpec t = Translated(s, SVec3("t"), u);
  Poly p = MakePoly(t);
  CheckArea(p, t.v);
  CheckCentroid(p, t.v);
  Reach("end");
}
HARNESS(area_rescaled, 0, "triangle in 10 orientations with vertices scaled by any nonzero numbers (gcd modelled as any common divisor)") {
  PolySpec s = PickSpec({0}, 10, false, false);
  PolySpec t = Rescaled(s, 0);
  Poly p = MakePoly(t);
  CheckArea(p, t.v);
  CheckCentroid(p, t.v);
  Reach("end");
}
