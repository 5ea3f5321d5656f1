#include "geo.h"
using namespace geo;

// point p = v/w on line (d, m):  v x d == w m
static bool OnLineR(const PluckerLine& l, const HomoPoint3& p) {
  Vector3 c = CrossR(p.vector_from_origin(), l.d());
  for (int i = 0; i < 3; ++i) if (Sg(Comp(c, i) - Comp(l.m(), i) * p.w())) return false;
  return true;
}
HARNESS(two_int_points, 0, "all pairs of distinct integer points, all tested points") {
  Point3 p = SPoint3("p"), q = SPoint3("q");
  Vector3 diff = q - p;
  AssumeValid(diff);
  PluckerLine l(p, q);
  Check(l.IsValid(), "valid");
  Check(SameDirR(l.d(), diff), "direction from the first to the second point");
  Check(l.IsCoincident(p) && l.IsCoincident(q), "contains both points");
  Check(OnLineR(l, HomoPoint3(p)) && OnLineR(l, HomoPoint3(q)), "contains both points (definition)");
  HomoPoint3 r = SHomo3("r", 2);
  Vector3 c = CrossR(r.vector_from_origin() - p.vector_from_origin() * r.w(), diff);
  Check(l.IsCoincident(r) == IsZeroR(c), "point on line query");
  Reach("end");
}
HARNESS(point_on_line_int, 0, "all lines through two integer points, all integer points") {
  Point3 p = SPoint3("p"), q = SPoint3("q"), r = SPoint3("r");
  AssumeValid(q - p);
  PluckerLine l(p, q);
  Check(l.IsCoincident(r) == IsZeroR(CrossR(r - p, q - p)), "point on line query (integer)");
  Reach("end");
}
HARNESS(two_homo_points, 0, "all pairs of homogeneous points at different locations") {
  HomoPoint3 p = SHomo3("p", 1), q = SHomo3("q", 2);
  PluckerLine l(p, q);
  Check(OnLineR(l, p) && OnLineR(l, q), "contains both points");
  Check(l.IsCoincident(p) && l.IsCoincident(q), "contains both points (query)");
  for (int i = 0; i < 3; ++i)
    Check(Sg(Comp(l.d(), i)) == CompR(q, p, i), "direction from the first to the second point");
  Check(l.IsValid() == !SameLoc(p, q), "valid exactly for different points");
  Reach("end");
}
HARNESS(two_planes, 0, "all pairs of planes") {
  HalfSpace3 a = SPlane("a", 1), b = SPlane("b", 2);
  AssumeValid(a.normal()); AssumeValid(b.normal());
  PluckerLine l(a, b);
  Vector3 n = CrossR(a.normal(), b.normal());
  Check(l.IsValid() == !IsZeroR(n), "valid exactly for planes that are not parallel");
  if (IsZeroR(n)) { Reach("parallel"); return; }
  Check(SameDirR(l.d(), n), "direction is the cross product of the normals");
  Check(l.IsCoincident(a) && l.IsCoincident(b), "lies in both planes");
  // a point of the line (m x d has |d|^2 as denominator... d x m / d.d)
  Vector3 foot = CrossR(l.d(), l.m());
  BigInt dd = DotR(l.d(), l.d());
  Check(SideR(a, foot, dd) == 0 && SideR(b, foot, dd) == 0, "a point of the line is in both planes");
  Check(Sg(DotR(l.d(), l.m())) == 0, "proper line");
  Reach("crossing");
}
HARNESS(intersect_plane, 0, "all lines through two integer points, all planes") {
  Point3 p = SPoint3("p", 1), q = SPoint3("q", 1);
  AssumeValid(q - p);
  HalfSpace3 h = SPlane("h", 2);
  AssumeValid(h.normal());
  PluckerLine l(p, q);
  HomoPoint3 x = l.Intersect(h);
  bool parallel = Sg(DotR(h.normal(), q - p)) == 0;
  Check((Sg(x.w()) == 0) == parallel, "no intersection point exactly for parallel lines");
  Check(l.IsCoincident(h) == (SideR(h, p) == 0 && SideR(h, q) == 0), "line in plane query");
  if (parallel) { Reach("parallel"); return; }
  Check(SideR(h, x) == 0, "intersection is on the plane");
  Check(OnLineR(l, x), "intersection is on the line");
  Reach("crossing");
}
HARNESS(equality, 0, "all pairs of lines given by a point and a direction each (scaled, reversed or different)") {
  Point3 p = SPoint3("p", 1);
  Vector3 d = SVec3("d", 2), e = SVec3("e", 3);
  Vector3 o = SVec3("o", 1);
  AssumeValid(d); AssumeValid(e);
  PluckerLine a(p, p + d), b(p + o, p + o + e);
  bool same = SameDirR(d, e) && IsZeroR(CrossR(o, d));
  Check((a == b) == same, "equal exactly for the same directed line");
  Check((a != b) == !same, "unequal");
  Reach("end");
}
HARNESS(negate, 0, "all lines through two points, all points") {
  Point3 p = SPoint3("p", 1), q = SPoint3("q", 1);
  AssumeValid(q - p);
  PluckerLine l(p, q), n = -l, m = l;
  m.Negate();
  Check(SameDirR(n.d(), p - q) && SameDirR(m.d(), p - q), "direction reversed");
  Check(OnLineR(n, HomoPoint3(p)) && OnLineR(n, HomoPoint3(q)) && OnLineR(m, HomoPoint3(p)) && OnLineR(m, HomoPoint3(q)), "same points");
  Reach("end");
}
HARNESS(reduce, 0, "all lines through two points (gcd modelled as an arbitrary common divisor)") {
  Point3 p = SPoint3("p", 1), q = SPoint3("q", 1);
  AssumeValid(q - p);
  PluckerLine l(p, q);
  l.Reduce();
  Check(SameDirR(l.d(), q - p), "direction kept");
  Check(OnLineR(l, HomoPoint3(p)) && OnLineR(l, HomoPoint3(q)), "contains both points");
  Reach("end");
}
HARNESS(project, 0, "all lines through two points, each dropped dimension, all tested points") {
  int drop = Choose(3, "drop");
  Point3 p = SPoint3("p", 1), q = SPoint3("q", 1);
  HomoPoint3 r = SHomo3("r", 2);
  PluckerLine l(p, q);
  HalfSpace2 h = l.Project2D(drop);
  Check(h.IsCoincident(p.DropDimension(drop)) && h.IsCoincident(q.DropDimension(drop)), "projection contains both points");
  Vector2 dir = q.DropDimension(drop) - p.DropDimension(drop);
  HomoPoint2 t = r.DropDimension(drop);
  BigInt cross = dir.x() * (t.y() - p.DropDimension(drop).y() * t.w()) - dir.y() * (t.x() - p.DropDimension(drop).x() * t.w());
  Check(Sg(h.Compare(t)) == Sg(cross) * Sg(t.w()), "positive side is counter-clockwise of the projected line");
  Reach("end");
}
