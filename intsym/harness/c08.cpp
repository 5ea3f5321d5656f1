#include "geo.h"
using namespace geo;

HARNESS(side_of_point, 0, "all planes, all homogeneous points with w != 0, all integer points") {
  HalfSpace3 h = SPlane("h", 1);
  HomoPoint3 p = SHomo3("p", 2);
  int t = SideR(h, p);
  Check(Sg(h.Compare(p)) == t, "side of a homogeneous point");
  Check(h.IsCoincident(p) == (t == 0), "coincident");
  Check(Sg((-h).Compare(p)) == -t, "flipping swaps sides");
  HalfSpace3 n = h; n.Negate();
  Check(Sg(n.Compare(p)) == -t, "negating swaps sides");
  BigInt k = NZ("k", 3);
  Check(Sg(h.Compare(ScaleHomo(p, k))) == t, "independent of point scaling");
  Point3 q = SPoint3("q", 0);
  int u = SideR(h, q);
  Check(Sg(h.Compare(q)) == u, "side of an integer point");
  Check(h.IsCoincident(q) == (u == 0), "coincident integer");
  Reach("end");
}
HARNESS(reduce, 0, "all valid planes (gcd modelled as an arbitrary common divisor)") {
  HalfSpace3 h = SPlane("h", 1);
  AssumeValid(h.normal());
  HalfSpace3 r = h;
  r.Reduce();
  Check(SamePlaneR(h, r), "reduced plane is the same half-space");
  Reach("end");
}
HARNESS(from_points, 0, "all triples of integer points") {
  Point3 p1 = SPoint3("p1"), p2 = SPoint3("p2"), p3 = SPoint3("p3");
  HalfSpace3 h(p1, p2, p3);
  Check(Sg(h.Compare(p1)) == 0 && Sg(h.Compare(p2)) == 0 && Sg(h.Compare(p3)) == 0, "contains its points");
  Vector3 n = CrossR(p2 - p1, p3 - p1);
  Check(IsZeroR(n) == IsZeroR(h.normal()), "valid exactly when the points are not collinear");
  Check(h.IsValid() == !IsZeroR(n), "validity");
  if (!IsZeroR(n)) Check(SameDirR(n, h.normal()), "right hand rule");
  Reach("end");
}
HARNESS(from_homo_points, 0, "all triples of homogeneous points with w != 0") {
  HomoPoint3 p1 = SHomo3("p1", 1), p2 = SHomo3("p2", 2), p3 = SHomo3("p3", 3);
  HalfSpace3 h(p1, p2, p3);
  Check(SideR(h, p1) == 0 && SideR(h, p2) == 0 && SideR(h, p3) == 0, "contains its points");
  // (p2-p1) x (p3-p1), with the denominators w1 w2 and w1 w3 multiplied out
  Vector3 a = p2.vector_from_origin() * p1.w() - p1.vector_from_origin() * p2.w();
  Vector3 b = p3.vector_from_origin() * p1.w() - p1.vector_from_origin() * p3.w();
  Vector3 n = CrossR(a, b) * BigInt(Sg(p2.w()) * Sg(p3.w()));
  // h.normal() = f * n with f > 0
  Vector3 c = CrossR(n, h.normal());
  Check(IsZeroR(c), "normal is parallel to the true normal");
  for (int i = 0; i < 3; ++i)
    Check(Sg(Comp(n, i)) == Sg(Comp(h.normal(), i)), "right hand rule");
  Reach("end");
}
HARNESS(normal_and_point, 0, "all normals and homogeneous points with w != 0") {
  Vector3 n = SVec3("n", 1);
  HomoPoint3 p = SHomo3("p", 2);
  AssumeValid(n);
  HalfSpace3 h(n, p);
  Check(SideR(h, p) == 0, "contains the point");
  Check(SameDirR(h.normal(), n), "has the direction of the normal");
  Reach("end");
}
HARNESS(axis_aligned, 0, "all positions with positive or negative denominator, all points") {
  int dim = Choose(3, "dim");
  BigInt num = V("num", 1), den = NZ("den", 1);
  HomoPoint3 p = SHomo3("p", 2);
  HalfSpace3 h = HalfSpace3::GetAxisAligned(dim, num, den);
  // further than num/den in the axis: positive side iff den > 0
  int further = Sg(Comp(p.vector_from_origin(), dim) * den - num * p.w()) * Sg(p.w()) * Sg(den);
  Check(Sg(h.Compare(p)) == further * Sg(den), "axis aligned plane");
  Reach("end");
}
HARNESS(equality, 0, "all pairs of valid planes") {
  HalfSpace3 a = SPlane("a", 1), b = SPlane("b", 2);
  AssumeValid(a.normal()); AssumeValid(b.normal());
  bool same = SamePlaneR(a, b), opp = SamePlaneR(a, -b);
  Check((a == b) == same, "equal exactly for the same half-space");
  Check((a != b) == !same, "unequal");
  Check(a.IsSameOrOpposite(b) == (same || opp), "same or opposite");
  Reach("end");
}
HARNESS(parallel_compare, 0, "all pairs of parallel planes") {
  int dim = Choose(3, "dim");
  Vector3 n = SVec3("n", 1);
  BigInt k = NZ("k", 2), d1 = V("d1", 1), d2 = V("d2", 3);
  AssumeNonZero(Comp(n, dim));
  HalfSpace3 a(n, d1), b(n * k, d2);
  // a: n.x = d1, b: n.x = d2/k.  The tests pin the sign: negative when b lies
  // on the positive side of a.
  int t = Sg(d2 - d1 * k) * Sg(k);
  Check(Sg(a.Compare(b, dim)) == -t, "parallel plane comparison");
  Check((Sg(a.Compare(b, dim)) == 0) == a.IsSameOrOpposite(b), "zero exactly for the same plane");
  Reach("end");
}
HARNESS(project_onto, 0, "all planes with a nonzero component, all homogeneous 2D points") {
  int dim = Choose(3, "dim");
  HalfSpace3 h = SPlane("h", 1);
  AssumeNonZero(Comp(h.normal(), dim));
  BigInt x = V("x", 2), y = V("y", 2), w = NZ("w", 2);
  HomoPoint3 p = h.ProjectOntoPlane(HomoPoint2(x, y, w), dim);
  Check(Sg(p.w()) != 0, "finite");
  Check(SideR(h, p) == 0, "lies on the plane");
  HomoPoint2 q = p.DropDimension(dim);
  Check(Sg(q.x() * w - x * q.w()) == 0 && Sg(q.y() * w - y * q.w()) == 0, "projects back");
  Reach("end");
}
HARNESS(extrude_2d, 0, "all 2D lines and 3D points, each dimension") {
  int dim = Choose(3, "dim");
  BigInt a = V("a", 1), b = V("b", 1), d = V("d", 1);
  HalfSpace2 l(a, b, d);
  HalfSpace3 h(l, dim);
  HomoPoint3 p = SHomo3("p", 2);
  Check(Sg(h.Compare(p)) == Sg(l.Compare(p.DropDimension(dim))), "2D and extruded 3D agree");
  Reach("end");
}
HARNESS(line2d, 0, "all pairs of 2D points, all tested points") {
  BigInt x1 = V("x1"), y1 = V("y1"), x2 = V("x2"), y2 = V("y2");
  HalfSpace2 l(Point2(x1, y1), Point2(x2, y2));
  Check(l.IsCoincident(Point2(x1, y1)) && l.IsCoincident(Point2(x2, y2)), "contains its points");
  BigInt px = V("px", 2), py = V("py", 2), pw = NZ("pw", 2);
  // counter-clockwise side is positive
  BigInt cross = (x2 - x1) * (py - y1 * pw) - (y2 - y1) * (px - x1 * pw);
  int t = Sg(cross) * Sg(pw);
  Check(Sg(l.Compare(HomoPoint2(px, py, pw))) == t, "side of a 2D homogeneous point");
  Check(l.IsCoincident(HomoPoint2(px, py, pw)) == (t == 0), "coincident");
  Check(Sg((-l).Compare(HomoPoint2(px, py, pw))) == -t, "flip");
  HalfSpace2 n = l; n.Negate();
  Check(Sg(n.Compare(HomoPoint2(px, py, pw))) == -t, "negate");
  Check(Sg((l * 3).Compare(HomoPoint2(px, py, pw))) == t && Sg((l * -3).Compare(HomoPoint2(px, py, pw))) == -t, "scale");
  BigInt qx = V("qx"), qy = V("qy");
  Check(Sg(l.Compare(Point2(qx, qy))) == Sg((x2 - x1) * (qy - y1) - (y2 - y1) * (qx - x1)), "side of a 2D point");
  Reach("end");
}
HARNESS(equality2d, 0, "all pairs of valid 2D lines") {
  BigInt a = V("a", 1), b = V("b", 1), c = V("c", 1), d = V("d", 2), e = V("e", 2), f = V("f", 2);
  HalfSpace2 l(a, b, c), m(d, e, f);
  AssumeValid(l.normal()); AssumeValid(m.normal());
  bool line = Sg(a * e - b * d) == 0 && Sg(a * f - c * d) == 0 && Sg(b * f - c * e) == 0;
  bool same = line && Sg(a * d + b * e) > 0;
  Check((l == m) == same && (l != m) == !same, "equality");
  Check(l.HasSameLine(m) == line, "same line");
  Check(l.IsValid() && !HalfSpace2::Zero().IsValid() && !HalfSpace3::Zero().IsValid(), "validity");
  Reach("end");
}
