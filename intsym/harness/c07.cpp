#include "geo.h"
#include "walnut/homo_point2.h"
using namespace geo;

HARNESS(equality3, 0, "all pairs of homogeneous 3D points with w != 0") {
  HomoPoint3 p = SHomo3("p", 1), q = SHomo3("q", 2);
  bool same = SameLoc(p, q);
  Check((p == q) == same, "equal exactly for the same location");
  Check((p != q) == !same, "unequal");
  for (int c = 0; c < 3; ++c) {
    int t = CompR(p, q, c);
    Check(Sg(p.CompareComponent(c, q)) == t, "component comparison");
    Check(p.IsLessThanComponent(c, q) == (t < 0), "component less");
    Check(p.IsEquivalentComponent(c, q) == (t == 0), "component equal");
  }
  Check(p.IsValid() && q.IsValid(), "valid");
  Reach("end");
}
HARNESS(lexicographic3, 0, "all pairs of homogeneous 3D points with w != 0") {
  HomoPoint3 p = SHomo3("p", 1), q = SHomo3("q", 2);
  int t = 0;
  for (int c = 0; c < 3 && t == 0; ++c) t = CompR(p, q, c);
  Check(HomoPoint3::LexicographicallyLt(p, q) == (t < 0), "lexicographic");
  Check(q.LexicographicallyLt(p) == (t > 0), "lexicographic reversed");
  Reach("end");
}
HARNESS(topness3, 0, "all pairs of homogeneous 3D points with w != 0") {
  HomoPoint3 p = SHomo3("p", 1), q = SHomo3("q", 2);
  int t = 0;
  for (int c = 2; c >= 0 && t == 0; --c) t = CompR(p, q, c);
  Check(HomoPoint3::TopnessLt(p, q) == (t < 0), "topness");
  Check(HomoPoint3::TopnessLt(q, p) == (t > 0), "topness reversed");
  Reach("end");
}
HARNESS(versus_point3, 0, "all pairs of a homogeneous 3D point and an integer 3D point") {
  HomoPoint3 p = SHomo3("p", 1);
  Point3 q = SPoint3("q", 0);
  bool same = SameLoc(p, HomoPoint3(q));
  Check((p == q) == same, "equal");
  Check((q == p) == same, "equal (mirrored)");
  Check((p != q) == !same, "unequal");
  Reach("end");
}
HARNESS(points3, 0, "all pairs of integer 3D points") {
  Point3 p = SPoint3("p", 1), q = SPoint3("q", 1);
  int lex = 0;
  bool eq = true;
  for (int c = 0; c < 3; ++c) {
    int t = Sg(Comp(p.vector_from_origin(), c) - Comp(q.vector_from_origin(), c));
    if (lex == 0) lex = t;
    if (t) eq = false;
    Check(Sg(p.CompareComponent(c, q)) == t, "component comparison");
    Check(p.IsEquivalentComponent(c, q) == (t == 0), "component equal");
  }
  Check((p == q) == eq && (p != q) == !eq, "equality");
  Check(Point3::LexicographicallyLt(p, q) == (lex < 0), "lexicographic");
  Check(q.LexicographicallyLt(p) == (lex > 0), "lexicographic reversed");
  Vector3 d = p - q;
  Point3 back = q + d, minus = p - d;
  for (int c = 0; c < 3; ++c) {
    Check(Sg(Comp(back.vector_from_origin(), c) - Comp(p.vector_from_origin(), c)) == 0, "q + (p-q) == p");
    Check(Sg(Comp(minus.vector_from_origin(), c) - Comp(q.vector_from_origin(), c)) == 0, "p - (p-q) == q");
  }
  Reach("end");
}
HARNESS(equality2, 0, "all pairs of homogeneous 2D points with w != 0") {
  BigInt x = V("p.x", 1), y = V("p.y", 1), w = NZ("p.w", 1);
  BigInt a = V("q.x", 2), b = V("q.y", 2), v = NZ("q.w", 2);
  HomoPoint2 p(x, y, w), q(a, b, v);
  int tx = Sg(x * v - a * w) * Sg(w) * Sg(v), ty = Sg(y * v - b * w) * Sg(w) * Sg(v);
  bool same = tx == 0 && ty == 0;
  Check((p == q) == same && (p != q) == !same, "equality");
  int lex = tx ? tx : ty;
  Check(HomoPoint2::LexicographicallyLt(p, q) == (lex < 0), "lexicographic 2D");
  Check(HomoPoint2::LexicographicallyLt(q, p) == (lex > 0), "lexicographic 2D reversed");
  Reach("end");
}
HARNESS(versus_point2, 0, "all pairs of a homogeneous 2D point and an integer 2D point") {
  BigInt x = V("p.x", 1), y = V("p.y", 1), w = NZ("p.w", 1), a = V("q.x", 0), b = V("q.y", 0);
  HomoPoint2 p(x, y, w);
  Point2 q(a, b);
  bool same = Sg(x - a * w) == 0 && Sg(y - b * w) == 0;
  Check((p == q) == same && (q == p) == same && (p != q) == !same, "equality");
  HomoPoint2 c(q);
  Check(Sg(c.x() - a) == 0 && Sg(c.y() - b) == 0 && Sg(c.w() - BigInt(1)) == 0, "conversion");
  Reach("end");
}
HARNESS(twist_homo, 0, "all triples of homogeneous 3D points with w != 0 (any sign), each dropped dimension") {
  int drop = Choose(3, "drop");
  HomoPoint3 p1 = SHomo3("p1", 1), p2 = SHomo3("p2", 2), p3 = SHomo3("p3", 3);
  int i = (drop + 1) % 3, j = (drop + 2) % 3;
  const Vector3 &a = p1.vector_from_origin(), &b = p2.vector_from_origin(), &c = p3.vector_from_origin();
  BigInt cross = (Comp(a, i) * p2.w() - Comp(b, i) * p1.w()) * (Comp(c, j) * p2.w() - Comp(b, j) * p3.w()) -
                 (Comp(a, j) * p2.w() - Comp(b, j) * p1.w()) * (Comp(c, i) * p2.w() - Comp(b, i) * p3.w());
  int truth = Sg(cross) * Sg(p1.w()) * Sg(p3.w());
  Check(Sg(p2.Get2DTwistDir(drop, p1, p3)) == truth, "2D twist direction");
  Check(p2.Get2DTwistDirReduced(drop, p1, p3) == truth, "2D twist direction (reduced)");
  Reach("end");
}
HARNESS(twist_int, 0, "all triples of integer 3D points, each dropped dimension") {
  int drop = Choose(3, "drop");
  Point3 p1 = SPoint3("p1", 1), p2 = SPoint3("p2", 1), p3 = SPoint3("p3", 1);
  int i = (drop + 1) % 3, j = (drop + 2) % 3;
  Vector3 a = p1 - p2, b = p3 - p2;
  int truth = Sg(Comp(a, i) * Comp(b, j) - Comp(a, j) * Comp(b, i));
  Check(Sg(p2.Get2DTwistDir(drop, p1, p3)) == truth, "2D twist direction");
  Check(p2.Get2DTwistDirReduced(drop, p1, p3) == truth, "2D twist direction (reduced)");
  Check(Sg(p2.DropDimension(drop).GetTwistDir(p1.DropDimension(drop), p3.DropDimension(drop))) == truth, "2D point twist");
  Reach("end");
}
HARNESS(reduce, 0, "all homogeneous 3D points with w != 0 (gcd modelled as an arbitrary common divisor)") {
  HomoPoint3 p = SHomo3("p", 1);
  HomoPoint3 r = p;
  r.Reduce();
  Check(Sg(r.w()) > 0, "denominator is positive");
  Check(SameLoc(r, p), "reduced point is at the same location");
  Reach("end");
}
HARNESS(conversions, 0, "all homogeneous and integer points, all offsets with either sign of the denominator") {
  HomoPoint3 p = SHomo3("p", 1);
  HomoPoint3 q = SHomo3("q", 3);
  BigInt k = NZ("k", 2);
  Check(SameLoc(p, ScaleHomo(p, k)) && p == ScaleHomo(p, k), "scaling keeps the location");
  for (int d = 0; d < 3; ++d) {
    HomoPoint2 h = p.DropDimension(d);
    Check(Sg(h.x() - Comp(p.vector_from_origin(), (d + 1) % 3)) == 0, "projection x");
    Check(Sg(h.y() - Comp(p.vector_from_origin(), (d + 2) % 3)) == 0, "projection y");
    Check(Sg(h.w() - p.w()) == 0, "projection w");
    Check(Sg(p.GetComponentAfterDrop(0, d) - h.x()) == 0 && Sg(p.GetComponentAfterDrop(1, d) - h.y()) == 0, "component after drop");
  }
  Vector3 o = SVec3("o", 4);
  BigInt od = NZ("od", 4);
  HomoPoint3 moved = p.AddOffset(o, od);
  for (int c = 0; c < 3; ++c)
    Check(Sg(Comp(moved.vector_from_origin(), c) * p.w() * od -
             (Comp(p.vector_from_origin(), c) * od + Comp(o, c) * p.w()) * moved.w()) == 0, "offset");
  BigInt denom;
  Vector3 diff = p.Difference(q, denom);
  for (int c = 0; c < 3; ++c)
    Check(Sg(Comp(diff, c) * p.w() * q.w() -
             (Comp(p.vector_from_origin(), c) * q.w() - Comp(q.vector_from_origin(), c) * p.w()) * denom) == 0, "difference");
  Check(Sg(denom) != 0, "difference denominator");
  Point3 i = SPoint3("i", 0);
  Check(SameLoc(HomoPoint3(i), HomoPoint3(i.x(), i.y(), i.z(), BigInt(1))), "from integer point");
  HomoPoint3StrictEq seq;
  bool strict = Sg(p.x() - q.x()) == 0 && Sg(p.y() - q.y()) == 0 && Sg(p.z() - q.z()) == 0 && Sg(p.w() - q.w()) == 0;
  Check(seq(p, q) == strict, "strict equality");
  Reach("end");
}
