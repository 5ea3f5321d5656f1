#include "geo.h"
using namespace geo;

HARNESS(vec3_algebra, 0, "all 3D integer vectors u, v, w and scale k") {
  Vector3 u = SVec3("u"), v = SVec3("v"), w = SVec3("w");
  BigInt k = V("k", 2);
  Check(Sg(u.Dot(v) - DotR(u, v)) == 0, "dot");
  Vector3 c = u.Cross(v), r = CrossR(u, v);
  for (int i = 0; i < 3; ++i) Check(Sg(Comp(c, i) - Comp(r, i)) == 0, "cross");
  Check(Sg(u.GetScaleSquared() - DotR(u, u)) == 0, "length squared");
  Vector3 s = u + v, d = u - v, n = -u, sc = u * k, sc2 = k * u, sc3 = u.Scale(3), sc4 = u * -7, acc = u, h = u.Hadamard(v), h2 = u.HadamardSquared();
  acc += w;
  Vector3 neg = u; neg.Negate();
  for (int i = 0; i < 3; ++i) {
    Check(Sg(Comp(s, i) - Comp(u, i) - Comp(v, i)) == 0, "add");
    Check(Sg(Comp(d, i) - Comp(u, i) + Comp(v, i)) == 0, "subtract");
    Check(Sg(Comp(n, i) + Comp(u, i)) == 0, "minus");
    Check(Sg(Comp(neg, i) + Comp(u, i)) == 0, "negate");
    Check(Sg(Comp(sc, i) - k * Comp(u, i)) == 0, "scale");
    Check(Sg(Comp(sc2, i) - k * Comp(u, i)) == 0, "scale left");
    Check(Sg(Comp(sc3, i) - Comp(u, i) - Comp(u, i) - Comp(u, i)) == 0, "scale int");
    Check(Sg(Comp(sc4, i) + Comp(u, i) * BigInt(7)) == 0, "scale neg int");
    Check(Sg(Comp(acc, i) - Comp(u, i) - Comp(w, i)) == 0, "add assign");
    Check(Sg(Comp(h, i) - Comp(u, i) * Comp(v, i)) == 0, "hadamard");
    Check(Sg(Comp(h2, i) - Comp(u, i) * Comp(u, i)) == 0, "hadamard squared");
  }
  for (int drop = 0; drop < 3; ++drop) {
    Vector2 p = u.DropDimension(drop), q = v.DropDimension(drop);
    // orientation preserving: cross product of the projections is the dropped
    // component of the 3D cross product
    Check(Sg(p.Cross(q) - Comp(r, drop)) == 0, "projection preserves orientation");
    Check(Sg(p.x() - u.GetComponentAfterDrop(0, drop)) == 0, "component after drop 0");
    Check(Sg(p.y() - u.GetComponentAfterDrop(1, drop)) == 0, "component after drop 1");
  }
  Reach("end");
}
HARNESS(vec2_algebra, 0, "all 2D integer vectors u, v and scale k") {
  Vector2 u = SVec2("u"), v = SVec2("v");
  BigInt k = V("k", 2);
  Check(Sg(u.Dot(v) - (u.x() * v.x() + u.y() * v.y())) == 0, "dot");
  Check(Sg(u.Cross(v) - (u.x() * v.y() - u.y() * v.x())) == 0, "cross");
  Check(Sg(u.GetScaleSquared() - (u.x() * u.x() + u.y() * u.y())) == 0, "length squared");
  Vector2 p = u.GetPerpendicular();
  Check(Sg(p.x() + u.y()) == 0 && Sg(p.y() - u.x()) == 0, "quarter turn");
  Vector2 w = u.SwapXY();
  Check(Sg(w.x() - u.y()) == 0 && Sg(w.y() - u.x()) == 0, "swap");
  Vector2 s = u.Scale(k), s2 = u * k, s3 = u * 5, s4 = u.Scale(-3), d = u - v, m = -u, n = u;
  n.Negate();
  Check(Sg(s.x() - u.x() * k) == 0 && Sg(s.y() - u.y() * k) == 0, "scale");
  Check(Sg(s2.x() - u.x() * k) == 0 && Sg(s2.y() - u.y() * k) == 0, "scale op");
  Check(Sg(s3.x() - u.x() * BigInt(5)) == 0 && Sg(s3.y() - u.y() * BigInt(5)) == 0, "scale int");
  Check(Sg(s4.x() + u.x() * BigInt(3)) == 0 && Sg(s4.y() + u.y() * BigInt(3)) == 0, "scale int");
  Check(Sg(d.x() - u.x() + v.x()) == 0 && Sg(d.y() - u.y() + v.y()) == 0, "subtract");
  Check(Sg(m.x() + u.x()) == 0 && Sg(m.y() + u.y()) == 0, "minus");
  Check(Sg(n.x() + u.x()) == 0 && Sg(n.y() + u.y()) == 0, "negate");
  Reach("end");
}
HARNESS(vec3_queries, 0, "all pairs of nonzero 3D integer vectors") {
  Vector3 u = SVec3("u", 1), v = SVec3("v", 2);
  AssumeValid(u); AssumeValid(v);
  Vector3 c = CrossR(u, v);
  bool parallel = IsZeroR(c);
  bool same = parallel && Sg(DotR(u, v)) > 0;
  Check(u.IsSameDir(v) == same, "same direction");
  Check(u.IsSameOrOppositeDir(v) == parallel, "same or opposite direction");
  bool eq = Sg(u.x() - v.x()) == 0 && Sg(u.y() - v.y()) == 0 && Sg(u.z() - v.z()) == 0;
  Check((u == v) == eq, "equality");
  Check((u != v) == !eq, "inequality");
  Check(!u.IsZero(), "nonzero");
  int first = Sg(u.x()) ? 0 : Sg(u.y()) ? 1 : 2;
  Check(u.GetFirstNonzeroDimension() == first, "first nonzero dimension");
  Reach("end");
}
HARNESS(vec2_queries, 0, "all pairs of nonzero 2D integer vectors") {
  Vector2 u = SVec2("u", 1), v = SVec2("v", 2);
  AssumeValid(u); AssumeValid(v);
  bool parallel = Sg(u.x() * v.y() - u.y() * v.x()) == 0;
  bool same = parallel && Sg(u.x() * v.x() + u.y() * v.y()) > 0;
  Check(u.IsSameDir(v) == same, "same direction");
  Check(u.IsSameOrOppositeDir(v) == parallel, "same or opposite direction");
  bool eq = Sg(u.x() - v.x()) == 0 && Sg(u.y() - v.y()) == 0;
  Check((u == v) == eq, "equality");
  Check(!u.IsZero(), "nonzero");
  Reach("end");
}
HARNESS(zero_vectors, 0, "concrete") {
  Check(Vector3::Zero().IsZero() && Vector2::Zero().IsZero(), "zero");
  Check(Vector3::Zero().GetFirstNonzeroDimension() == -1, "zero has no nonzero dimension");
  BigInt a = V("a"), b = V("b"), c = V("c"), d = V("d");
  Check(Sg(BigInt::Determinant(a, b, c, d) - (a * d - b * c)) == 0, "determinant");
  Reach("end");
}
HARNESS(reduce, 0, "all nonzero 3D integer vectors (gcd modelled as an arbitrary common divisor)") {
  Vector3 u = SVec3("u");
  AssumeValid(u);
  Vector3 r = u;
  r.Reduce();
  Check(SameDirR(u, r), "reduced vector has the same direction");
  Reach("end");
}
