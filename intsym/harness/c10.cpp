#include "geo.h"
#include "walnut/half_space2_sideless_compare.h"
#include "walnut/r_transformation.h"
using namespace geo;

// Reference: counter-clockwise angle from the x axis in [0, 2 pi), compared via
// the half plane first and the cross product second.
static int Half(const Vector2& v) { return Sg(v.y()) < 0 || (Sg(v.y()) == 0 && Sg(v.x()) < 0) ? 1 : 0; }
static bool RotLess(const Vector2& a, const Vector2& b) {
  int ha = Half(a), hb = Half(b);
  if (ha != hb) return ha < hb;
  return Sg(a.x() * b.y() - a.y() * b.x()) > 0;
}
HARNESS(rotation_less, 0, "all pairs of nonzero 2D integer vectors") {
  Vector2 u = SVec2("u", 1), v = SVec2("v", 2);
  AssumeValid(u); AssumeValid(v);
  Check(u.IsRotationLessThan(v) == RotLess(u, v), "rotation order");
  Check(Vector2::RotationCompare()(v, u) == RotLess(v, u), "rotation compare");
  Reach("end");
}
static Vector2 Up(const Vector2& a) { return Half(a) ? -a : a; }
HARNESS(half_rotation_less, 0, "all pairs of nonzero 2D integer vectors") {
  Vector2 u = SVec2("u", 1), v = SVec2("v", 2);
  AssumeValid(u); AssumeValid(v);
  Check(u.IsHalfRotationLessThan(v) == RotLess(Up(u), Up(v)), "half rotation order");
  Check(Vector2::HalfRotationCompare()(v, u) == RotLess(Up(v), Up(u)), "half rotation compare");
  Reach("end");
}
template <typename F>
static void StrictWeak(bool ab, bool ba, bool bc, bool cb, bool ac, bool ca, F) {
  Check(!(ab && ba), "antisymmetric");
  Check(!(ab && bc) || ac, "transitive");
  Check(!(!ab && !ba && !bc && !cb) || (!ac && !ca), "equivalence is transitive");
}
HARNESS(rotation_order, 0, "all triples of nonzero 2D integer vectors") {
  Vector2 a = SVec2("a", 1), b = SVec2("b", 2), c = SVec2("c", 3);
  AssumeValid(a); AssumeValid(b); AssumeValid(c);
  Vector2::RotationCompare lt;
  StrictWeak(lt(a, b), lt(b, a), lt(b, c), lt(c, b), lt(a, c), lt(c, a), 0);
  Check(!lt(a, a), "irreflexive");
  Reach("end");
}
HARNESS(half_rotation_order, 0, "all triples of nonzero 2D integer vectors") {
  Vector2 a = SVec2("a", 1), b = SVec2("b", 2), c = SVec2("c", 3);
  AssumeValid(a); AssumeValid(b); AssumeValid(c);
  Vector2::HalfRotationCompare lt;
  StrictWeak(lt(a, b), lt(b, a), lt(b, c), lt(c, b), lt(a, c), lt(c, a), 0);
  Check(!lt(a, a), "irreflexive");
  Reach("end");
}
static HalfSpace2 SLine(const std::string& n, int g) {
  BigInt x = V(n + ".x", g), y = V(n + ".y", g), d = V(n + ".d", g);
  return HalfSpace2(x, y, d);
}
HARNESS(sideless_pair, 0, "all pairs of 2D lines") {
  HalfSpace2 a = SLine("a", 1), b = SLine("b", 2);
  AssumeValid(a.normal()); AssumeValid(b.normal());
  HalfSpace2SidelessCompare lt;
  // equivalent iff the same line
  bool same = Sg(a.x() * b.y() - a.y() * b.x()) == 0 && Sg(a.x() * b.d() - a.d() * b.x()) == 0 &&
              Sg(a.y() * b.d() - a.d() * b.y()) == 0;
  bool ab = lt(a, b), ba = lt(b, a);
  Check(!(ab && ba), "antisymmetric");
  Check((!ab && !ba) == same, "equivalent exactly for the same line");
  Check(lt(-a, b) == ab && lt(a, -b) == ab, "side does not matter");
  // angle dominates
  Vector2 u = Up(a.normal()), v = Up(b.normal());
  if (RotLess(u, v)) Check(ab, "angle decides first");
  Reach("end");
}
HARNESS(sideless_order, 0, "all triples of 2D lines with parallel normals (x=0 or x!=0), and all triples with the angles decided first") {
  HalfSpace2 a = SLine("a", 1), b = SLine("b", 2), c = SLine("c", 3);
  AssumeValid(a.normal()); AssumeValid(b.normal()); AssumeValid(c.normal());
  HalfSpace2SidelessCompare lt;
  StrictWeak(lt(a, b), lt(b, a), lt(b, c), lt(c, b), lt(a, c), lt(c, a), 0);
  Reach("end");
}
// R transform: comparing two bivectors in the XY plane after the shear
// z' = z + y/eps + x/eps^2 for all sufficiently small eps.  A bivector (a, b,
// c) (a plane normal) transforms with the inverse transpose:
//   x -= z/eps^2, y -= z/eps, z stays.
HARNESS(r_compare, 0, "all pairs of 3D bivectors; eps -> 0 decided by leading coefficients") {
  Vector3 u = SVec3("u", 1), v = SVec3("v", 2);
  // With z' = z + eps*y + eps^2*x a plane normal (a, b, c) becomes
  // (a - eps^2 c, b - eps c, c).  The cross product of two of those in the XY
  // plane is c0 + eps*c1 + eps^2*c2, decided by its first nonzero coefficient.
  BigInt c0 = u.x() * v.y() - u.y() * v.x();
  BigInt c1 = u.z() * v.x() - u.x() * v.z();
  BigInt c2 = u.y() * v.z() - u.z() * v.y();
  int got = Sg(RXYCompareBivector(u, v));
  int e0 = Sg(c0), e1 = Sg(c1), e2 = Sg(c2);
  int expect = e0 ? e0 : e1 ? e1 : e2;
  Check(got == expect, "sign of the transformed cross product");
  Check(Sg(RXYCompareBivector(v, u)) == -got, "antisymmetric");
  HalfSpace3 h(v, BigInt(0));
  SplitSide pos{&h, true}, neg{&h, false};
  Check(Sg(RXYCompareBivector(u, neg)) == got, "split side neg");
  Check(Sg(RXYCompareBivector(u, pos)) == -got, "split side pos");
  Reach("end");
}
HARNESS(r_transform_point, 0, "all homogeneous points, all eps_inv") {
  HomoPoint3 p = SHomo3("p", 1);
  BigInt e = V("e", 2);
  AssumePos(e);
  HomoPoint3 t = RTransform(p, e);
  // x' = x, y' = y, z' = z + y*(1/e) + x*(1/e^2)   (eps = 1/e)
  Check(Sg(t.x() * p.w() - p.x() * t.w()) == 0, "x kept");
  Check(Sg(t.y() * p.w() - p.y() * t.w()) == 0, "y kept");
  Check(Sg(t.z() * p.w() * e * e - (p.z() * e * e + p.y() * e + p.x()) * t.w()) == 0, "z sheared");
  Reach("end");
}
