#include "polys.h"
#include "walnut/aabb.h"
using namespace geo;

namespace {
struct Box { Vector3 lo, hi; BigInt den; };  // den may be negative
Box SBox() {
  Box b;
  b.lo = SVec3("lo"); b.hi = SVec3("hi"); b.den = NZ("den");
  return b;
}
int NormComp(const Box& b, bool hi, int c, const BigInt& x, const BigInt& w) {
  // sign of x/w - bound/den
  return Sg(x * b.den - Comp(hi ? b.hi : b.lo, c) * w) * Sg(w) * Sg(b.den);
}
HomoPoint3 Corner(const Box& b, int i) {
  return HomoPoint3(i & 1 ? b.hi.x() : b.lo.x(), i & 2 ? b.hi.y() : b.lo.y(), i & 4 ? b.hi.z() : b.lo.z(), b.den);
}
void AssumeSolid(const Box& b) {
  for (int i = 0; i < 3; ++i) AssumePos((Comp(b.hi, i) - Comp(b.lo, i)) * b.den);
}
void AssumeOrdered(const Box& b) {
  for (int i = 0; i < 3; ++i) AssumeNonNeg((Comp(b.hi, i) - Comp(b.lo, i)) * b.den);
}
Box ConcreteBox(int i) {
  static const int k[][7] = {{0, 0, 0, 1, 1, 1, 1}, {-1, -2, 3, 4, 2, 5, 1}, {-3, 1, -5, 2, 7, -1, 2}, {3, 2, 1, -4, -1, -2, -3}};
  Box b;
  b.lo = Vector3(k[i][0], k[i][1], k[i][2]);
  b.hi = Vector3(k[i][3], k[i][4], k[i][5]);
  b.den = BigInt(k[i][6]);
  return b;
}
}  // namespace
HARNESS(containment_homo, 0, "all boxes with rational bounds (any denominator sign, also inverted ones), all homogeneous points") {
  Box b = SBox();
  AABB a(b.lo, b.hi, b.den);
  Check(Sg(a.denom()) > 0, "denominator is positive");
  HomoPoint3 p = SHomo3("p", 2);
  bool in = true, on = false;
  for (int i = 0; i < 3; ++i) {
    int lo = NormComp(b, false, i, Comp(p.vector_from_origin(), i), p.w());
    int hi = NormComp(b, true, i, Comp(p.vector_from_origin(), i), p.w());
    in = in && lo >= 0 && hi <= 0;
    on = on || lo == 0 || hi == 0;
    if (!in) break;
  }
  Check(a.IsInside(p) == in, "inside");
  Check(a.IsOnBorder(p) == (in && on), "on the border");
  Reach("end");
}
HARNESS(containment_int, 0, "all boxes with rational bounds, all integer points") {
  Box b = SBox();
  AABB a(b.lo, b.hi, b.den);
  Point3 p = SPoint3("p", 0);
  bool in = true, on = false;
  for (int i = 0; i < 3; ++i) {
    int lo = NormComp(b, false, i, p.components()[i], BigInt(1));
    int hi = NormComp(b, true, i, p.components()[i], BigInt(1));
    in = in && lo >= 0 && hi <= 0;
    on = on || lo == 0 || hi == 0;
    if (!in) break;
  }
  Check(a.IsInside(p) == in, "inside");
  Check(a.IsOnBorder(p) == (in && on), "on the border");
  Reach("end");
}
HARNESS(constructors, 0, "all integer and rational bounds") {
  Point3 p = SPoint3("p", 0), q = SPoint3("q", 0);
  AABB a(p, q), b(p.x(), p.y(), p.z(), q.x(), q.y(), q.z());
  BigInt k = NZ("k", 0);
  AABB c(p.x() * k, p.y() * k, p.z() * k, q.x() * k, q.y() * k, q.z() * k, k);
  for (const AABB* x : {&a, &b, &c}) {
    Check(SameLoc(x->min_point(), HomoPoint3(p)) && SameLoc(x->max_point(), HomoPoint3(q)), "corner points");
    Check(*x == a && !(*x != a), "equal representations");
  }
  AABB e;
  HomoPoint3 r = SHomo3("r", 3);
  Check(!e.IsInside(r), "the default box is empty");
  Check(!e.IsInside(p) && !e.IsOnBorder(p) && !e.IsOnBorder(r), "the default box is empty");
  Vector3 dv = q.vector_from_origin() - p.vector_from_origin();
  Check(Sg(c.GetSquaredDiagonalLengthNumerator() - DotR(dv, dv) * k * k) == 0, "squared diagonal numerator");
  Reach("end");
}
HARNESS(equality, 0, "all pairs of boxes with rational bounds") {
  Box b = SBox();
  Box c;
  c.lo = SVec3("lo2", 2); c.hi = SVec3("hi2", 2); c.den = NZ("den2", 2);
  AABB x(b.lo, b.hi, b.den), y(c.lo, c.hi, c.den);
  bool same = true;
  for (int i = 0; i < 3 && same; ++i) same = Sg(Comp(b.lo, i) * c.den - Comp(c.lo, i) * b.den) == 0;
  for (int i = 0; i < 3 && same; ++i) same = Sg(Comp(b.hi, i) * c.den - Comp(c.hi, i) * b.den) == 0;
  Check((x == y) == same && (x != y) == !same, "equal exactly when the bounds are equal");
  Reach("end");
}
static void PlaneSide(const Box& b, const HalfSpace3& h, bool full) {
  AABB a(b.lo, b.hi, b.den);
  bool neg = false, pos = false, zero = false;
  int side = Sg(a.GetPlaneSide(h));
  // -1 / 1: every corner is strictly on that side
  bool all_neg = true, all_pos = true;
  for (int i = 0; i < 8; ++i) {
    int s = SideR(h, Corner(b, i));
    neg |= s < 0; pos |= s > 0; zero |= s == 0;
    all_neg = all_neg && s < 0;
    all_pos = all_pos && s > 0;
  }
  Check(side == (all_neg ? -1 : all_pos ? 1 : 0), "side of the plane");
  if (!full) return;
  auto p = a.IntersectPlane(h);
  if (all_neg || all_pos) { Check(p.vertex_count() == 0, "no intersection"); Reach("none"); return; }
  // A cross section with area exists when corners are on both sides or a
  // whole face is in the plane.
  std::vector<HomoPoint3> exp;
  for (int i = 0; i < 8; ++i) if (SideR(h, Corner(b, i)) == 0) exp.push_back(Corner(b, i));
  bool area = (neg && pos) || exp.size() >= 4;
  for (int i = 0; i < 8; ++i) for (int d = 0; d < 3; ++d) if (!(i >> d & 1)) {
    int j = i | 1 << d;
    if (SideR(h, Corner(b, i)) * SideR(h, Corner(b, j)) < 0) exp.push_back(CrossPoint(h, Corner(b, i), Corner(b, j)));
  }
  if (area) {
    Check(p.vertex_count() == exp.size(), "cross section has one vertex per crossed edge or corner");
    for (size_t i = 0; i < exp.size(); ++i) {
      int n = 0;
      for (size_t j = 0; j < p.vertex_count(); ++j) n += SameLoc(p.vertex(j), exp[i]);
      Check(n == 1, "every crossing is a vertex");
    }
    CheckValid(p, "cross section is a valid polygon");
    Check(SamePlaneR(p.plane(), h), "cross section is in the plane, with its orientation");
  } else {
    Check(p.vertex_count() == 0, "touching at an edge or corner is no cross section");
  }
  Reach("end");
}
HARNESS(plane_cross_section, 0, "4 boxes, all planes with a nonzero normal") {
  Box b = ConcreteBox(Choose(4, "box"));
  HalfSpace3 h = SPlane("h", 1);
  AssumeValid(h.normal());
  PlaneSide(b, h, true);
}
HARNESS(plane_side_any_box, 0, "all solid boxes with rational bounds, planes perpendicular to an axis or with normals (1,1,1), (1,-2,3), (0,-1,2)") {
  static const int kN[][3] = {{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {1, 1, 1}, {1, -2, 3}, {0, -1, 2}};
  Box b = SBox();
  AssumeOrdered(b);
  int i = Choose(6, "normal");
  HalfSpace3 h(BigInt(kN[i][0]), BigInt(kN[i][1]), BigInt(kN[i][2]), V("d", 0));
  PlaneSide(b, h, false);
}
HARNESS(axis_cross_section, 0, "all solid boxes with integer bounds and unit 1, all planes perpendicular to an axis, both orientations") {
  Box b;
  b.lo = SVec3("lo"); b.hi = SVec3("hi"); b.den = BigInt(1);
  AssumeSolid(b);
  int dim = Choose(3, "dim"), flip = Choose(2, "flip");
  BigInt n[3] = {BigInt(0), BigInt(0), BigInt(0)};
  n[dim] = BigInt(flip ? -1 : 1);
  HalfSpace3 h(n[0], n[1], n[2], V("d"));
  PlaneSide(b, h, true);
}
HARNESS(walls, 0, "all boxes with rational bounds, also flat ones") {
  Box b = SBox();
  AssumeOrdered(b);
  AABB a(b.lo, b.hi, b.den);
  bool flat[3];
  for (int i = 0; i < 3; ++i) flat[i] = Sg(Comp(b.hi, i) - Comp(b.lo, i)) == 0;
  auto w = a.GetWalls();
  size_t k = 0;
  int seen[3][2] = {};
  for (auto& p : w) {
    Check(p.vertex_count() == 4, "walls are rectangles");
    CheckValid(p, "walls are valid polygons");
    const Vector3& n = p.plane().normal();
    int dim = -1;
    for (int i = 0; i < 3; ++i) if (Sg(Comp(n, i)) != 0) { Check(dim < 0, "walls are perpendicular to an axis"); dim = i; }
    int up = Sg(Comp(n, dim)) > 0;
    seen[dim][up]++;
    // vertices are the 4 corners of that side
    for (int c = 0; c < 8; ++c) {
      if ((c >> dim & 1) != up) continue;
      int cnt = 0;
      for (int j = 0; j < 4; ++j) cnt += SameLoc(p.vertex(j), Corner(b, c));
      Check(cnt == 1, "wall has the corners of its side");
    }
  }
  for (int i = 0; i < 3; ++i) {
    bool exist = !flat[(i + 1) % 3] && !flat[(i + 2) % 3];
    Check(seen[i][0] == exist && seen[i][1] == exist, "each side with area has exactly one wall, facing outwards");
  }
  (void)k;
  Reach("end");
}
HARNESS(diagonal_length, 0, "boxes of 3 by 4 by 12 (diagonal 13) divided by 1..8, denominators of both signs (concrete: the square root is outside the solver)") {
  int d = 1 + Choose(8, "denom"), neg = Choose(2, "neg");
  int k = neg ? -1 : 1;
  BigInt unused = V("unused");
  (void)unused;
  AABB a(Vector3(BigInt(k), BigInt(2 * k), BigInt(-k)), Vector3(BigInt(4 * k), BigInt(6 * k), BigInt(11 * k)), BigInt(k * d));
  double l = a.GetDiagonalLength() * d;
  Check(l > 13 - 1e-9 && l < 13 + 1e-9, "diagonal length");
  Reach("end");
}
