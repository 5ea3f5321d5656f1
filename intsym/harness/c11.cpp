#include "geo.h"
#include "walnut/half_space2_sideless_compare.h"
#include "walnut/half_space3.h"
using namespace geo;

static HalfSpace2 SLine(const std::string& n, int g) {
  BigInt x = V(n + ".x", g), y = V(n + ".y", g), d = V(n + ".d", g);
  return HalfSpace2(x, y, d);
}
template <typename T, typename F>
static void Order3(const T& a, const T& b, const T& c, F lt) {
  bool ab = lt(a, b), ba = lt(b, a), bc = lt(b, c), cb = lt(c, b), ac = lt(a, c), ca = lt(c, a);
  Check(!(ab && ba) && !(bc && cb) && !(ac && ca), "antisymmetric");
  Check(!(ab && bc) || ac, "transitive");
  Check(!(!ab && !ba && !bc && !cb) || (!ac && !ca), "equivalence is transitive");
  Check(!lt(a, a), "irreflexive");
}
HARNESS(plane_key_pair, 0, "all pairs of valid planes") {
  HalfSpace3 a = SPlane("a", 1), b = SPlane("b", 2);
  AssumeValid(a.normal()); AssumeValid(b.normal());
  HalfSpace3Compare lt;
  bool ab = lt(a, b), ba = lt(b, a);
  Check(!(ab && ba), "antisymmetric");
  Check((!ab && !ba) == SamePlaneR(a, b), "equivalent exactly for the same half-space");
  Reach("end");
}
HARNESS(plane_key_order_xy, 0, "all triples of planes with normal (x, y, 0) and distance 0") {
  BigInt z(0);
  BigInt ax = V("a.x", 1), ay = V("a.y", 1), bx = V("b.x", 2), by = V("b.y", 2), cx = V("c.x", 3), cy = V("c.y", 3);
  HalfSpace3 a(ax, ay, z, z), b(bx, by, z, z), c(cx, cy, z, z);
  AssumeValid(a.normal()); AssumeValid(b.normal()); AssumeValid(c.normal());
  Order3(a, b, c, HalfSpace3Compare());
  Reach("end");
}
HARNESS(plane_key_order_scaled, 0, "all triples of parallel planes (either orientation)") {
  Vector3 n = SVec3("n", 1);
  AssumeValid(n);
  BigInt k1 = NZ("k1", 2), k2 = NZ("k2", 3);
  HalfSpace3 a(n, V("d1", 1)), b(n * k1, V("d2", 4)), c(n * k2, V("d3", 5));
  Order3(a, b, c, HalfSpace3Compare());
  Reach("end");
}
HARNESS(plane_key_order, 1, "all triples of valid planes") {
  HalfSpace3 a = SPlane("a", 1), b = SPlane("b", 2), c = SPlane("c", 3);
  AssumeValid(a.normal()); AssumeValid(b.normal()); AssumeValid(c.normal());
  Order3(a, b, c, HalfSpace3Compare());
  Reach("end");
}
HARNESS(line_key_pair, 0, "all pairs of valid 2D lines") {
  HalfSpace2 a = SLine("a", 1), b = SLine("b", 2);
  AssumeValid(a.normal()); AssumeValid(b.normal());
  HalfSpace2SidelessCompare lt;
  bool same = Sg(a.x() * b.y() - a.y() * b.x()) == 0 && Sg(a.x() * b.d() - a.d() * b.x()) == 0 &&
              Sg(a.y() * b.d() - a.d() * b.y()) == 0;
  bool ab = lt(a, b), ba = lt(b, a);
  Check(!(ab && ba), "antisymmetric");
  Check((!ab && !ba) == same, "equivalent exactly for the same line");
  Reach("end");
}
HARNESS(line_key_order, 0, "all triples of valid 2D lines") {
  HalfSpace2 a = SLine("a", 1), b = SLine("b", 2), c = SLine("c", 3);
  AssumeValid(a.normal()); AssumeValid(b.normal()); AssumeValid(c.normal());
  Order3(a, b, c, HalfSpace2SidelessCompare());
  Reach("end");
}
HARNESS(point_key_order, 0, "all triples of homogeneous points whose later components are equal (x symbolic)") {
  BigInt z(0);
  BigInt ax = V("a.x", 1), aw = NZ("a.w", 1), bx = V("b.x", 2), bw = NZ("b.w", 2), cx = V("c.x", 3), cw = NZ("c.w", 3);
  HomoPoint3 a(ax, z, z, aw), b(bx, z, z, bw), c(cx, z, z, cw);
  Order3(a, b, c, [](const HomoPoint3& p, const HomoPoint3& q) { return HomoPoint3::LexicographicallyLt(p, q); });
  Order3(a, b, c, [](const HomoPoint3& p, const HomoPoint3& q) { return HomoPoint3::TopnessLt(p, q); });
  Reach("end");
}
HARNESS(point_key_pair, 0, "all pairs of homogeneous points") {
  HomoPoint3 a = SHomo3("a", 1), b = SHomo3("b", 2);
  bool same = SameLoc(a, b);
  Check((!HomoPoint3::LexicographicallyLt(a, b) && !HomoPoint3::LexicographicallyLt(b, a)) == same, "lexicographic equivalence is equality");
  Check((!HomoPoint3::TopnessLt(a, b) && !HomoPoint3::TopnessLt(b, a)) == same, "topness equivalence is equality");
  Reach("end");
}
HARNESS(reduced_hash, 0, "all pairs of homogeneous points with equal components") {
  HomoPoint3 a = SHomo3("a", 1);
  HomoPoint3 b = a;
  Check(ReducedHomoPoint3Hasher()(a) == ReducedHomoPoint3Hasher()(b), "equal points hash equally");
  Check(HomoPoint3StrictEq()(a, b), "strictly equal");
  Reach("end");
}
