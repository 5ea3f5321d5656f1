#include "geo.h"
#include "walnut/rational.h"
using namespace geo;

HARNESS(less_equal, 0, "all integers n1,d1!=0,n2,d2!=0, any sign") {
  BigInt n1 = V("n1", 1), d1 = NZ("d1", 1), n2 = V("n2", 2), d2 = NZ("d2", 2);
  int truth = Sg(n1 * d2 - n2 * d1) * Sg(d1) * Sg(d2);
  Check(rational::IsLessThan(n1, d1, n2, d2) == (truth < 0), "n1/d1 < n2/d2");
  Check(rational::IsLessThan(n2, d2, n1, d1) == (truth > 0), "n2/d2 < n1/d1");
  Check(rational::Equals(n1, d1, n2, d2) == (truth == 0), "n1/d1 == n2/d2");
  Reach("end");
}
HARNESS(scaling, 0, "all integers n,d!=0,k!=0,m,e!=0") {
  BigInt n = V("n", 1), d = NZ("d", 1), m = V("m", 2), e = NZ("e", 2), k = NZ("k", 3);
  Check(rational::Equals(n, d, n * k, d * k), "equal after scaling");
  bool l = rational::IsLessThan(n, d, m, e);
  Check(rational::IsLessThan(n * k, d * k, m, e) == l, "less independent of scaling (left)");
  Check(rational::IsLessThan(n, d, m * k, e * k) == l, "less independent of scaling (right)");
  Reach("end");
}
// RoundUp: smallest integer q with q/nd >= n/od  (nd of either sign: closest
// rational of that form that is >= the old one).
HARNESS(round_up, 0, "all integers n, od!=0, nd!=0 (integrality of quotients relaxed to |r|<|od|)") {
  BigInt n = V("n", 0), od = NZ("od", 0), nd = NZ("nd", 0);
  BigInt q = rational::RoundUp(n, od, nd);
  // q/nd - n/od = (q*od - n*nd)/(nd*od)
  BigInt diff = q * od - n * nd;
  int s = Sg(diff) * Sg(nd) * Sg(od);
  Check(s >= 0, "rounded value is not below");
  // one grid step less is below: |diff| < |od|
  BigInt ad = Sg(diff) < 0 ? -diff : diff, ao = Sg(od) < 0 ? -od : od;
  Check(Sg(ao - ad) > 0, "rounded value is the closest");
  Reach("end");
}
HARNESS(round_down, 0, "all integers n, od!=0, nd!=0 (integrality of quotients relaxed to |r|<|od|)") {
  BigInt n = V("n", 0), od = NZ("od", 0), nd = NZ("nd", 0);
  BigInt q = rational::RoundDown(n, od, nd);
  BigInt diff = q * od - n * nd;
  int s = Sg(diff) * Sg(nd) * Sg(od);
  Check(s <= 0, "rounded value is not above");
  BigInt ad = Sg(diff) < 0 ? -diff : diff, ao = Sg(od) < 0 ? -od : od;
  Check(Sg(ao - ad) > 0, "rounded value is the closest");
  Reach("end");
}
// Half rotation order of fractions: angle of the line through the origin, in
// [0, pi): compared through the cross product of the upward representatives.
static void Up(BigInt& x, BigInt& y) {
  if (Sg(y) < 0 || (Sg(y) == 0 && Sg(x) < 0)) { x = -x; y = -y; }
}
HARNESS(half_rotation, 0, "all pairs of nonzero integer vectors") {
  BigInt x1 = V("x1", 1), y1 = V("y1", 1), x2 = V("x2", 2), y2 = V("y2", 2);
  AssumeValid(Vector2(x1, y1));
  AssumeValid(Vector2(x2, y2));
  BigInt a = x1, b = y1, c = x2, d = y2;
  Up(a, b); Up(c, d);
  bool truth = Sg(a * d - b * c) > 0;
  Check(rational::IsHalfRotationLessThan(x1, y1, x2, y2, y1 * x2, y2 * x1) == truth, "half rotation order");
  Reach("end");
}
