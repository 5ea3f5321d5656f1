// C04: division, remainder, gcd.
#include "bi.h"

static BigInt FromWords(const uint64_t* w, int n) { return Bx::Make(w, n); }
static const uint64_t kDiv[][4] = {
  {1, 1, 0, 0}, {1, ~0ull, 0, 0}, {1, 2, 0, 0}, {1, 3, 0, 0}, {1, 10, 0, 0}, {1, ~0ull - 6, 0, 0},
  {1, 0x7fffffffull, 0, 0}, {1, 0x80000000ull, 0, 0}, {1, 0xffffffffull, 0, 0}, {1, 0x100000000ull, 0, 0}, {1, 0x100000001ull, 0, 0},
  {1, 0x7fffffffffffffffull, 0, 0}, {1, 0x8000000000000000ull, 0, 0}, {1, 0x4000000000000000ull, 0, 0},
  {2, 0x8000000000000000ull, 0, 0}, {2, ~0ull, 0, 0}, {2, 0, 1, 0}, {2, 1, 1, 0}, {2, ~0ull, ~0ull - 1, 0}, {2, 0, 0x80000000ull, 0},
  {2, ~0ull, 0xffffffffull, 0}, {2, 5, 0x7fffffffffffffffull, 0}, {2, 0, 0x8000000000000000ull, 0},
  {3, 0, 0, 1}, {3, ~0ull, ~0ull, 0x7fffffffffffffffull}, {3, 1, 0, ~0ull - 1}};
static const int kDivs = sizeof(kDiv) / sizeof(kDiv[0]);
static void Divide(const BigInt& a, const BigInt& b) {
  int za = Val(a), zb = Val(b);
  BigInt q, r;
  switch (ih_choose(3, "op")) {
    case 0: q = a.DivideRemainder(b, &r); break;
    case 1: q = a / b; r = a - q * b; break;
    default: { r = a % b; BigInt t; q = a.DivideRemainder(b, &t); ih_check(t == r, "a % b is the remainder"); break; }
  }
  z_check_zero(z_sub(z_add(z_mul(Val(q), zb), Val(r)), za), "quotient * divisor + remainder == dividend");
  int sr = z_sign(Val(r));
  int sa = z_sign(za), sb = z_sign(zb);
  ih_check(sr == 0 || sr == sa, "the remainder has the sign of the dividend");
  int absr = sr < 0 ? z_neg(Val(r)) : Val(r), absb = sb < 0 ? z_neg(zb) : zb;
  z_check_neg(z_sub(absr, absb), "|remainder| < |divisor|");
  ih_check(Canonical(q) && Canonical(r), "quotient and remainder are stored in the shortest form");
}
HARNESS(divide_const, 0, "all a of one word divided by 26 fixed divisors of 1 to 3 words (powers of two, their neighbours, extremes)") {
  const uint64_t* d = kDiv[ih_choose(kDivs, "divisor")];
  BigInt b = FromWords(d + 1, (int)d[0]);
  Divide(In(0, 1), b);
}
// n words, one of them arbitrary, the others extreme.
static BigInt OneFree(int n) {
  static const uint64_t kW[] = {0, ~0ull, 0x8000000000000000ull, 1};
  uint64_t w[4];
  int free = ih_choose(n, "free_word");
  for (int i = 0; i < n; ++i) {
    if (i == free) w[i] = (uint64_t)ih_sword("a");
    else { int k = ih_choose(ih_thorough() ? 4 : 3, "other_word"); w[i] = kW[k]; }
  }
  BigInt a = Bx::Make(w, n);
  ih_assume(Canonical(a));
  return a;
}
HARNESS(divide_wide, 0, "all a of two words divided by 6 fixed divisors of 2 to 3 words") {
  const uint64_t* d = kDiv[20 + ih_choose(kDivs - 20, "divisor")];
  BigInt b = FromWords(d + 1, (int)d[0]);
  Divide(In(0, 2), b);
}
HARNESS(divide_one_free, 0, "two-word dividends with one arbitrary word and the other extreme, divided by 2^64 and 2^95") {
  const uint64_t* d = kDiv[ih_choose(2, "divisor") ? 16 : 19];
  BigInt b = FromWords(d + 1, (int)d[0]);
  Divide(OneFree(2), b);
}
HARNESS(divide_const2, 1, "two-word dividends with one arbitrary word and the other extreme, divided by 26 fixed divisors of 1 to 3 words") {
  const uint64_t* d = kDiv[ih_choose(kDivs, "divisor")];
  BigInt b = FromWords(d + 1, (int)d[0]);
  Divide(OneFree(2), b);
}
HARNESS(divide_const3, 1, "three-word dividends with one arbitrary word and the others extreme, divided by 26 fixed divisors of 1 to 3 words") {
  const uint64_t* d = kDiv[ih_choose(kDivs, "divisor")];
  BigInt b = FromWords(d + 1, (int)d[0]);
  Divide(OneFree(3), b);
}
HARNESS(divide_words, 0, "all a, b of one word") {
  BigInt a = In(0, 1), b = In(1, 1);
  z_assume_nonzero(Val(b));
  Divide(a, b);
}

HARNESS(gcd, 0, "greatest common divisor of k*t + r and k for k in 1..12 of either sign, every |r| < k, all |t| < 2^58, in both argument orders") {
  int k = 1 + ih_choose(12, "k");
  int r = ih_choose(k, "r");
  bool nega = ih_choose(2, "negative_a") == 1;
  int small = ih_choose(3, "small_t");
  uint64_t t = small < 2 ? (uint64_t)small : (uint64_t)ih_range("t", 2, int64_t{1} << 58);
  uint64_t w = t * (uint64_t)k + (uint64_t)r;
  if (nega) w = (uint64_t)0 - w;
  BigInt a = Bx::Make(&w, 1);
  bool neg = ih_choose(2, "negative") == 1;
  BigInt b(neg ? -k : k);
  BigInt g = ih_choose(2, "order") == 0 ? a.GetGreatestCommonDivisor(b) : b.GetGreatestCommonDivisor(a);
  int x = k, y = r;
  while (y) { int m = x % y; x = y; y = m; }
  ih_check(g == BigInt(x) || g == BigInt(-x), "greatest common divisor up to its sign");
}
HARNESS(gcd_zero, 0, "greatest common divisor with 0, for all one- and two-word numbers") {
  BigInt a = InUpTo(0, 2);
  BigInt z(0);
  BigInt g = ih_choose(2, "order") == 0 ? a.GetGreatestCommonDivisor(z) : z.GetGreatestCommonDivisor(a);
  int s = z_sign(Val(a));
  z_check_zero(z_sub(Val(g), (s < 0) != (z_sign(Val(g)) < 0) ? z_neg(Val(a)) : Val(a)), "gcd(a, 0) is a up to its sign");
}
