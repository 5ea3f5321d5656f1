// C01: ring arithmetic is exact.
#include "bi.h"

HARNESS(add_sub, 0, "a + b, a - b for all a, b of up to 3 words (4 thorough)") {
  int m = ih_thorough() ? 4 : 3;
  BigInt a = InUpTo(0, m), b = InUpTo(1, m);
  int za = Val(a), zb = Val(b);
  switch (ih_choose(4, "op")) {
    case 0: CheckIs(a + b, z_add(za, zb), "a + b"); break;
    case 1: CheckIs(a - b, z_sub(za, zb), "a - b"); break;
    case 2: a += b; CheckIs(a, z_add(za, zb), "a += b"); break;
    default: a -= b; CheckIs(a, z_sub(za, zb), "a -= b"); break;
  }
  z_check_zero(z_sub(Val(b), zb), "the right operand is unchanged");
}
HARNESS(multiply, 0, "a * b for all a, b of up to 2 words, and of 3 words by 1 word (3 by 2 and 3 by 3 words thorough)") {
  int n = 1 + ih_choose(3, "a_words"), m = 1 + ih_choose(3, "b_words");
  ih_assume(ih_thorough() || (n < 3 && m < 3) || n == 1 || m == 1);
  BigInt a = In(0, n), b = In(1, m);
  int zp = z_mul(Val(a), Val(b));
  CheckIs(a * b, zp, "a * b");
}
static const uint64_t kWide[][4] = {
  {4, 1, 0, 1}, {4, 0, 0, 0}, {4, ~0ull, ~0ull, ~0ull}, {3, 0, 0, 1ull << 63}, {3, 0, 1, ~0ull - 1}, {3, 5, ~0ull, 7},
  {2, 0, 1ull << 63, 0}, {2, ~0ull, 1, 0}, {3, 1ull << 63, 1ull << 63, 3}};
// Wide operands against extreme wide constants: linear, so decided quickly.
static BigInt Wide(int i) {
  uint64_t w[4]; int n = (int)kWide[i][0];
  for (int k = 0; k < n; ++k) w[k] = k < 3 ? kWide[i][k + 1] : (kWide[i][3] >> 63 ? ~0ull : 0);
  if (n == 4) w[3] = i & 1 ? 0x8000000000000000ull : 0x7fffffffffffffffull;
  if (n == 2 && w[1] == 0) w[1] = 9;
  return Bx::Make(w, n);
}
HARNESS(multiply_wide, 0, "a * b and b * a for all a of up to 2 words (3 thorough) and 9 fixed b of 2 to 4 words with extreme words") {
  BigInt b = Wide(ih_choose(9, "constant"));
  ih_check(Canonical(b), "harness constant");
  BigInt a = InUpTo(0, ih_thorough() ? 3 : 2);
  int zp = z_mul(Val(a), Val(b));
  if (ih_choose(2, "order")) CheckIs(a * b, zp, "a * b"); else CheckIs(b * a, zp, "b * a");
}
HARNESS(multiply_assign, 0, "a *= b for all a, b of up to 2 words, a *= a") {
  BigInt a = InUpTo(0, 2);
  int za = Val(a);
  if (ih_choose(2, "alias")) { int zp = z_mul(za, za); a *= a; CheckIs(a, zp, "a *= a"); return; }
  BigInt b = InUpTo(1, 2);
  int zp = z_mul(za, Val(b));
  a *= b;
  CheckIs(a, zp, "a *= b");
}
HARNESS(fused, 0, "c += a*b and c -= a*b for all a, b of one word and c of up to 3 words, and a of 2 words with b, c of one word (all of up to 2, 2 and 3 words thorough)") {
  int n = 1 + ih_choose(2, "a_words"), m = 1 + ih_choose(2, "b_words"), k = 1 + ih_choose(3, "c_words");
  ih_assume(ih_thorough() || (n == 1 && m == 1) || (m == 1 && k == 1));
  BigInt a = In(0, n), b = In(1, m), c = In(2, k);
  int zp = z_mul(Val(a), Val(b)), zc = Val(c);
  if (ih_choose(2, "op")) { c.SubtractMultiply(a, b); CheckIs(c, z_sub(zc, zp), "c - a*b"); }
  else { c.AddMultiply(a, b); CheckIs(c, z_add(zc, zp), "c + a*b"); }
}
HARNESS(fused_alias, 0, "c += c*b, c -= b*c, c += c*c for b, c of one word (of up to 2 words thorough)") {
  int n = 1 + ih_choose(2, "b_words"), m = 1 + ih_choose(2, "c_words");
  ih_assume(ih_thorough() || (n == 1 && m == 1));
  BigInt b = In(1, n), c = In(2, m);
  int zb = Val(b), zc = Val(c);
  int op = ih_choose(4, "op");
  ih_assume(ih_thorough() || op < 2 || (m == 1 && n == 1));
  int zp = op < 2 ? z_mul(zc, zb) : z_mul(zc, zc);
  switch (op) {
    case 0: c.AddMultiply(c, b); CheckIs(c, z_add(zc, zp), "c += c*b"); break;
    case 1: c.SubtractMultiply(b, c); CheckIs(c, z_sub(zc, zp), "c -= b*c"); break;
    case 2: c.AddMultiply(c, c); CheckIs(c, z_add(zc, zp), "c += c*c"); break;
    default: c.SubtractMultiply(c, c); CheckIs(c, z_sub(zc, zp), "c -= c*c"); break;
  }
}
HARNESS(unary, 0, "-a, |a|, ++a, --a for all a of up to 4 words") {
  BigInt a = InUpTo(0, 4);
  int za = Val(a);
  int neg = z_sign(za) < 0;
  switch (ih_choose(7, "op")) {
    case 0: CheckIs(-a, z_neg(za), "-a"); break;
    case 1: a.Negate(); CheckIs(a, z_neg(za), "Negate"); break;
    case 2: CheckIs(a.abs(), neg ? z_neg(za) : za, "abs"); break;
    case 3: ++a; CheckIs(a, z_add(za, z_s(1)), "++a"); break;
    case 4: --a; CheckIs(a, z_sub(za, z_s(1)), "--a"); break;
    case 5: {
      bool s = false; BigInt r = a.GetAbs(s);
      CheckIs(r, neg ? z_neg(za) : za, "GetAbs"); ih_check(s == (neg != 0), "GetAbs sign"); break;
    }
    default: {
      bool s = false; BigUInt r = a.GetUIntAbs(&s);
      z_check_zero(z_sub(ValU(r), neg ? z_neg(za) : za), "GetUIntAbs"); ih_check(s == (neg != 0), "GetUIntAbs sign");
      BigInt back(r); CheckIs(back, neg ? z_neg(za) : za, "BigInt(BigUInt)");
      BigInt as(0); as = r; CheckIs(as, neg ? z_neg(za) : za, "BigInt = BigUInt"); break;
    }
  }
}
HARNESS(machine_int, 0, "a op int for all a of up to 3 words and every 32-bit int; construction and assignment from every 64-bit int") {
  int m = (int)ih_range("int", INT32_MIN, INT32_MAX);
  int zm = z_s(m);
  int op = ih_choose(9, "op");
  if (op >= 7) {
    int64_t w = ih_sword("long");
    BigInt x(w); CheckIs(x, z_s(w), "BigInt(int64)");
    BigInt y = In(0, 1 + ih_choose(3, "old")); y = w; CheckIs(y, z_s(w), "BigInt = int64");
    if (op == 8) { BigInt a = InUpTo(1, 2); CheckIs(a * w, z_mul(Val(a), z_s(w)), "a * int64"); }
    return;
  }
  BigInt a = InUpTo(0, 3);
  int za = Val(a);
  switch (op) {
    case 0: CheckIs(a + m, z_add(za, zm), "a + int"); break;
    case 1: CheckIs(a - m, z_sub(za, zm), "a - int"); break;
    case 2: CheckIs(a * m, z_mul(za, zm), "a * int"); break;
    case 3: CheckIs(m * a, z_mul(za, zm), "int * a"); break;
    case 4: a += m; CheckIs(a, z_add(za, zm), "a += int"); break;
    case 5: a -= m; CheckIs(a, z_sub(za, zm), "a -= int"); break;
    default: a *= m; CheckIs(a, z_mul(za, zm), "a *= int"); break;
  }
}
HARNESS(alias, 0, "a += a, a -= a, a + a, a - a, a = a for all a of up to 3 words, a * a of up to 2 words (3 thorough)") {
  int n = 1 + ih_choose(3, "a_words");
  BigInt a = In(0, n);
  int za = Val(a);
  int op = ih_choose(6, "op");
  ih_assume(ih_thorough() || op != 4 || n < 3);
  switch (op) {
    case 0: a += a; CheckIs(a, z_add(za, za), "a += a"); break;
    case 1: a -= a; CheckIs(a, z_s(0), "a -= a"); break;
    case 2: CheckIs(a + a, z_add(za, za), "a + a"); break;
    case 3: CheckIs(a - a, z_s(0), "a - a"); break;
    case 4: CheckIs(a * a, z_mul(za, za), "a * a"); break;
    default: { BigInt& r = a; a = r; CheckIs(a, za, "a = a"); break; }
  }
}
HARNESS(chain, 0, "histories: two operations from + - ++ -- negate copy move assign on one object, operands of up to 2 words") {
  BigInt a = InUpTo(0, 2), b = InUpTo(1, 2);
  int za = Val(a), zb = Val(b);
  for (int i = 0; i < 2; ++i) {
    switch (ih_choose(8, i ? "op2" : "op1")) {
      case 0: a += b; za = z_add(za, zb); break;
      case 1: a -= b; za = z_sub(za, zb); break;
      case 2: ++a; za = z_add(za, z_s(1)); break;
      case 3: --a; za = z_sub(za, z_s(1)); break;
      case 4: a.Negate(); za = z_neg(za); break;
      case 5: { BigInt c(a); a = b; z_check_zero(z_sub(Val(c), za), "copy keeps its value"); za = zb; break; }
      case 6: { BigInt c(std::move(a)); a = BigInt(5); a = c; z_check_zero(z_sub(Val(a), za), "move and assign back"); break; }
      default: { BigInt t = a - b; a = std::move(t); za = z_sub(za, zb); break; }
    }
    CheckIs(a, za, "value after the history");
  }
}
HARNESS(extremes, 0, "max_value(n), min_value(n) for n up to 130") {
  int n = ih_choose(131, "bits");
  CheckIs(BigInt::max_value((size_t)n), z_sub(z_shl(z_s(1), n), z_s(1)), "max_value");
  CheckIs(BigInt::min_value((size_t)n), z_neg(z_shl(z_s(1), n)), "min_value");
}
HARNESS(determinant, 0, "2x2 determinant of all entries of one word") {
  BigInt a = In(0, 1), b = In(1, 1), c = In(2, 1);
  uint64_t w = (uint64_t)ih_sword("d0");
  BigInt d = Bx::Make(&w, 1);
  CheckIs(BigInt::Determinant(a, b, c, d), z_sub(z_mul(Val(a), Val(d)), z_mul(Val(b), Val(c))), "determinant");
}
HARNESS(multiply_big, 1, "a * b for a of 4 words and b of up to 4 words") {
  BigInt a = In(0, 4), b = InUpTo(1, 4);
  int zp = z_mul(Val(a), Val(b));
  CheckIs(a * b, zp, "a * b");
}
