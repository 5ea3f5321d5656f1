// C02: comparisons, equality, sign queries, hash and canonical form.
#include "bi.h"

HARNESS(compare, 0, "a < <= > >= == != b, Compare, LessThan with and without flip, hash of equals, for all a, b of up to 3 words (4 thorough)") {
  int m = ih_thorough() ? 4 : 3;
  BigInt a = InUpTo(0, m), b = InUpTo(1, m);
  int s = z_sign(z_sub(Val(a), Val(b)));
  ih_check((a < b) == (s < 0), "a < b");
  ih_check((a <= b) == (s <= 0), "a <= b");
  ih_check((a > b) == (s > 0), "a > b");
  ih_check((a >= b) == (s >= 0), "a >= b");
  ih_check((a == b) == (s == 0), "a == b");
  ih_check((a != b) == (s != 0), "a != b");
  int c = a.Compare(b);
  ih_check((c < 0) == (s < 0) && (c > 0) == (s > 0), "Compare");
  ih_check(a.LessThan(false, b) == (s < 0), "LessThan");
  ih_check(a.LessThan(true, b) == (s > 0), "flipped LessThan");
  ih_check(BigInt::FlippableCompare(true)(a, b) == (s > 0), "FlippableCompare");
  if (s == 0) ih_check(a.GetHash() == b.GetHash(), "equal numbers have equal hashes");
}
HARNESS(compare_self, 0, "a compared with itself and with a copy, for all a of up to 4 words") {
  BigInt a = InUpTo(0, 4);
  BigInt b(a);
  ih_check(a == a && a <= a && a >= a && !(a < a) && !(a > a) && !(a != a) && a.Compare(a) == 0, "a against a");
  ih_check(a == b && a <= b && a >= b && !(a < b) && !(a > b) && !(a != b) && a.Compare(b) == 0, "a against its copy");
  ih_check(!a.LessThan(false, b) && !a.LessThan(true, b), "LessThan against its copy");
  ih_check(a.GetHash() == b.GetHash() && b.used_words() == a.used_words(), "hash and storage of a copy");
}
HARNESS(compare_int, 0, "a < <= > >= == != m for all a of up to 3 words and every 32-bit m") {
  int m = (int)ih_range("int", INT32_MIN, INT32_MAX);
  BigInt a = InUpTo(0, 3);
  int s = z_sign(z_sub(Val(a), z_s(m)));
  ih_check((a < m) == (s < 0), "a < int");
  ih_check((a <= m) == (s <= 0), "a <= int");
  ih_check((a > m) == (s > 0), "a > int");
  ih_check((a >= m) == (s >= 0), "a >= int");
  ih_check((a == m) == (s == 0), "a == int");
  ih_check((a != m) == (s != 0), "a != int");
}
HARNESS(signs, 0, "sign queries for all a, b of up to 3 words") {
  BigInt a = InUpTo(0, 3), b = InUpTo(1, 3);
  int sa = z_sign(Val(a)), sb = z_sign(Val(b));
  int64_t g = (int64_t)a.GetSign();
  ih_check((g < 0) == (sa < 0) && (g > 0) == (sa > 0), "GetSign");
  ih_check(a.IsZero() == (sa == 0), "IsZero");
  ih_check(a.IsNegative() == (sa < 0), "IsNegative");
  ih_check(a.SignExtension() == BigInt(sa < 0 ? -1 : 0).SignExtension(), "SignExtension");
  ih_check(a.GetAbsMult() == (sa < 0 ? -1 : 1), "GetAbsMult");
  ih_check(a.GetAbsMult(b) == ((sa < 0) == (sb < 0) ? 1 : -1), "GetAbsMult of two");
  ih_check(a.HasSameSign(b) == ((sa < 0) == (sb < 0)), "HasSameSign");
  ih_check(a.HasDifferentSign(b) == ((sa < 0) != (sb < 0)), "HasDifferentSign");
}
HARNESS(half_words, 0, "half word tests for all a, b, c of up to 2 words") {
  BigInt a = InUpTo(0, 2), b = InUpTo(1, 2), c = InUpTo(2, 2);
  auto small = [](const BigInt& x) {
    int z = Val(x);
    return z_sign(z_sub(z, z_s(INT32_MAX))) <= 0 && z_sign(z_sub(z, z_s(INT32_MIN))) >= 0;
  };
  bool ha = small(a), hb = small(b), hc = small(c);
  ih_check(a.IsHalfWord() == ha, "IsHalfWord");
  ih_check(BigInt::AllHalfWords(a, b) == (ha && hb), "AllHalfWords of 2");
  ih_check(BigInt::AllHalfWords(a, b, c) == (ha && hb && hc), "AllHalfWords of 3");
}
HARNESS(same_value, 0, "numbers reached along different ways are stored alike: a and (a+b)-b, -(-a), --(++a), a*1, (a<<64)/2^64 for all a, b of up to 2 words") {
  BigInt a = InUpTo(0, 2);
  BigInt r(7);
  switch (ih_choose(8, "way")) {
    case 0: { BigInt b = InUpTo(1, 2); r = (a + b) - b; break; }
    case 1: { BigInt b = InUpTo(1, 2); r = b - (b - a); break; }
    case 2: r = -(-a); break;
    case 3: r = a; ++r; --r; break;
    case 4: r = a; --r; ++r; break;
    case 5: r = a * 1; break;
    case 6: { BigInt b = InUpTo(1, 3); r = b; r -= b; r += a; break; }
    default: { BigInt b = InUpTo(1, 3); b = a; BigInt c(b); r = std::move(c); break; }
  }
  ih_check(r == a && !(r != a), "equal");
  ih_check(r.used_words() == a.used_words(), "same storage");
  for (size_t i = 0; i < a.used_words(); ++i) ih_check(r.word(i).low_uint64() == a.word(i).low_uint64(), "same words");
}
