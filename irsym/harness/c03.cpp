// C03: left shifts.
#include "bi.h"

static const int kShifts[] = {0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 96, 127, 128, 129, 190, 191, 192, 193, 200};
static int Shift() {
  if (ih_thorough()) return ih_choose(321, "shift");
  return kShifts[ih_choose(20, "shift")];
}
HARNESS(shift, 0, "a << n for all a of up to 3 words and 20 amounts n around word boundaries up to 200 (all n up to 320 thorough)") {
  int n = Shift();
  BigInt a = InUpTo(0, 3);
  int za = Val(a);
  BigInt r = a << (size_t)n;
  CheckIs(r, z_shl(za, n), "a << n");
  z_check_zero(z_sub(Val(a), za), "the operand is unchanged");
}
HARNESS(shift_all_small, 0, "a << n for all one-word a and all n up to 130") {
  int n = ih_choose(131, "shift");
  BigInt a = In(0, 1);
  CheckIs(a << (size_t)n, z_shl(Val(a), n), "a << n");
}
HARNESS(shift_twice, 0, "(a << n) << m for all a of up to 2 words, n, m in {1, 63, 64, 65}") {
  static const int k[] = {1, 63, 64, 65};
  int n = k[ih_choose(4, "n")], m = k[ih_choose(4, "m")];
  BigInt a = InUpTo(0, 2);
  CheckIs((a << (size_t)n) << (size_t)m, z_shl(Val(a), n + m), "(a << n) << m");
}
HARNESS(shift_unsigned, 0, "BigUInt a << n for all nonnegative a of up to 3 words and the same amounts") {
  int n = Shift();
  BigInt a = InUpTo(0, 3);
  bool s = false;
  BigUInt u = a.GetUIntAbs(&s);
  int zu = ValU(u);
  BigUInt r = u << (size_t)n;
  z_check_zero(z_sub(ValU(r), z_shl(zu, n)), "unsigned a << n");
  ih_check(r.used_words() == 1 || r.word(r.used_words() - 1).low_uint64() != 0, "unsigned result is trimmed");
}
