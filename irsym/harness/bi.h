// Building symbolic BigInts and the exact-value oracle.
#ifndef IRSYM_BI_H
#define IRSYM_BI_H
#include "ih.h"
#include "walnut/big_int.h"

using walnut::BigInt;
using walnut::BigUInt;
using walnut::BigUIntWord;

struct Bx : BigInt {
  static BigInt Make(const uint64_t* w, int n) {
    Bx r;
    r.words_.resize((size_t)n);
    for (int i = 0; i < n; ++i) r.words_[(size_t)i] = BigUIntWord(w[i]);
    return r;
  }
};

// The exact value of a stored number.
static inline int Val(const BigInt& b) {
  size_t n = b.used_words();
  int z = z_s((int64_t)b.word(n - 1).low_uint64());
  for (size_t i = n - 1; i-- > 0;) z = z_add(z_shl(z, 64), z_u(b.word(i).low_uint64()));
  return z;
}
static inline int ValU(const BigUInt& b) {
  size_t n = b.used_words();
  int z = z_u(b.word(n - 1).low_uint64());
  for (size_t i = n - 1; i-- > 0;) z = z_add(z_shl(z, 64), z_u(b.word(i).low_uint64()));
  return z;
}
static inline bool Canonical(const BigInt& b) {
  size_t n = b.used_words();
  if (n == 1) return true;
  int64_t hi = (int64_t)b.word(n - 1).low_uint64();
  int64_t lo = (int64_t)b.word(n - 2).low_uint64();
  if (hi == 0) return lo < 0;
  if (hi == -1) return lo >= 0;
  return true;
}
static inline void CheckIs(const BigInt& b, int z, const char* what) {
  z_check_zero(z_sub(Val(b), z), what);
  ih_check(Canonical(b), "result is stored in the shortest form");
}

static const char* const kNames[3][5] = {{"a0", "a1", "a2", "a3", "a4"}, {"b0", "b1", "b2", "b3", "b4"}, {"c0", "c1", "c2", "c3", "c4"}};
static const char* const kClass[3] = {"a_class", "b_class", "c_class"};

// Every number that takes exactly n words.
static inline BigInt In(int which, int n) {
  uint64_t w[5];
  const int64_t kMin = INT64_MIN;
  if (n == 1) {
    w[0] = (uint64_t)ih_sword(kNames[which][0]);
    return Bx::Make(w, 1);
  }
  for (int i = 0; i + 2 < n; ++i) w[i] = ih_word(kNames[which][i]);
  switch (ih_choose(4, kClass[which])) {
    case 0: w[n - 2] = ih_word(kNames[which][n - 2]); w[n - 1] = (uint64_t)ih_range(kNames[which][n - 1], 1, INT64_MAX); break;
    case 1: w[n - 2] = ih_word(kNames[which][n - 2]); w[n - 1] = (uint64_t)ih_range(kNames[which][n - 1], kMin, -2); break;
    case 2: w[n - 2] = (uint64_t)ih_range(kNames[which][n - 2], kMin, -1); w[n - 1] = 0; break;
    default: w[n - 2] = (uint64_t)ih_range(kNames[which][n - 2], 0, INT64_MAX); w[n - 1] = ~uint64_t{0}; break;
  }
  return Bx::Make(w, n);
}
// Every number of 1..max words.
static inline BigInt InUpTo(int which, int max) {
  static const char* const names[3] = {"a_words", "b_words", "c_words"};
  return In(which, 1 + ih_choose(max, names[which]));
}
#endif
