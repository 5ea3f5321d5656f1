// Harness interface of engine A ("irsym").  A harness is compiled to LLVM IR
// and interpreted symbolically, and compiled natively (native.cpp) to replay.
#ifndef IRSYM_IH_H
#define IRSYM_IH_H
#include <cstdint>
#include <cstddef>

extern "C" {
// A fresh machine word; every bit pattern / every value of [lo, hi].
uint64_t ih_word(const char* name);
int64_t ih_sword(const char* name);
int64_t ih_range(const char* name, int64_t lo, int64_t hi);
// Any double m * 2^exp with |m| < 2^53.
double ih_double(const char* name, int exp, int64_t* mantissa);
int ih_choose(int n, const char* name);
void ih_assume(bool b);
void ih_check(bool b, const char* what);
int ih_thorough();
// Forgets nothing, decides nothing: forces a word to a concrete value.
// Exact integers of unbounded size, by handle.
int z_u(uint64_t v);
int z_s(int64_t v);
int z_add(int a, int b);
int z_sub(int a, int b);
int z_mul(int a, int b);
int z_neg(int a);
int z_shl(int a, int bits);
int z_sign(int a);             // -1, 0, 1: decides (forks)
void z_check_zero(int a, const char* what);
void z_check_neg(int a, const char* what);     // a < 0
void z_check_nonneg(int a, const char* what);  // a >= 0
void z_assume_neg(int a);
void z_assume_nonneg(int a);
void z_assume_nonzero(int a);
void z_assume_zero(int a);
}

#define HARNESS(NAME, TIER, BOUNDS)                                        \
  extern "C" __attribute__((used)) const char hinfo_##NAME[] = #TIER "\t" BOUNDS;           \
  extern "C" void harness_##NAME()
#endif
