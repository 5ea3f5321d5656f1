// Harness interface.  Every harness is compiled twice: against the symbolic
// BigInt (SYMBOLIC defined) and against the real one, for replaying.
#ifndef INTSYM_HARNESS_H
#define INTSYM_HARNESS_H
#include <cstdio>
#include <string>
#include <vector>
#include "walnut/big_int.h"

namespace hv {

using walnut::BigInt;

// A fresh integer input.  Inputs of one group may be scaled by a common factor
// without changing any decision (homogeneous inputs): that is how rational
// models become integer inputs.  Group 0 means "not scalable".
BigInt Var(const char* name, int group = 1);
// Exhaustive choice 0..n-1.
int Choose(int n, const char* name);
// Decides for all large enough multiples of the inputs (of group 1) with which
// every division of the code is exact.
void AssumeScaled();
// From now on integers are converted to floating point for printing only.
void PrintOnly();
void AssumePos(const BigInt& v);     // v > 0
void AssumeNonNeg(const BigInt& v);  // v >= 0
void AssumeNonZero(const BigInt& v); // v != 0
void AssumeZero(const BigInt& v);    // v == 0
void Assume(bool b);
void Check(bool b, const char* what);
// There are no values of the inputs so far with which all of these are > 0.
void CheckNone(const std::vector<BigInt>& positive, const char* what);
// Records that this point is reachable (vacuity witness).
void Reach(const char* label);
// Value whose symbolic form is compared to the concrete one when replaying.
void Observe(const char* name, const BigInt& v);
int SignOf(const BigInt& v);         // -1, 0, 1
bool Thorough();
bool Symbolic();

using HarnessFn = void (*)();
struct Registration {
  Registration(const char* name, HarnessFn fn, int tier, const char* bounds);
};

}  // namespace hv

// TIER 0: quick and thorough; 1: thorough only.
#define HARNESS(NAME, TIER, BOUNDS)                                     \
  static void harness_##NAME();                                        \
  static hv::Registration reg_##NAME(#NAME, harness_##NAME, TIER, BOUNDS); \
  static void harness_##NAME()
#endif
