// C05: conversion of doubles.
#include "bi.h"
#include "walnut/double.h"
#include "walnut/homo_point3.h"

using walnut::HomoPoint3;
static const int kExpQ[] = {-1074, -1030, -117, -64, -53, -1, 0, 11, 64, 971};
static const int kExp[] = {-1074, -1073, -1030, -1000, -117, -65, -64, -63, -54, -53, -52, -11, -1, 0, 1, 10, 11, 63, 64, 500, 970, 971};
static const int kExps = sizeof(kExp) / sizeof(kExp[0]);

// a * 2^ea - b * 2^eb, scaled to an integer
static int Diff(int a, int ea, int b, int eb) {
  int m = ea < eb ? ea : eb;
  return z_sub(z_shl(a, ea - m), z_shl(b, eb - m));
}
HARNESS(decompose, 0, "all doubles with exponents out of 10 classes from the subnormals to the largest (every exponent thorough)") {
  int e = ih_thorough() ? ih_choose(2046, "exponent") - 1074 : kExpQ[ih_choose(10, "exponent")];
  int64_t m = 0; double d = ih_double("m", e, &m);
  int out = 12345;
  int64_t r = walnut::Decompose(d, &out);
  if (m == 0) { ih_check(r == 0 && out == 0, "zero decomposes to 0 * 2^0"); return; }
  z_check_zero(Diff(z_s(r), out, z_s(m), e), "mantissa * 2^exponent == input");
  ih_check(r % 2 != 0, "the mantissa is odd");
}
static const double kOther[] = {0.0, 1.0, -0.375, 3e300, -5e-324, 1e-30};
static void Grid(const BigInt& v, int wexp, int m, int e, int min_exponent, const char* what) {
  // value v * 2^-wexp against m * 2^e:  2 * |difference| <= 2^min_exponent
  int lo = -wexp < e ? -wexp : e;
  if (min_exponent < lo) lo = min_exponent;
  int d = z_shl(z_sub(z_shl(Val(v), -wexp - lo), z_shl(m, e - lo)), 1);
  int g = z_shl(z_s(1), min_exponent - lo);
  z_check_nonneg(z_sub(g, d), what);
  z_check_nonneg(z_add(g, d), what);
}
static int Log2(const BigInt& w) {  // of a concrete power of two
  size_t last = w.used_words() - 1;
  if (last > 0 && w.word(last).low_uint64() == 0) --last;  // 2^63 of the word below
  for (size_t i = 0; i < last; ++i) ih_check(w.word(i).low_uint64() == 0, "the denominator is a power of two");
  uint64_t top = w.word(last).low_uint64();
  int n = 0;
  for (; n < 63 && (top >> n) != 1; ++n) {}
  ih_check(top == (uint64_t{1} << n), "the denominator is a power of two");
  return (int)last * 64 + n;
}
static const int kGridExp[] = {-1074, -1000, -118, -65, -64, -12, -2, -1, 0, 12, 64, 971};
// Every double is an odd mantissa times a power of two, or zero.
static void Point(bool exact, int nother, bool all) {
  int e = exact || all ? kExp[ih_choose(kExps, "exponent")] : kGridExp[ih_choose(12, "exponent")];
  int axis = ih_choose(3, "axis");
  int64_t m = 0; double d = ih_double("m", e, &m);
  ih_assume((m & 1) != 0 || m == 0);
  int k1 = all ? ih_choose(nother, "other1") : axis % 3, k2 = nother > 1 ? ih_choose(nother, "other2") : (axis + 1) % 3;
  double o1 = kOther[k1], o2 = kOther[k2];
  double c[3] = {o1, o1, o1}; c[axis] = d; c[(axis + 1) % 3] = o1; c[(axis + 2) % 3] = o2;
  if (exact) {
    HomoPoint3 p = HomoPoint3::FromDoublesExact(c[0], c[1], c[2]);
    int w = Log2(p.w());
    z_check_zero(Diff(Val(p.vector_from_origin().components()[axis]), -w, z_s(m), e), "exact coordinate");
    int e1, e2; int64_t m1 = walnut::Decompose(o1, &e1), m2 = walnut::Decompose(o2, &e2);
    z_check_zero(Diff(Val(p.vector_from_origin().components()[(axis + 1) % 3]), -w, z_s(m1), e1), "exact next coordinate");
    z_check_zero(Diff(Val(p.vector_from_origin().components()[(axis + 2) % 3]), -w, z_s(m2), e2), "exact last coordinate");
    return;
  }
  static const int kMin[] = {0, -1, -3, -10, -52, -63, -64, -70, -117, -1074};
  int g = kMin[ih_choose(10, "grain")];
  HomoPoint3 p = HomoPoint3::FromDoubles(g, c[0], c[1], c[2]);
  int w = Log2(p.w());
  ih_check(w <= -g, "the point lies on the grid");
  Grid(p.vector_from_origin().components()[axis], w, z_s(m), e, g, "nearest grid point");
  int e1, e2; int64_t m1 = walnut::Decompose(o1, &e1), m2 = walnut::Decompose(o2, &e2);
  Grid(p.vector_from_origin().components()[(axis + 1) % 3], w, z_s(m1), e1, g, "nearest grid point, next coordinate");
  Grid(p.vector_from_origin().components()[(axis + 2) % 3], w, z_s(m2), e2, g, "nearest grid point, last coordinate");
}
HARNESS(exact, 0, "FromDoublesExact: one coordinate any double m * 2^e, m odd or zero, for 22 exponents e, on every axis, the others from 3 values") { Point(true, 3, false); }
HARNESS(grid, 0, "FromDoubles: one coordinate any double m * 2^e, m odd or zero, for 12 exponents e, on every axis, the others from 3 values, 10 grain sizes") { Point(false, 1, false); }
HARNESS(exact_more, 1, "FromDoublesExact: as exact, every pair of 6 other values") { Point(true, 6, true); }
HARNESS(grid_more, 1, "FromDoubles: as grid with 22 exponents, every pair of 4 other values") { Point(false, 4, true); }
