// Symbolic stand-in for walnut/big_int.h.
//
// It has the interface of walnut::BigInt, with values that are exact
// polynomials in symbolic inputs.  That the real class implements exact integer
// arithmetic behind this interface is what properties C01-C04 check on the real
// big_int.h (engine A); the harnesses compiled against this file rely on it,
// and every counterexample found with it is replayed with the real class.
#ifndef WALNUT_BIG_INT_H__
#define WALNUT_BIG_INT_H__

#include <algorithm>
#include <cassert>
#include <iostream>
#include <memory>

#include "walnut/big_int_words.h"
#include "walnut/big_uint.h"

#include "sym.h"

namespace walnut {

class BigInt {
 public:
  static constexpr size_t bits_per_word = BigIntWords::bits_per_word;
  static constexpr size_t bytes_per_word = BigIntWords::bytes_per_word;
  struct FlippableCompare {
    FlippableCompare(bool flip) : flip(flip) { }
    bool operator()(const BigInt& a, const BigInt& b) { return a.LessThan(flip, b); }
    bool flip;
  };

  BigInt() {}
  explicit BigInt(int v) : c_(v) {}
  explicit BigInt(long v) : c_(v) {}
  explicit BigInt(long long v) : c_((long)v) {}
  explicit BigInt(const mpz_class& c) : c_(c) {}
  explicit BigInt(sym::Poly p) { SetPoly(std::move(p)); }
  BigInt(const BigUInt& o) {
    for (size_t i = o.used_words(); i > 0; --i) {
      c_ <<= 64; c_ += mpz_class((unsigned long)o.word(i - 1).low_uint64());
    }
  }
  BigInt(const BigInt&) = default;
  BigInt(BigInt&& o) : c_(o.c_), p_(o.p_) {}
  BigInt& operator=(const BigInt&) = default;
  BigInt& operator=(BigIntWord v) { c_ = (long)v; p_.reset(); return *this; }
  BigInt& operator=(const BigUInt& v) { return *this = BigInt(v); }

  sym::Poly poly() const { return p_ ? *p_ : sym::Poly(c_); }
  bool is_const() const { return !p_; }
  const mpz_class& const_value() const { return c_; }

  int ToInt() const { if (p_) sym::Unsupported("ToInt"); return (int)c_.get_si(); }
  uint64_t low_uint64() const {
    if (p_) sym::Unsupported("low_uint64");
    mpz_class m; mpz_fdiv_r_2exp(m.get_mpz_t(), c_.get_mpz_t(), 64); return m.get_ui();
  }
  uint32_t low_uint32() const { return (uint32_t)low_uint64(); }

  bool IsHalfWord() const {
    static const mpz_class lo("-2147483648"), hi("2147483647");
    if (!p_) return c_ >= lo && c_ <= hi;
    return sym::InRange(*p_, lo, hi);
  }
  static bool AllHalfWords(const BigInt& a, const BigInt& b) { return a.IsHalfWord() && b.IsHalfWord(); }
  static bool AllHalfWords(const BigInt& a, const BigInt& b, const BigInt& c) {
    return a.IsHalfWord() && b.IsHalfWord() && c.IsHalfWord();
  }
  static BigInt max_value(size_t bits) { mpz_class v = 1; v <<= bits; return BigInt(mpz_class(v - 1)); }
  static BigInt min_value(size_t bits) { mpz_class v = 1; v <<= bits; return BigInt(mpz_class(-v)); }

  BigInt operator<<(size_t s) const {
    mpz_class f = 1; f <<= s;
    return p_ ? BigInt(p_->Scale(f)) : BigInt(mpz_class(c_ * f));
  }
  int Compare(const BigInt& o) const { return (*this - o).Sgn(); }
  BigInt Add(const BigInt& o) const { return *this + o; }
  BigInt operator+(const BigInt& o) const {
    if (!p_ && !o.p_) return BigInt(mpz_class(c_ + o.c_));
    return BigInt(poly() + o.poly());
  }
  BigInt operator+(int o) const { return *this + BigInt(o); }
  BigInt& operator+=(const BigInt& o) { return *this = *this + o; }
  BigInt& operator+=(int o) { return *this = *this + BigInt(o); }
  BigInt& operator++() { return *this += 1; }
  BigInt& operator-=(const BigInt& o) { return *this = *this - o; }
  BigInt& operator-=(int o) { return *this = *this - BigInt(o); }
  BigInt& operator--() { return *this -= 1; }
  BigInt Subtract(const BigInt& o) const { return *this - o; }
  BigInt operator-(const BigInt& o) const {
    if (!p_ && !o.p_) return BigInt(mpz_class(c_ - o.c_));
    return BigInt(poly() - o.poly());
  }
  BigInt operator-(int o) const { return *this - BigInt(o); }
  BigInt Multiply(const BigInt& o) const { return *this * o; }
  BigInt& AddMultiply(const BigInt& a, const BigInt& b) { return *this = *this + a * b; }
  BigInt& SubtractMultiply(const BigInt& a, const BigInt& b) { return *this = *this - a * b; }
  BigInt operator*(const BigInt& o) const {
    if (!p_ && !o.p_) return BigInt(mpz_class(c_ * o.c_));
    return BigInt(poly() * o.poly());
  }
  BigInt operator*(int o) const { return *this * BigInt(o); }
  BigInt operator*(BigIntWord o) const { return *this * BigInt(o); }
  BigInt& operator*=(int o) { return *this = *this * o; }
  BigInt& operator*=(const BigInt& o) { return *this = *this * o; }
  bool operator<(const BigInt& o) const { return Compare(o) < 0; }
  bool operator<(int o) const { return Compare(BigInt(o)) < 0; }
  bool LessThan(bool flip, const BigInt& o) const { return flip ? o < *this : *this < o; }
  bool operator<=(const BigInt& o) const { return Compare(o) <= 0; }
  bool operator<=(int o) const { return Compare(BigInt(o)) <= 0; }
  bool operator>(const BigInt& o) const { return Compare(o) > 0; }
  bool operator>(int o) const { return Compare(BigInt(o)) > 0; }
  bool operator>=(const BigInt& o) const { return Compare(o) >= 0; }
  bool operator>=(int o) const { return Compare(BigInt(o)) >= 0; }
  bool operator==(const BigInt& o) const { return Compare(o) == 0; }
  bool operator==(int o) const { return Compare(BigInt(o)) == 0; }
  bool operator!=(const BigInt& o) const { return Compare(o) != 0; }
  bool operator!=(int o) const { return Compare(BigInt(o)) != 0; }

  BigInt DivideRemainder(const BigInt& o, BigInt* rem) const {
    if (o.Sgn() == 0) sym::Violation("divide-by-zero", "division by a zero integer");
    if (!p_ && !o.p_) {
      mpz_class q, r; mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), c_.get_mpz_t(), o.c_.get_mpz_t());
      *rem = BigInt(r); return BigInt(q);
    }
    sym::Poly q, r;
    sym::DivRem(poly(), o.poly(), &q, &r);
    *rem = BigInt(r);
    return BigInt(q);
  }
  BigInt operator/(const BigInt& o) const { BigInt r; return DivideRemainder(o, &r); }
  BigInt operator/(int o) const { return *this / BigInt(o); }
  BigInt& operator/=(const BigInt& o) { return *this = *this / o; }
  BigInt operator%(const BigInt& o) const { BigInt r; DivideRemainder(o, &r); return r; }

  void Negate() { *this = -*this; }
  BigInt operator-() const { return p_ ? BigInt(-*p_) : BigInt(mpz_class(-c_)); }
  BigInt abs() const { return Sgn() < 0 ? -*this : *this; }
  BigInt GetAbs(bool& was_signed) const {
    was_signed = Sgn() < 0; return was_signed ? -*this : *this;
  }
  BigUInt GetUIntAbs(bool* was_signed) const { sym::Unsupported("GetUIntAbs"); }

  BigIntWord GetSign() const {
    if (!p_ && c_.fits_slong_p()) return BigIntWord(c_.get_si());
    return BigIntWord(sym::VaryMagnitude(Sgn()));
  }
  bool IsZero() const { return Sgn() == 0; }
  bool IsNegative() const { return Sgn() < 0; }
  int GetAbsMult() const { return Sgn() < 0 ? -1 : 1; }
  int GetAbsMult(const BigInt& o) const { return (Sgn() < 0) != (o.Sgn() < 0) ? -1 : 1; }
  bool HasSameSign(const BigInt& o) const { return (Sgn() < 0) == (o.Sgn() < 0); }
  bool HasDifferentSign(const BigInt& o) const { return (Sgn() < 0) != (o.Sgn() < 0); }
  BigIntWord SignExtension() const { return BigIntWord(Sgn() < 0 ? -1 : 0); }

  explicit operator double() const { return p_ ? sym::ToDouble(*p_) : c_.get_d(); }
  explicit operator long double() const { return (long double)(double)*this; }

  static BigInt Determinant(const BigInt& r1_c1, const BigInt& r1_c2,
                            const BigInt& r2_c1, const BigInt& r2_c2) {
    return r1_c1 * r2_c2 - r2_c1 * r1_c2;
  }
  BigInt GetGreatestCommonDivisor(const BigInt& o) const {
    if (!p_ && !o.p_) {
      // Euclid's algorithm, in the form that determines the sign of the result
      mpz_class a = c_, b = o.c_, r;
      while (b != 0) { mpz_tdiv_r(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); a = b; b = r; }
      return BigInt(a);
    }
    if (o.Sgn() == 0) return *this;
    if (Sgn() == 0) return o;
    return BigInt(sym::GcdOf(poly(), o.poly()));
  }
  // A constant is a correct hash of every value; it makes hash containers fall
  // back to equality, which is what is decided symbolically.
  size_t GetHash() const { return 1; }

  int Sgn() const { return p_ ? sym::Sign(*p_) : sgn(c_); }

 private:
  void SetPoly(sym::Poly p) {
    if (p.IsConst()) { c_ = p.ConstValue(); p_.reset(); }
    else p_ = std::make_shared<const sym::Poly>(std::move(p));
  }
  mpz_class c_;
  std::shared_ptr<const sym::Poly> p_;
};

inline BigInt operator*(int a, const BigInt& b) { return b * a; }
inline std::ostream& operator<<(std::ostream& out, const BigInt& b) {
  if (b.is_const()) return out << b.const_value().get_str();
  return out << b.poly().Str({});
}

}  // namespace walnut
#endif
