// Sparse multivariate polynomials with exact (GMP) integer coefficients.
// A BigInt of the code under test is represented by one of these during
// symbolic execution; because the ring operations are performed in canonical
// form, two values that are equal for every input are represented identically.
#ifndef INTSYM_POLY_H
#define INTSYM_POLY_H
#include <gmpxx.h>
#include <cstdint>
#include <cstring>
#include <string>
#include <utility>
#include <vector>

namespace sym {

constexpr int NV = 60;  // maximum number of symbolic variables on one path

struct Mono {
  uint8_t e[NV];
  Mono() { memset(e, 0, sizeof e); }
  bool operator==(const Mono& o) const { return !memcmp(e, o.e, NV); }
  // lexicographic order, an admissible monomial order
  bool operator<(const Mono& o) const { return memcmp(e, o.e, NV) < 0; }
  bool IsOne() const {
    for (int i = 0; i < NV; ++i) if (e[i]) return false;
    return true;
  }
  int Degree() const { int d = 0; for (int i = 0; i < NV; ++i) d += e[i]; return d; }
};

class Poly {
 public:
  using Term = std::pair<Mono, mpz_class>;
  std::vector<Term> t;  // sorted, largest monomial first; no zero coefficients

  Poly() {}
  explicit Poly(const mpz_class& c) { if (c != 0) t.emplace_back(Mono(), c); }
  explicit Poly(long c) { if (c != 0) t.emplace_back(Mono(), mpz_class(c)); }
  static Poly Var(int i);

  bool IsZero() const { return t.empty(); }
  bool IsConst() const { return t.empty() || (t.size() == 1 && t[0].first.IsOne()); }
  mpz_class ConstValue() const { return t.empty() ? mpz_class(0) : t[0].second; }
  bool operator==(const Poly& o) const;
  bool operator<(const Poly& o) const;  // arbitrary total order, for maps

  Poly operator+(const Poly& o) const;
  Poly operator-(const Poly& o) const;
  Poly operator*(const Poly& o) const;
  Poly operator-() const;
  Poly Scale(const mpz_class& c) const;

  int Degree() const;               // total degree
  int DegreeIn(int v) const;
  bool Uses(int v) const { return DegreeIn(v) > 0; }
  uint64_t VarMask() const;
  mpz_class Content() const;        // positive gcd of coefficients (0 for zero)
  Mono MonoContent() const;         // gcd of the monomials
  Poly DivMono(const Mono& m) const;
  Poly DivConst(const mpz_class& c) const;  // must divide exactly
  // Exact division over the rationals: returns false when o does not divide.
  // On success  q * o == den * (*this)  with den > 0 minimal.
  bool DivExact(const Poly& o, Poly* q, mpz_class* den) const;
  // coefficients with respect to variable v: result[i] = coefficient of v^i
  std::vector<Poly> CoeffsIn(int v) const;
  mpq_class Eval(const std::vector<mpq_class>& vals) const;
  // Replaces v^k by (num/den)^k, returning polynomial scaled by den^deg (den>0).
  Poly Subst(int v, const Poly& num, const mpz_class& den) const;
  std::string Str(const std::vector<std::string>& names) const;
};

Poly Gcd(const Poly& a, const Poly& b);  // primitive, positive leading coeff
// Splits p (nonzero) into irreducible-ish factors; product of factors times
// the returned constant is p.
mpz_class Factor(const Poly& p, std::vector<std::pair<Poly, int>>* out);

}  // namespace sym
#endif
