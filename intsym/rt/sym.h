// Symbolic execution engine over exact integers/rationals ("intsym").
// See DESIGN.md, "Engine B".
#ifndef INTSYM_SYM_H
#define INTSYM_SYM_H
#include "poly.h"

namespace sym {

// Decides the sign of p on the current path, forking when several signs are
// feasible.  This is the single place where execution depends on the inputs.
int Sign(const Poly& p);
// Fresh symbolic variable.
Poly Fresh(const char* name, int group);
// Forks n ways.
int Choose(int n, const char* name);
// Adds the constraint without deciding the sign. rel is one of
// '<' 'l'(<=) '=' '!' 'g'(>=) '>'.
void Constrain(const Poly& p, char rel);
void CheckNone(const std::vector<Poly>& pos, const char* what);
// Ends the path: inputs are outside of the assumptions.
[[noreturn]] void Discard();
[[noreturn]] void Violation(const char* kind, const char* what);
[[noreturn]] void Unsupported(const char* what);
void CountCheck();
void Reach(const char* label);
void Observe(const char* name, const Poly& p);

// gcd of two values.
struct GcdResult { Poly value; };
Poly GcdOf(const Poly& a, const Poly& b);
// Truncated division a / b (b nonzero, sign decided).
void DivRem(const Poly& a, const Poly& b, Poly* q, Poly* r);
// Decides whether all coefficients fit in the closed range [lo, hi].
bool InRange(const Poly& p, const mpz_class& lo, const mpz_class& hi);
long VaryMagnitude(int sign);
double ToDouble(const Poly& p);

}  // namespace sym
#endif
