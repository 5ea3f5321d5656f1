// Path state of engine A: linear expressions over bounded integer variables,
// path constraints, branch decisions by z3, path forking.
#ifndef IRSYM_STATE_H
#define IRSYM_STATE_H
#include <gmpxx.h>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace ir {

using Mpz = mpz_class;

// c + sum coef * var
struct Lin {
  std::vector<std::pair<int, Mpz>> t;  // sorted by variable
  Mpz c;
  Lin() {}
  Lin(const Mpz& k) : c(k) {}
  bool Const() const { return t.empty(); }
  bool operator==(const Lin& o) const { return c == o.c && t == o.t; }
  bool operator<(const Lin& o) const { if (t != o.t) return t < o.t; return c < o.c; }
};
Lin operator+(const Lin& a, const Lin& b);
Lin operator-(const Lin& a, const Lin& b);
Lin operator*(const Lin& a, const Mpz& k);
Lin Product(const Lin& a, const Lin& b);  // expands; products are bounded variables
Lin VarLin(int v);
Lin Subst(const Lin& e);  // applies the equalities of the path
void ProductLemmas(const Lin& a, const Lin& b);

enum Rel { LE, EQ, NE, GT };  // e <= 0, e == 0, e != 0, e >= 1

int NewVar(const std::string& name, const Mpz& lo, const Mpz& hi, bool input, const Mpz& shadow);
void Interval(const Lin& e, Mpz* lo, Mpz* hi);
void NoteRange(const Lin& e, const Mpz& lo, const Mpz& hi);
Mpz Shadow(const Lin& e);
Mpz FloorDiv(const Mpz& a, const Mpz& b);
Mpz CeilDiv(const Mpz& a, const Mpz& b);
// floor(e / m), exactly; introduces a variable when it is not constant.
Lin Fl(const Lin& e, const Mpz& m);
// Truth of "e rel 0" on this path; forks if both are feasible.
bool DecideFull(const Lin& e, Rel rel);
bool Decide(const Lin& e, Rel rel);
// True only if "e rel 0" is proved on this path (does not fork).
bool Proved(const Lin& e, Rel rel);
void AddCons(const Lin& e, Rel rel);
// Adds an assumption; ends the path if it is infeasible.
void Assume(const Lin& e, Rel rel);
int Choose(int n, const char* name);
int InputVar(const std::string& name, const Mpz& lo, const Mpz& hi);
[[noreturn]] void Discard();
[[noreturn]] void Violation(const char* kind, const std::string& what);
[[noreturn]] void Unsupported(const std::string& what);
void CountCheck();
std::string Str(const Lin& e);
bool Thorough();
int EngineMain(int argc, char** argv, void (*run)(const std::string& harness),
               const std::vector<std::pair<std::string, std::string>>& harnesses,
               std::set<std::string>* funcs);
void NoteFunction(const std::string& f);

}  // namespace ir
#endif
