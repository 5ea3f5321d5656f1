// Symbolic engine and driver.  Paths are explored by fork(): at every decision
// with several feasible outcomes one process continues with each of them.
#include "sym.h"
#include "harness.h"

#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <z3++.h>

#define NOINSTR __attribute__((no_instrument_function))

namespace sym {

// ---------------------------------------------------------------- shared state
struct Shared {
  std::atomic<long> paths, discarded, violations, unsupported, incomplete, crashes;
  std::atomic<long> z3_sat, z3_unsat, z3_unknown, z3_ns, model_hits;
  std::atomic<long> syntactic, sign_queries, decisions, forks, checks, asserts;
  std::atomic<long> maxdepth, samples, unknown_paths;
  std::atomic<int> tokens;
  std::atomic<int> stop;
  std::atomic<int> lock;
  double deadline;
  char reach[64][48];
  std::atomic<long> reach_n[64];
  std::atomic<void*> funcs[1 << 15];
  std::atomic<int> violation_kinds;
  char kinds[64][160];
};
static Shared* S;
static std::string g_out;
static int g_max_samples = 12;
static bool g_thorough = false;
static bool g_verbose = false;
static unsigned g_seed = 1;
static long g_max_violations = 6;
static unsigned g_rlimit_lin = 4000000, g_rlimit_nl = 12000000;

static double Now() {
  struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
struct SpinLock {
  SpinLock() { int z = 0; while (!S->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(50); } }
  ~SpinLock() { S->lock.store(0); }
};

// ---------------------------------------------------------------- path state
struct VarInfo { std::string name; int group; bool internal; int weight; };
struct Input { int kind; int var; int value; std::string name; };  // kind 0 var 1 choose

struct Cons { Poly p; char rel; bool linear; uint64_t mask; int def; };

struct Path {
  std::vector<VarInfo> vars;
  std::vector<Input> inputs;
  std::vector<std::pair<std::string, Poly>> observed;
  std::map<Poly, int> known;        // primitive, positive leading -> sign
  std::vector<Cons> cons;
  struct Sub { int v; Poly num; mpz_class den; };
  std::vector<Sub> subs;
  struct Def { int v; Poly num, den; bool exact; };
  bool divisible = false;
  bool print_only = false;
  std::map<std::pair<Poly, Poly>, int> fracs;
  std::vector<Def> defs;            // v is the integer quotient num / den
  std::map<int, int> inverse;       // s -> g  with s*g = 1
  std::map<std::pair<Poly, Poly>, Poly> gcds;
  std::vector<mpq_class> model;
  bool model_ok = true;
  bool nonlinear = false;
  bool uncertain = false;           // some branch was taken on "unknown"
  int depth = 0;
  long query_counter = 0;
  std::vector<pid_t> children;
};
static Path* P;
static z3::context* Z;
static z3::solver* LIN;
static std::vector<z3::expr>* ZV;

static std::vector<std::string> Names() {
  std::vector<std::string> n;
  for (auto& v : P->vars) n.push_back(v.name);
  return n;
}

static int NewVar(const char* name, int group, bool internal) {
  if (P->vars.size() >= NV || P->vars.size() >= 60) Unsupported("too many variables");
  int i = P->vars.size();
  P->vars.push_back({name, group, internal, internal ? 0 : group});
  P->model.push_back(0);
  ZV->push_back(Z->real_const(("v" + std::to_string(i)).c_str()));
  return i;
}

static z3::expr ToZ3(const Poly& p) {
  z3::expr_vector sum(*Z);
  for (auto& t : p.t) {
    z3::expr_vector prod(*Z);
    if (t.second != 1 || t.first.IsOne()) prod.push_back(Z->real_val(t.second.get_str().c_str()));
    for (int i = 0; i < (int)P->vars.size(); ++i)
      for (int k = 0; k < t.first.e[i]; ++k) prod.push_back((*ZV)[i]);
    if (prod.size() == 1) sum.push_back(prod[0]);
    else {
      std::vector<Z3_ast> a; for (unsigned i = 0; i < prod.size(); ++i) a.push_back(prod[i]);
      sum.push_back(z3::expr(*Z, Z3_mk_mul(*Z, a.size(), a.data())));
    }
  }
  if (sum.size() == 0) return Z->real_val(0);
  if (sum.size() == 1) return sum[0];
  return z3::sum(sum);
}
static z3::expr Rel(const z3::expr& e, char rel) {
  z3::expr z = Z->real_val(0);
  switch (rel) {
    case '<': return e < z;
    case 'l': return e <= z;
    case '=': return e == z;
    case '!': return e != z;
    case 'g': return e >= z;
    default: return e > z;
  }
}
static bool Holds(int s, char rel) {
  switch (rel) {
    case '<': return s < 0; case 'l': return s <= 0; case '=': return s == 0;
    case '!': return s != 0; case 'g': return s >= 0; default: return s > 0;
  }
}

// Monomials containing s*g with s = 1/g cancel.
static Poly Canon(const Poly& p) {
  if (P->inverse.empty()) return p;
  Poly cur = p;
  for (auto& sg : P->inverse) {
    bool hit = false;
    for (auto& t : cur.t) if (t.first.e[sg.first] && t.first.e[sg.second]) { hit = true; break; }
    if (!hit) continue;
    Poly r;
    for (auto& t : cur.t) {
      Poly one; one.t.push_back(t);
      uint8_t& a = one.t[0].first.e[sg.first]; uint8_t& b = one.t[0].first.e[sg.second];
      uint8_t m = std::min(a, b); a -= m; b -= m;
      r = r + one;
    }
    cur = r;
  }
  return cur;
}
static Poly ApplySubs(const Poly& p0) {
  Poly p = Canon(p0);
  for (auto& s : P->subs) if (p.Uses(s.v)) p = p.Subst(s.v, s.num, s.den);
  return p;
}
static Poly Normalize(const Poly& p, int* flip) {
  mpz_class c = p.Content();
  *flip = 1;
  if (p.t[0].second < 0) { c = -c; *flip = -1; }
  return c == 1 ? p : p.DivConst(c);
}

static mpq_class NumeralToQ(const z3::expr& e, bool* ok) {
  if (e.is_numeral()) {
    std::string s = e.get_decimal_string(0);
    std::string num = Z3_get_numeral_string(*Z, e);
    mpq_class q; if (q.set_str(num, 10)) { *ok = false; return 0; }
    q.canonicalize(); return q;
  }
  if (e.is_algebraic()) {
    z3::expr lo(*Z, Z3_get_algebraic_number_lower(*Z, e, 20));
    *ok = false;
    std::string num = Z3_get_numeral_string(*Z, lo);
    mpq_class q; if (q.set_str(num, 10)) return 0;
    q.canonicalize(); return q;
  }
  *ok = false; return 0;
}

static int g_def = -1;
// A quotient exists for every dividend and divisor, so the constraints that
// define one are left out of queries that do not depend on it otherwise.
static bool IsActive(const Cons& c, uint64_t active) { return c.def < 0 || (active >> c.def & 1); }
static uint64_t ActiveDefs(uint64_t mask) {
  if (P->defs.empty()) return mask;
  for (auto& c : P->cons) if (c.def < 0) mask |= c.mask;
  bool changed = true;
  while (changed) {
    changed = false;
    for (auto& c : P->cons) if (c.def >= 0 && (mask >> c.def & 1) && (c.mask & ~mask)) { mask |= c.mask; changed = true; }
  }
  return mask;
}
static void RepairDefs(std::vector<mpq_class>* m, uint64_t active) {
  for (auto& d : P->defs) if (!(active >> d.v & 1)) {
    mpq_class b = d.den.Eval(*m);
    if (b == 0) continue;
    mpq_class q = d.num.Eval(*m) / b;
    mpz_class t = q.get_num() / q.get_den();  // truncates
    (*m)[d.v] = d.exact ? q : mpq_class(t);
  }
}
static uint64_t Component(uint64_t mask, bool* has_nonlinear) {
  *has_nonlinear = false;
  uint64_t active = ActiveDefs(mask);
  bool changed = true;
  while (changed) {
    changed = false;
    for (auto& c : P->cons) if (IsActive(c, active) && (c.mask & mask) && (c.mask & ~mask)) { mask |= c.mask; changed = true; }
  }
  for (auto& c : P->cons) if (IsActive(c, active) && (c.mask & mask) && !c.linear) *has_nonlinear = true;
  return mask;
}

static bool ModelConsistent(const std::vector<mpq_class>& m, uint64_t mask) {
  for (auto& c : P->cons) if (c.mask & mask) if (!Holds(sgn(c.p.Eval(m)), c.rel)) return false;
  return true;
}

static volatile int g_in_solver = 0;
struct InSolver { InSolver() { ++g_in_solver; } ~InSolver() { --g_in_solver; } };
enum Tri { kUnsat, kSat, kUnknown };

// A path segment that uses this much CPU without any decision is reported as a
// candidate for non-termination (and only believed if the replay hangs, too).
static void ResetCpuLimit() {
  struct rusage u; getrusage(RUSAGE_SELF, &u);
  struct rlimit r;
  r.rlim_cur = u.ru_utime.tv_sec + u.ru_stime.tv_sec + 40;
  r.rlim_max = RLIM_INFINITY;
  setrlimit(RLIMIT_CPU, &r);
}

static void ReadModel(z3::model m, uint64_t mask, std::vector<mpq_class>* out, bool* exact) {
  for (int i = 0; i < (int)P->vars.size(); ++i) if (mask >> i & 1) {
    bool ok = true;
    z3::expr e = m.eval((*ZV)[i], true);
    (*out)[i] = NumeralToQ(e, &ok);
    if (!ok) *exact = false;
  }
}

// Is  p rel 0  satisfiable together with the path condition?
static Tri Query(const Poly& p, char rel, std::vector<mpq_class>* model_out, bool* model_exact) {
  double t0 = Now();
  InSolver guard;
  uint64_t mask = p.VarMask();
  bool nl;
  uint64_t comp = Component(mask, &nl), active = ActiveDefs(mask);
  bool lin = p.Degree() <= 1;
  Tri res = kUnknown;
  *model_exact = false;
  try {
    if (lin && !nl) {
      LIN->push();
      LIN->add(Rel(ToZ3(p), rel));
      auto r = LIN->check();
      if (r == z3::sat) {
        res = kSat; *model_out = P->model; *model_exact = true;
        ReadModel(LIN->get_model(), comp, model_out, model_exact);
        RepairDefs(model_out, active);
      } else if (r == z3::unsat) res = kUnsat;
      LIN->pop();
    } else {
      // Cheap attempt: linear part only, unsat is conclusive.
      bool done = false;
      if (lin) {
        LIN->push(); LIN->add(Rel(ToZ3(p), rel));
        if (LIN->check() == z3::unsat) { res = kUnsat; done = true; }
        LIN->pop();
      }
      if (!done) {
        for (int attempt = 0; attempt < 2 && !done; ++attempt) {
          z3::solver s = attempt == 0 ? z3::tactic(*Z, "qfnra-nlsat").mk_solver()
                                      : z3::solver(*Z, "QF_NRA");
          z3::params pr(*Z); pr.set("rlimit", g_rlimit_nl);
          s.set(pr);
          for (auto& c : P->cons) if (IsActive(c, active) && (c.mask & comp)) s.add(Rel(ToZ3(c.p), c.rel));
          s.add(Rel(ToZ3(p), rel));
          auto r = s.check();
          if (r == z3::sat) {
            res = kSat; done = true; *model_out = P->model; *model_exact = true;
            ReadModel(s.get_model(), comp, model_out, model_exact);
            RepairDefs(model_out, active);
            if (!*model_exact && Holds(sgn(p.Eval(*model_out)), rel) &&
                ModelConsistent(*model_out, comp)) *model_exact = true;
          } else if (r == z3::unsat) { res = kUnsat; done = true; }
        }
      }
    }
  } catch (z3::exception& e) {
    if (g_verbose) fprintf(stderr, "z3: %s\n", e.msg());
    res = kUnknown;
  }
  S->z3_ns += long((Now() - t0) * 1e9);
  ResetCpuLimit();
  if (res == kSat) S->z3_sat++; else if (res == kUnsat) S->z3_unsat++; else {
    S->z3_unknown++;
    if (g_verbose) {
      fprintf(stderr, "UNKNOWN %c: %s\n", rel, p.Str(Names()).c_str());
      for (auto& c : P->cons) fprintf(stderr, "   %c %s\n", c.rel, c.p.Str(Names()).c_str());
    }
  }
  return res;
}

static void AddKnown(const Poly& f, int s) { P->known[f] = s; }

static void RebuildKnown() {
  std::map<Poly, int> old; old.swap(P->known);
  for (auto& k : old) {
    Poly q = ApplySubs(k.first);
    if (q.IsConst()) continue;
    int fl; Poly n = Normalize(q, &fl);
    P->known[n] = k.second * fl;
  }
}

static void AddSub(const Poly& f) {
  // f = 0; eliminate a variable occurring linearly with constant coefficient.
  int best = -1;
  for (int v = (int)P->vars.size() - 1; v >= 0; --v) if (f.DegreeIn(v) == 1) {
    auto c = f.CoeffsIn(v);
    if (c[1].IsConst()) { best = v; break; }
  }
  if (best < 0) return;
  auto c = f.CoeffsIn(best);
  mpz_class k = c[1].ConstValue();
  Path::Sub s; s.v = best;
  s.num = k > 0 ? -c[0] : c[0]; s.den = abs(k);
  for (auto& o : P->subs) if (o.num.Uses(s.v)) {
    int d = o.num.DegreeIn(s.v);
    o.num = o.num.Subst(s.v, s.num, s.den);
    mpz_class sc; mpz_pow_ui(sc.get_mpz_t(), s.den.get_mpz_t(), d);
    o.den *= sc;
  }
  P->subs.push_back(s);
  RebuildKnown();
}

// Adds p rel 0 to the path condition (p already substituted).
static void AddCons(const Poly& p, char rel) {
  Cons c; c.p = p; c.rel = rel; c.linear = p.Degree() <= 1; c.mask = p.VarMask(); c.def = g_def;
  P->cons.push_back(c);
  if (c.linear) LIN->add(Rel(ToZ3(p), rel)); else P->nonlinear = true;
  if (P->model_ok && !Holds(sgn(p.Eval(P->model)), rel)) P->model_ok = false;
}

static void Flush(std::ostream& o) { o.flush(); }

// Turns the rational model into integers: scales each group.
static bool IntegerModel(std::vector<mpq_class> m, std::vector<mpz_class>* out) {
  std::map<int, mpz_class> l;
  for (size_t i = 0; i < P->vars.size(); ++i) if (!P->vars[i].internal) {
    mpz_class& x = l[P->vars[i].group]; if (x == 0) x = 1;
    x = lcm(x, m[i].get_den());
  }
  // first: scale per group; then: all groups together
  for (int mode = 0; mode < 2; ++mode) {
    std::vector<mpq_class> t = m;
    mpz_class all = 1; for (auto& x : l) all = lcm(all, x.second);
    bool integral = true;
    for (size_t i = 0; i < t.size(); ++i) if (!P->vars[i].internal) {
      int g = P->vars[i].group;
      if (g != 0) t[i] *= mode == 0 ? l[g] : all;
      if (t[i].get_den() != 1) integral = false;
    }
    if (!integral) continue;
    bool ok = true;
    uint64_t internal = 0;
    for (size_t i = 0; i < t.size(); ++i) if (P->vars[i].internal) internal |= uint64_t(1) << i;
    for (auto& c : P->cons) if (!(c.mask & internal)) if (!Holds(sgn(c.p.Eval(t)), c.rel)) { ok = false; break; }
    if (!ok) continue;
    out->clear();
    for (auto& q : t) out->push_back(q.get_num());
    return true;
  }
  return false;
}

// A model of the whole path condition.
static bool PathModel(std::vector<mpz_class>* out) {
  InSolver guard;
  std::vector<mpq_class> m = P->model;
  if (!(P->model_ok && ModelConsistent(m, ~uint64_t(0)))) {
    // solve everything, component by component
    uint64_t todo = 0;
    for (size_t i = 0; i < P->vars.size(); ++i) todo |= uint64_t(1) << i;
    uint64_t active = ActiveDefs(0);
    for (auto& d : P->defs) if (!(active >> d.v & 1)) todo &= ~(uint64_t(1) << d.v);
    m.assign(P->vars.size(), 0);
    while (todo) {
      uint64_t one = todo & -todo; bool nl;
      uint64_t comp = Component(one, &nl);
      todo &= ~comp;
      bool ok = false;
      for (int attempt = 0; attempt < 3 && !ok; ++attempt) {
        try {
          z3::solver s = attempt == 0 && nl ? z3::tactic(*Z, "qfnra-nlsat").mk_solver()
                         : z3::solver(*Z, nl ? "QF_NRA" : "QF_LRA");
          z3::params pr(*Z); pr.set("rlimit", 4 * g_rlimit_nl); s.set(pr);
          for (auto& c : P->cons) if (IsActive(c, active) && (c.mask & comp)) s.add(Rel(ToZ3(c.p), c.rel));
          if (s.check() != z3::sat) continue;
          bool ex = true; ReadModel(s.get_model(), comp, &m, &ex);
          RepairDefs(&m, active);
          ok = ModelConsistent(m, comp);
        } catch (z3::exception&) {}
      }
      if (!ok) return false;
    }
  }
  if (IntegerModel(m, out)) return true;
  // Last resort: ask for integers directly.
  try {
    z3::solver s(*Z);
    z3::params pr(*Z); pr.set("rlimit", 4 * g_rlimit_nl); s.set(pr);
    for (auto& c : P->cons) s.add(Rel(ToZ3(c.p), c.rel));
    for (size_t i = 0; i < P->vars.size(); ++i) if (!P->vars[i].internal)
      s.add(z3::is_int((*ZV)[i]));
    if (s.check() != z3::sat) return false;
    bool ex = true; ReadModel(s.get_model(), ~uint64_t(0), &m, &ex);
    if (!ModelConsistent(m, ~uint64_t(0))) return false;
    out->clear();
    for (auto& q : m) { if (q.get_den() != 1) return false; out->push_back(q.get_num()); }
    return true;
  } catch (z3::exception&) { return false; }
}

static void WriteModel(const std::string& file, const std::vector<mpz_class>& m,
                       const std::string& head) {
  std::ofstream o(file);
  o << head;
  for (auto& in : P->inputs) {
    if (in.kind == 0) o << "var " << in.name << " " << m[in.var].get_str() << " "
                        << P->vars[in.var].group << "\n";
    else o << "choose " << in.name << " " << in.value << "\n";
  }
  std::vector<mpq_class> q; for (auto& x : m) q.push_back(mpq_class(x));
  for (auto& ob : P->observed) {
    Poly p = Canon(ob.second);
    bool internal = false; uint64_t mask = p.VarMask();
    for (size_t i = 0; i < P->vars.size(); ++i) if ((mask >> i & 1) && P->vars[i].internal) internal = true;
    if (!internal) o << "observe " << ob.first << " " << p.Eval(q).get_str() << "\n";
  }
  Flush(o);
}

[[noreturn]] static void Finish() {
  for (pid_t c : P->children) { int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {} }
  _exit(0);
}
static void Release() { S->tokens++; }

[[noreturn]] static void EndPath() {
  long d = P->depth; long m = S->maxdepth.load();
  while (d > m && !S->maxdepth.compare_exchange_weak(m, d)) {}
  Release();
  Finish();
}

void Discard() { S->discarded++; EndPath(); }

static bool g_in_violation = false;
void Violation(const char* kind, const char* what) {
  if (g_in_violation) _exit(3);
  g_in_violation = true;
  long n = S->violations++;
  // Keep a few examples of every kind.
  std::string key = std::string(kind) + ":" + what;
  int slot = -1; int count = 0;
  { SpinLock l;
    for (int i = 0; i < 64; ++i) {
      if (S->kinds[i][0] == 0) { strncpy(S->kinds[i], key.c_str(), 150); slot = i; S->kinds[i][159] = 0; break; }
      if (!strncmp(S->kinds[i], key.c_str(), 150)) { slot = i; break; }
    }
    if (slot >= 0) count = ++S->kinds[slot][159];
    if (slot >= 0 && count > 100) S->kinds[slot][159] = 100;
  }
  if (slot >= 0 && count <= g_max_violations) {
    std::vector<mpz_class> m;
    std::ostringstream head;
    head << "kind " << kind << "\nwhat " << what << "\nuncertain " << P->uncertain << "\n";
    std::string file = g_out + "/viol_" + std::to_string(n) + "_" + std::to_string(getpid());
    if (PathModel(&m)) WriteModel(file + ".model", m, head.str());
    else {
      std::ofstream o(file + ".nomodel"); o << head.str();
      for (auto& c : P->cons) o << "cons " << c.rel << " " << c.p.Str(Names()) << "\n";
      for (auto& in : P->inputs) if (in.kind == 1) o << "choose " << in.name << " " << in.value << "\n";
    }
  }
  EndPath();
}
void Unsupported(const char* what) {
  S->unsupported++;
  { SpinLock l; std::ofstream o(g_out + "/unsupported", std::ios::app); o << what << "\n"; }
  if (g_verbose) fprintf(stderr, "unsupported: %s\n", what);
  EndPath();
}

static void SampleModel() {
  long k = S->samples.load();
  if (k >= g_max_samples) return;
  // spread the samples: take path number 1, 2, 4, 8, ... and every 97th
  long n = S->paths.load();
  if (n > 4 && (n & (n - 1)) && n % 97) return;
  k = S->samples++;
  if (k >= g_max_samples) return;
  std::vector<mpz_class> m;
  if (PathModel(&m)) WriteModel(g_out + "/sample_" + std::to_string(k) + ".model", m, "");
  else { std::ofstream o(g_out + "/sample_" + std::to_string(k) + ".nomodel");
      for (auto& c : P->cons) o << "cons " << c.rel << " " << c.p.Str(Names()) << "\n"; }
}

static void CheckDeadline() {
  if (S->stop.load() || Now() > S->deadline) {
    S->incomplete++;
    EndPath();
  }
}

// Splits execution; returns the index of the outcome this process continues with.
static int Fork(int n) {
  S->decisions++;
  P->depth++;
  CheckDeadline();
  for (int i = n - 1; i >= 1; --i) {
    // reap finished children
    for (size_t c = 0; c < P->children.size();) {
      int st; if (waitpid(P->children[c], &st, WNOHANG) == P->children[c]) {
        P->children.erase(P->children.begin() + c);
      } else ++c;
    }
    S->forks++;
    int tok = S->tokens.load();
    bool own = false;
    while (tok > 0 && !own) own = S->tokens.compare_exchange_weak(tok, tok - 1);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { S->incomplete++; if (own) S->tokens++; continue; }
    if (pid == 0) { P->children.clear(); ResetCpuLimit(); return i; }
    if (own) P->children.push_back(pid);
    else {
      int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      // The child released the token it inherited; take one back.
      for (;;) {
        int t = S->tokens.load();
        if (t > 0 && S->tokens.compare_exchange_weak(t, t - 1)) break;
        usleep(200);
      }
    }
  }
  return 0;
}

// ---------------------------------------------------------------- sign oracle
static int DecideFactor(const Poly& f);

// Sign by the signs of the monomials, when all agree.
static int QuickSign(const Poly& f, bool* ok) {
  *ok = false;
  int s = 0; bool strict = false;
  for (auto& t : f.t) {
    int ts = sgn(t.second); bool pos_known = true;
    for (int i = 0; i < (int)P->vars.size(); ++i) if (t.first.e[i]) {
      auto it = P->known.find(Poly::Var(i));
      if (it != P->known.end()) {
        if (t.first.e[i] & 1) ts *= it->second; else if (it->second == 0) ts = 0;
      } else if (t.first.e[i] & 1) return 0;
      else pos_known = false;  // an even power: >= 0
    }
    if (ts == 0) continue;
    if (s == 0) s = ts; else if (s != ts) return 0;
    if (pos_known) strict = true;
  }
  if (s == 0) { *ok = true; return 0; }
  if (!strict) return 0;
  *ok = true; return s;
}

static int SignNormalized(const Poly& p) {
  // p: substituted, nonconstant
  auto it = P->known.find(p);
  if (it != P->known.end()) return it->second;
  std::vector<std::pair<Poly, int>> fs;
  mpz_class c = Factor(p, &fs);
  int s = sgn(c);
  bool zero = false;
  for (auto& f : fs) {
    // A factor known to be zero decides the product.
    auto k = P->known.find(f.first);
    if (k != P->known.end() && k->second == 0) zero = true;
  }
  if (zero) return 0;
  for (auto& f : fs) {
    // Deciding one factor may refine the others: substitute again.
    Poly q = ApplySubs(f.first);
    int r;
    if (q.IsConst()) r = sgn(q.ConstValue());
    else if (q == f.first) r = DecideFactor(q);
    else { int fl; Poly n = Normalize(q, &fl); r = fl * SignNormalized(n); }
    if (r == 0) return 0;
    if (f.second & 1) s *= r;
  }
  return s;
}

static int DecideFactor(const Poly& f0) {
  int fl; Poly f = Normalize(f0, &fl);
  auto it = P->known.find(f);
  if (it != P->known.end()) { return fl * it->second; }
  bool ok; int qs = QuickSign(f, &ok);
  if (ok) { AddKnown(f, qs); return fl * qs; }
  // Divisible by something of known sign?
  if (f.Degree() > 1) {
    for (auto& k : P->known) {
      if (k.first.Degree() >= f.Degree() || k.first.Degree() < 1) continue;
      if ((k.first.VarMask() & ~f.VarMask())) continue;
      Poly q; mpz_class den;
      if (f.DivExact(k.first, &q, &den)) {
        if (k.second == 0) return 0;
        int ks = k.second;
        return fl * ks * SignNormalized([&] { int g; Poly n = Normalize(q, &g); ks *= g; return n; }()) *
               (q.t[0].second < 0 ? -1 : 1);
      }
    }
  }
  // Ask the solver.
  const char rels[3] = {'>', '<', '='};
  const int signs[3] = {1, -1, 0};
  bool feas[3] = {false, false, false};
  std::vector<mpq_class> models[3]; bool exact[3] = {false, false, false};
  int have = -1;
  if (P->model_ok) {
    int s = sgn(f.Eval(P->model));
    for (int i = 0; i < 3; ++i) if (signs[i] == s) { feas[i] = true; models[i] = P->model; exact[i] = true; have = i; }
    S->model_hits++;
  }
  bool unknown = false;
  for (int i = 0; i < 3; ++i) {
    if (i == have) continue;
    // the last remaining possibility needs no query
    bool others = false; for (int j = 0; j < 3; ++j) if (j != i && feas[j]) others = true;
    if (i == 2 && !others) { feas[i] = true; break; }
    Tri r = Query(f, rels[i], &models[i], &exact[i]);
    if (r == kSat) feas[i] = true;
    if (r == kUnknown) { feas[i] = true; unknown = true; models[i] = P->model; exact[i] = false; }
  }
  std::vector<int> opts;
  for (int i = 0; i < 3; ++i) if (feas[i]) opts.push_back(i);
  int pick = opts.size() == 1 ? 0 : Fork(opts.size());
  int o = opts[pick];
  if (unknown && opts.size() > 1) P->uncertain = true;
  int s = signs[o];
  P->model_ok = exact[o];
  if (exact[o]) P->model = models[o];
  AddKnown(f, s);
  if (opts.size() > 1 || f.Degree() > 1) AddCons(f, rels[o]);
  if (s == 0) AddSub(f);
  return fl * s;
}

static int Weight(const Mono& m) {
  int w = 0;
  for (size_t i = 0; i < P->vars.size(); ++i) w += m.e[i] * P->vars[i].weight;
  return w;
}
static int MaxWeight(const Poly& p) {
  int w = -1000000;
  for (auto& t : p.t) w = std::max(w, Weight(t.first));
  return w;
}
int Sign(const Poly& p0) {
  S->sign_queries++;
  Poly p = ApplySubs(p0);
  if (P->divisible && !p.IsConst()) {
    // For all large enough common factors of the inputs, the terms of the
    // highest degree decide.
    int w = MaxWeight(p);
    Poly top, rest;
    for (auto& t : p.t) (Weight(t.first) == w ? top : rest).t.push_back(t);
    if (!rest.t.empty()) {
      int r = Sign(top);
      return r != 0 ? r : Sign(rest);
    }
  }
  if (p.IsConst()) { S->syntactic++; return sgn(p.ConstValue()); }
  int fl; Poly n = Normalize(p, &fl);
  auto it = P->known.find(n);
  if (it != P->known.end()) { S->syntactic++; return fl * it->second; }
  return fl * SignNormalized(n);
}

Poly Fresh(const char* name, int group) {
  int v = NewVar(name, group, false);
  P->inputs.push_back({0, v, 0, name});
  return Poly::Var(v);
}
int Choose(int n, const char* name) {
  int r = n > 1 ? Fork(n) : 0;
  P->inputs.push_back({1, -1, r, name});
  return r;
}
void Constrain(const Poly& p0, char rel) {
  Poly p = ApplySubs(p0);
  if (p.IsConst()) { if (!Holds(sgn(p.ConstValue()), rel)) Discard(); return; }
  int fl; Poly n = Normalize(p, &fl);
  if (fl < 0) switch (rel) { case '<': rel = '>'; break; case '>': rel = '<'; break;
                             case 'l': rel = 'g'; break; case 'g': rel = 'l'; break; }
  auto it = P->known.find(n);
  if (it != P->known.end()) { if (!Holds(it->second, rel)) Discard(); return; }
  std::vector<mpq_class> m; bool exact = false;
  if (g_def < 0 && !(P->model_ok && Holds(sgn(n.Eval(P->model)), rel))) {
    Tri r = Query(n, rel, &m, &exact);
    if (r == kUnsat) Discard();
    if (r == kUnknown) P->uncertain = true;
    P->model_ok = exact; if (exact) P->model = m;
  }
  if (rel == '<' || rel == '>' || rel == '=') AddKnown(n, rel == '<' ? -1 : rel == '>' ? 1 : 0);
  AddCons(n, rel);
  if (rel == '=') AddSub(n);
}
void CountCheck() { S->checks++; }
// There are no values that satisfy the path condition with all of these > 0.
void CheckNone(const std::vector<Poly>& pos, const char* what) {
  CountCheck();
  std::vector<Poly> ps;
  bool linear = true;
  for (const Poly& p0 : pos) {
    Poly p = ApplySubs(p0);
    if (p.IsConst()) { if (sgn(p.ConstValue()) <= 0) return; continue; }
    ps.push_back(p);
    if (p.Degree() > 1) linear = false;
  }
  if (linear && !ps.empty()) {
    double t0 = Now();
    z3::check_result r = z3::unknown;
    {
      InSolver guard;
      try {
        LIN->push();
        for (const Poly& p : ps) LIN->add(Rel(ToZ3(p), '>'));
        r = LIN->check();
        LIN->pop();
      } catch (z3::exception&) { r = z3::unknown; }
    }
    S->z3_ns += long((Now() - t0) * 1e9);
    ResetCpuLimit();
    if (r == z3::unsat) { S->z3_unsat++; return; }
    if (r == z3::sat) S->z3_sat++;
  }
  if (Fork(2) == 1) {
    for (const Poly& p : ps) Constrain(p, '>');
    Violation("check", what);
  }
}
void Reach(const char* label) {
  for (int i = 0; i < 64; ++i) {
    if (!strncmp(S->reach[i], label, 47)) { S->reach_n[i]++; return; }
    if (S->reach[i][0] == 0) {
      SpinLock l;
      if (S->reach[i][0] == 0) strncpy(S->reach[i], label, 47);
      if (!strncmp(S->reach[i], label, 47)) { S->reach_n[i]++; return; }
    }
  }
}
void Observe(const char* name, const Poly& p) { P->observed.emplace_back(name, p); }

Poly GcdOf(const Poly& a0, const Poly& b0) {
  Poly a = Canon(a0), b = Canon(b0);
  auto key = std::make_pair(a, b);
  auto it = P->gcds.find(key);
  if (it != P->gcds.end()) return it->second;
  // The common polynomial factor is certainly common (Gauss' lemma: quotients
  // have integer coefficients).
  Poly h = Gcd(a, b).Scale(gcd(a.Content(), b.Content()));
  Poly qa, qb; mpz_class da, db;
  a.DivExact(h, &qa, &da); b.DivExact(h, &qb, &db);
  Poly res;
  // Two constants have no common factor left, as the contents were divided.
  if ((qa.IsConst() && qb.IsConst()) || (qa.IsConst() && abs(qa.ConstValue()) == 1) || (qb.IsConst() && abs(qb.ConstValue()) == 1)) {
    res = h;
  } else {
    // times an unknown positive integer
    int g = NewVar("gcd", 0, true);
    int s = NewVar("inv", 0, true);
    P->inverse[s] = g;
    P->known[Poly::Var(g)] = 1; P->known[Poly::Var(s)] = 1;
    P->model[g] = 1; P->model[s] = 1;
    AddCons(Poly::Var(g), '>'); AddCons(Poly::Var(s), '>');
    res = h * Poly::Var(g);
  }
  P->gcds[key] = res;
  return res;
}
void DivRem(const Poly& a0, const Poly& b0, Poly* q, Poly* r) {
  Poly a = Canon(a0), b = Canon(b0);
  *r = Poly();
  mpz_class den;
  // division by c * g^k: multiply by s^k
  Poly a2 = a, b2 = b;
  for (auto& sg : P->inverse) {
    Mono m = b2.MonoContent();
    int k = m.e[sg.second];
    if (k) {
      Mono d; d.e[sg.second] = k; b2 = b2.DivMono(d);
      Poly sp; Mono sm; sm.e[sg.first] = k; sp.t.emplace_back(sm, mpz_class(1));
      a2 = Canon(a2 * sp);
    }
  }
  if (a2.DivExact(b2, q, &den) && den == 1) return;
  Poly as = ApplySubs(a2), bs = ApplySubs(b2);
  // (substitution may introduce denominators, so only used when none occur)
  bool plain = true; for (auto& s : P->subs) if (s.den != 1) plain = false;
  if (plain && as.DivExact(bs, q, &den) && den == 1) return;
  if (P->divisible) {
    // an exact quotient
    Poly num, b3(1);
    if (a2.DivExact(b2, &num, &den)) b3 = Poly(den); else { num = a2; b3 = b2; }
    auto key = std::make_pair(num, b3);
    auto it = P->fracs.find(key);
    if (it == P->fracs.end()) {
      Sign(b2);
      int v = NewVar("frac", 0, true);
      it = P->fracs.emplace(key, v).first;
      P->vars[v].weight = MaxWeight(num) - MaxWeight(b3);
      P->defs.push_back({v, num, b3, true});
      RepairDefs(&P->model, ~(uint64_t(1) << v));
      g_def = v;
      Constrain(Poly::Var(v) * b3 - num, '=');
      g_def = -1;
    }
    *q = Poly::Var(it->second);
    return;
  }
  // a = q*b + r, |r| < |b|, r has the sign of a
  int sa = Sign(a2), sb = Sign(b2);
  if (sa == 0) { *q = Poly(); return; }
  // The quotient is the only new unknown, the remainder follows.
  int vq = NewVar("quot", 0, true);
  Poly Q = Poly::Var(vq);
  Poly absb = sb > 0 ? b2 : -b2;
  Poly R = a2 - Q * b2;
  P->defs.push_back({vq, a2, b2, false});
  RepairDefs(&P->model, ~(uint64_t(1) << vq));
  g_def = vq;
  if (sa > 0) { Constrain(R, 'g'); Constrain(absb - R, '>'); }
  else { Constrain(R, 'l'); Constrain(absb + R, '>'); }
  g_def = -1;
  *q = Q; *r = R;
}
bool InRange(const Poly& p, const mpz_class& lo, const mpz_class& hi) {
  if (Sign(p - Poly(lo)) < 0) return false;
  return Sign(p - Poly(hi)) <= 0;
}
long VaryMagnitude(int s) {
  // The real GetSign() returns a word of unspecified magnitude.
  static const long mags[3] = {1, 1L << 40, 0x7fffffff00000000L};
  return s * mags[P->query_counter++ % 3];
}
double ToDouble(const Poly& p) { if (P->print_only) return 0; Unsupported("conversion of a symbolic integer to floating point"); }

}  // namespace sym

// ------------------------------------------------------------------ harness API
namespace hv {
struct Entry { const char* name; HarnessFn fn; int tier; const char* bounds; };
static std::vector<Entry>& Entries() { static std::vector<Entry> e; return e; }
Registration::Registration(const char* n, HarnessFn f, int t, const char* b) { Entries().push_back({n, f, t, b}); }
BigInt Var(const char* name, int group) { return BigInt(sym::Fresh(name, group)); }
int Choose(int n, const char* name) { return sym::Choose(n, name); }
static void Con(const BigInt& v, char rel) {
  if (v.is_const()) { if (!sym::Holds(sgn(v.const_value()), rel)) sym::Discard(); return; }
  sym::Constrain(v.poly(), rel);
}
void AssumeScaled() { sym::P->divisible = true; }
void PrintOnly() { sym::P->print_only = true; }
void AssumePos(const BigInt& v) { Con(v, '>'); }
void AssumeNonNeg(const BigInt& v) { Con(v, 'g'); }
void AssumeNonZero(const BigInt& v) { Con(v, '!'); }
void AssumeZero(const BigInt& v) { Con(v, '='); }
void Assume(bool b) { if (!b) sym::Discard(); }
void Check(bool b, const char* what) { sym::CountCheck(); if (!b) sym::Violation("check", what); }
void CheckNone(const std::vector<BigInt>& positive, const char* what) {
  std::vector<sym::Poly> p;
  for (const BigInt& v : positive) {
    if (v.is_const()) { if (sgn(v.const_value()) <= 0) { sym::CountCheck(); return; } continue; }
    p.push_back(v.poly());
  }
  sym::CheckNone(p, what);
}
void Reach(const char* l) { sym::Reach(l); }
void Observe(const char* n, const BigInt& v) { sym::Observe(n, v.poly()); }
int SignOf(const BigInt& v) { return v.Sgn(); }
bool Thorough() { return sym::g_thorough; }
bool Symbolic() { return true; }
}  // namespace hv

extern "C" {
void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) noexcept {
  const char* b = strrchr(file, '/');
  static char buf[400];
  snprintf(buf, sizeof buf, "%s:%s", b ? b + 1 : file, e);
  sym::Violation("assert", buf);
}
NOINSTR void __cyg_profile_func_enter(void* fn, void*) {
  if (!sym::S) return;
  unsigned h = (unsigned)(((uintptr_t)fn >> 4) * 2654435761u) >> 17;
  for (int i = 0; i < 64; ++i) {
    auto& slot = sym::S->funcs[(h + i) & 32767];
    void* cur = slot.load(std::memory_order_relaxed);
    if (cur == fn) return;
    if (cur == nullptr) { slot.store(fn); return; }
  }
}
NOINSTR void __cyg_profile_func_exit(void*, void*) {}
}

static void OnSignal(int sig) {
  if (sig == SIGXCPU && sym::g_in_solver) { sym::S->incomplete++; sym::EndPath(); }
  sym::S->crashes++;
  sym::Violation("crash", sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "abort" :
                 sig == SIGFPE ? "SIGFPE" : sig == SIGXCPU ? "does not terminate" : "signal");
}

int main(int argc, char** argv) {
  using namespace sym;
  std::string only; int jobs = 8; double budget = 60; bool list = false; double cpu = 0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--list") list = true;
    else if (a == "--harness") only = argv[++i];
    else if (a == "--out") g_out = argv[++i];
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--seed") g_seed = atoi(argv[++i]);
    else if (a == "--samples") g_max_samples = atoi(argv[++i]);
    else if (a == "-v") g_verbose = true;
  }
  if (list) { for (auto& e : hv::Entries()) printf("%s\t%d\t%s\n", e.name, e.tier, e.bounds); return 0; }
  hv::Entry* entry = nullptr;
  for (auto& e : hv::Entries()) if (only == e.name) entry = &e;
  if (!entry) { fprintf(stderr, "no harness %s\n", only.c_str()); return 2; }
  if (g_out.empty()) { g_out = "/tmp/intsym_out"; }
  mkdir(g_out.c_str(), 0777);
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  S->tokens = jobs;
  double t0 = Now();
  S->deadline = t0 + budget;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    S->tokens--;
    setpgid(0, 0);
    ResetCpuLimit();
    if (!g_verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); }
    static char stack[1 << 16];
    stack_t ss; ss.ss_sp = stack; ss.ss_size = sizeof stack; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = OnSignal; sa.sa_flags = SA_NODEFER;
    // Not on the alternate stack: computing the model needs a normal one,
    // unless the stack itself overflowed.
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU}) sigaction(s, &sa, nullptr);
    (void)cpu;
    P = new Path; Z = new z3::context; ZV = new std::vector<z3::expr>;
    { struct rlimit as; as.rlim_cur = as.rlim_max = 6ul << 30; setrlimit(RLIMIT_AS, &as); }
    ZV->reserve(64);
    LIN = new z3::solver(*Z, "QF_LRA");
    z3::params pr(*Z); pr.set("rlimit", 0u); LIN->set(pr);
    entry->fn();
    S->paths++;
    if (P->uncertain) S->unknown_paths++;
    SampleModel();
    EndPath();
  }
  // watchdog: descendants must stop shortly after the deadline
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  int st; bool killed = false;
  for (;;) {
    pid_t r = waitpid(-1, &st, WNOHANG);
    if (r < 0 && errno == ECHILD) break;
    if (r == pid && WIFSIGNALED(st)) S->incomplete++;
    if (r > 0) continue;
    if (Now() > S->deadline + 30 && !killed) { killed = true; S->incomplete++; S->stop = 1; }
    if (Now() > S->deadline + 60) { kill(-pid, SIGKILL); }
    usleep(5000);
  }
  // functions executed
  { std::ofstream o(g_out + "/funcs");
    for (auto& f : S->funcs) if (f.load()) o << f.load() << "\n"; }
  printf("{\"harness\":\"%s\",\"paths\":%ld,\"discarded\":%ld,\"violations\":%ld,\"unsupported\":%ld,"
         "\"incomplete\":%ld,\"crashes\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"solver_s\":%.3f,"
         "\"model_hits\":%ld,\"syntactic\":%ld,\"sign_queries\":%ld,\"decisions\":%ld,\"checks\":%ld,"
         "\"maxdepth\":%ld,\"uncertain_paths\":%ld,\"wall_s\":%.2f,\"bounds\":\"%s\",\"reach\":{",
         entry->name, S->paths.load(), S->discarded.load(), S->violations.load(), S->unsupported.load(),
         S->incomplete.load(), S->crashes.load(), S->z3_sat.load(), S->z3_unsat.load(), S->z3_unknown.load(),
         S->z3_ns.load() * 1e-9, S->model_hits.load(), S->syntactic.load(), S->sign_queries.load(),
         S->decisions.load(), S->checks.load(), S->maxdepth.load(), S->unknown_paths.load(), Now() - t0, entry->bounds);
  bool first = true;
  for (int i = 0; i < 64 && S->reach[i][0]; ++i) {
    printf("%s\"%s\":%ld", first ? "" : ",", S->reach[i], S->reach_n[i].load()); first = false;
  }
  printf("}}\n");
  return 0;
}
