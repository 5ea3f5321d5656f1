#include "state.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <execinfo.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <z3++.h>

namespace ir {

struct Shared {
  std::atomic<long> paths, discarded, violations, unsupported, incomplete, crashes;
  std::atomic<long> z3_sat, z3_unsat, z3_unknown, z3_ns, model_hits, syntactic, decisions, checks;
  std::atomic<long> maxdepth, samples, unknown_paths, sign_queries, inexact, ext, violnum, unresolved;
  std::atomic<int> tokens, stop, lock;
  double deadline;
  char kinds[64][160];
  std::atomic<int> nfuncs;
  char funcs[2048][120];
};
static Shared* S;
static std::string g_out;
static int g_max_samples = 12;
static bool g_thorough = false, g_verbose = false;
static unsigned g_seed = 1;
static long g_max_violations = 6;
static unsigned g_rlimit = 150000;
static int g_ext_ms = 20000;

static double Now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
struct SpinLock {
  SpinLock() { int z = 0; while (!S->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(50); } }
  ~SpinLock() { S->lock.store(0); }
};

struct VarInfo {
  std::string name; bool input; Mpz lo, hi; int f1 = -1, f2 = -1; Mpz sh;
};
struct Cons { Lin e; Rel rel; };
struct Input { int kind, var, value; std::string name; };
struct Path {
  std::vector<VarInfo> v;
  std::vector<Cons> cons;
  std::vector<Input> inputs;
  std::map<std::pair<int, int>, int> products;
  std::map<int, std::vector<int>> uses;        // factor -> products
  std::map<std::pair<Lin, Mpz>, int> floors;
  std::map<int, std::pair<Lin, Mpz>> floor_def;
  std::map<std::pair<Lin, int>, bool> known;
  std::map<int, std::vector<int>> cons_of;     // variable -> constraints
  std::map<std::vector<std::pair<int, Mpz>>, std::pair<Mpz, Mpz>> ranges;  // of sums, without their constant
  std::map<int, Lin> subs;                     // eliminated variables
  std::set<int> dirty;                         // variables whose bounds changed
  bool shadow_ok = true;
  bool uncertain = false;
  int depth = 0;
  std::vector<pid_t> children;
};
static Path* P;
static z3::context* Z;
static z3::solver* SOL;
static std::vector<z3::expr>* ZV;

// ---------------------------------------------------------------- Lin
Lin VarLin(int v) { Lin l; l.t.push_back({v, 1}); return l; }
static Lin Comb(const Lin& a, const Lin& b, int sb) {
  Lin r; r.c = sb > 0 ? Mpz(a.c + b.c) : Mpz(a.c - b.c);
  size_t i = 0, j = 0;
  r.t.reserve(a.t.size() + b.t.size());
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
    else if (i == a.t.size() || b.t[j].first < a.t[i].first) {
      r.t.push_back(b.t[j++]); if (sb < 0) r.t.back().second = -r.t.back().second;
    } else {
      Mpz k = sb > 0 ? Mpz(a.t[i].second + b.t[j].second) : Mpz(a.t[i].second - b.t[j].second);
      if (k != 0) r.t.push_back({a.t[i].first, k});
      ++i; ++j;
    }
  }
  return r;
}
Lin operator+(const Lin& a, const Lin& b) { return Comb(a, b, 1); }
Lin operator-(const Lin& a, const Lin& b) { return Comb(a, b, -1); }
Lin operator*(const Lin& a, const Mpz& k) {
  if (k == 0) return Lin();
  Lin r = a; r.c *= k; for (auto& x : r.t) x.second *= k; return r;
}
Mpz FloorDiv(const Mpz& a, const Mpz& b) { Mpz q; mpz_fdiv_q(q.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return q; }
Mpz CeilDiv(const Mpz& a, const Mpz& b) { Mpz q; mpz_cdiv_q(q.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return q; }
static void SumInterval(const Lin& e, Mpz* lo, Mpz* hi) {
  *lo = e.c; *hi = e.c;
  for (auto& x : e.t) {
    const VarInfo& v = P->v[x.first];
    if (x.second > 0) { *lo += x.second * v.lo; *hi += x.second * v.hi; }
    else { *lo += x.second * v.hi; *hi += x.second * v.lo; }
  }
}
// Ranges of whole sums, where they are known to be tighter than term by term.
static std::vector<std::pair<int, Mpz>> RangeKey(const Lin& e, bool* neg) {
  *neg = e.t[0].second < 0;
  auto k = e.t; if (*neg) for (auto& x : k) x.second = -x.second;
  return k;
}
void Interval(const Lin& e, Mpz* lo, Mpz* hi) {
  SumInterval(e, lo, hi);
  if (e.t.size() < 2) return;
  bool neg; auto it = P->ranges.find(RangeKey(e, &neg));
  if (it == P->ranges.end()) return;
  Mpz l = e.c + (neg ? Mpz(-it->second.second) : it->second.first), h = e.c + (neg ? Mpz(-it->second.first) : it->second.second);
  if (l > *lo) *lo = l;
  if (h < *hi) *hi = h;
}
void NoteRange(const Lin& e, const Mpz& lo, const Mpz& hi) {
  if (e.t.size() < 2) return;
  bool neg; auto k = RangeKey(e, &neg);
  Mpz l = lo - e.c, h = hi - e.c; if (neg) { Mpz t = -l; l = -h; h = t; }
  auto r = P->ranges.insert({k, {l, h}});
  if (!r.second) { auto& x = r.first->second; if (l > x.first) x.first = l; if (h < x.second) x.second = h; }
}
Mpz Shadow(const Lin& e) { Mpz r = e.c; for (auto& x : e.t) r += x.second * P->v[x.first].sh; return r; }
std::string Str(const Lin& e) {
  std::string s = e.c.get_str();
  for (auto& x : e.t) s += " + " + x.second.get_str() + "*" + P->v[x.first].name;
  return s;
}
static z3::expr RelZ3(const Lin& e, Rel rel);
static bool HoldsS(int s, Rel r) { return r == LE ? s <= 0 : r == EQ ? s == 0 : r == NE ? s != 0 : s > 0; }
static Rel Neg(Rel r) { return r == LE ? GT : r == GT ? LE : r == EQ ? NE : EQ; }

// ---------------------------------------------------------------- z3
static z3::expr Num(const Mpz& m) { return Z->int_val(m.get_str().c_str()); }
static z3::expr ToZ3(const Lin& e) {
  z3::expr r = Num(e.c);
  for (auto& x : e.t) r = r + Num(x.second) * (*ZV)[x.first];
  return r;
}
static z3::expr RelZ3(const Lin& e, Rel rel) {
  // Move the constant right: smaller terms.
  Lin l = e; Mpz k = -l.c; l.c = 0;
  z3::expr_vector sum(*Z);
  for (auto& x : l.t) sum.push_back(x.second == 1 ? (*ZV)[x.first] : Num(x.second) * (*ZV)[x.first]);
  z3::expr s = sum.empty() ? Num(0) : sum.size() == 1 ? sum[0] : z3::sum(sum);
  switch (rel) {
    case LE: return s <= Num(k);
    case GT: return s > Num(k);
    case EQ: return s == Num(k);
    default: return s != Num(k);
  }
}
static void CheckDeadline();
// What z3 leaves open within its resource limit goes to cvc5.
static std::vector<Mpz> g_ext_model;
static z3::check_result External() {
  std::string q = "(set-option :produce-models true)\n(set-logic QF_LIA)\n" + SOL->to_smt2() + "\n(get-value (";
  for (size_t i = 0; i < ZV->size(); ++i) q += "v" + std::to_string(i) + " ";
  q += "))\n";
  int in[2], out[2];
  if (pipe(in) || pipe(out)) return z3::unknown;
  S->ext++;
  pid_t pid = fork();
  if (pid < 0) { for (int f : {in[0], in[1], out[0], out[1]}) close(f); return z3::unknown; }
  if (pid == 0) {
    dup2(in[0], 0); dup2(out[1], 1); int n = open("/dev/null", O_WRONLY); dup2(n, 2);
    for (int f : {in[0], in[1], out[0], out[1]}) close(f);
    signal(SIGPIPE, SIG_DFL);
    execlp("cvc5", "cvc5", "--lang=smt2", ("--tlimit=" + std::to_string(g_ext_ms)).c_str(), "-", (char*)nullptr);
    _exit(1);
  }
  close(in[0]); close(out[1]);
  signal(SIGPIPE, SIG_IGN);
  for (size_t p = 0; p < q.size();) { ssize_t n = write(in[1], q.data() + p, q.size() - p); if (n <= 0) break; p += n; }
  close(in[1]);
  std::string a; char buf[4096]; ssize_t n;
  while ((n = read(out[0], buf, sizeof buf)) > 0) a.append(buf, n);
  close(out[0]);
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (a.compare(0, 5, "unsat") == 0) return z3::unsat;
  if (a.compare(0, 3, "sat") != 0) return z3::unknown;
  g_ext_model.assign(ZV->size(), Mpz(0));
  for (size_t i = 3; i < a.size(); ++i) {
    if (a[i] != 'v' || i == 0 || a[i - 1] != '(') continue;
    size_t id = strtoul(a.c_str() + i + 1, nullptr, 10);
    while (i < a.size() && a[i] != ' ') ++i;
    bool neg = false; std::string d;
    for (; i < a.size() && a[i] != ')'; ++i) { if (a[i] == '-') neg = true; else if (isdigit(a[i])) d += a[i]; }
    if (id < g_ext_model.size() && !d.empty()) { g_ext_model[id] = Mpz(d); if (neg) g_ext_model[id] = -g_ext_model[id]; }
  }
  return z3::sat;
}
static bool g_full = false;  // whether the query at hand is worth the second solver
static z3::check_result Check() {
  CheckDeadline();
  struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
  z3::check_result r = z3::unknown;
  g_ext_model.clear();
  try { r = SOL->check(); } catch (z3::exception&) { r = z3::unknown; }
  if (r == z3::unknown && g_full) r = External();
  clock_gettime(CLOCK_MONOTONIC, &b);
  S->z3_ns += (b.tv_sec - a.tv_sec) * 1000000000L + (b.tv_nsec - a.tv_nsec);
  if (r == z3::sat) S->z3_sat++; else if (r == z3::unsat) S->z3_unsat++; else S->z3_unknown++;
  return r;
}
static void ReadModel(std::vector<Mpz>* out) {
  if (!g_ext_model.empty()) { *out = g_ext_model; return; }
  z3::model m = SOL->get_model();
  out->clear();
  for (size_t i = 0; i < P->v.size(); ++i) {
    z3::expr e = m.eval((*ZV)[i], true);
    out->push_back(Mpz(Z3_get_numeral_string(*Z, e)));
  }
}
static z3::check_result Query(const Lin& e, Rel rel, std::vector<Mpz>* model) {
  SOL->push();
  SOL->add(RelZ3(e, rel));
  double t0 = Now();
  z3::check_result r = Check();
  if (getenv("IRDUMP") && Now() - t0 > 0.5) {
    static int k; std::ofstream o(std::string(getenv("IRDUMP")) + "/" + std::to_string(getpid()) + "_" + std::to_string(k++) + "_" + std::to_string((int)r) + ".smt2");
    o << "(set-logic QF_LIA)\n" << SOL->to_smt2();
  }
  if (getenv("IRSLOW") && Now() - t0 > 0.5) fprintf(stderr, "slow %d %.1fs terms %zu cons %zu vars %zu rel %d : %s\n", (int)r, Now() - t0, e.t.size(), P->cons.size(), P->v.size(), rel, Str(e).substr(0, 200).c_str());
  if (r == z3::sat && model) ReadModel(model);
  SOL->pop();
  return r;
}

// ---------------------------------------------------------------- variables
static void McCormick(int p) {
  const VarInfo& pv = P->v[p]; int x = pv.f1, y = pv.f2;
  const VarInfo &X = P->v[x], &Y = P->v[y];
  Lin px = VarLin(p), lx = VarLin(x), ly = VarLin(y);
  auto corner = [&](const Mpz& a, const Mpz& b) { return px - ly * a - lx * b + Lin(a * b); };
  for (auto& l : {corner(X.lo, Y.lo) * -1, corner(X.hi, Y.hi) * -1, corner(X.hi, Y.lo), corner(X.lo, Y.hi)})
    SOL->add(RelZ3(l, LE));
}
static void Tighten(int v);
static void SetBounds(int v, const Mpz* lo, const Mpz* hi) {
  VarInfo& V = P->v[v]; bool ch = false;
  if (lo && *lo > V.lo) { V.lo = *lo; ch = true; }
  if (hi && *hi < V.hi) { V.hi = *hi; ch = true; }
  if (V.lo > V.hi) { S->discarded++; S->syntactic++; throw 1; }
  if (ch) { P->dirty.insert(v); Tighten(v); }
}
static void ProductBounds(int p, Mpz* lo, Mpz* hi) {
  const VarInfo &X = P->v[P->v[p].f1], &Y = P->v[P->v[p].f2];
  Mpz c[4] = {X.lo * Y.lo, X.lo * Y.hi, X.hi * Y.lo, X.hi * Y.hi};
  *lo = c[0]; *hi = c[0];
  for (auto& k : c) { if (k < *lo) *lo = k; if (k > *hi) *hi = k; }
  if (P->v[p].f1 == P->v[p].f2 && *lo < 0) *lo = 0;
}
static void Tighten(int v) {
  auto it = P->uses.find(v);
  if (it == P->uses.end()) return;
  for (int p : std::vector<int>(it->second)) {
    Mpz lo, hi; ProductBounds(p, &lo, &hi);
    McCormick(p);
    SetBounds(p, &lo, &hi);
  }
}
int NewVar(const std::string& name, const Mpz& lo, const Mpz& hi, bool input, const Mpz& sh) {
  VarInfo x; x.name = name; x.lo = lo; x.hi = hi; x.input = input; x.sh = sh;
  P->v.push_back(x);
  int id = (int)P->v.size() - 1;
  ZV->push_back(Z->int_const(("v" + std::to_string(id)).c_str()));
  SOL->add((*ZV)[id] >= Num(lo)); SOL->add((*ZV)[id] <= Num(hi));
  return id;
}
static int ProductVar(int a, int b) {
  if (a > b) std::swap(a, b);
  auto it = P->products.find({a, b});
  if (it != P->products.end()) return it->second;
  VarInfo x; x.name = P->v[a].name + "*" + P->v[b].name; x.input = false; x.f1 = a; x.f2 = b;
  x.sh = P->v[a].sh * P->v[b].sh;
  P->v.push_back(x);
  int id = (int)P->v.size() - 1;
  ZV->push_back(Z->int_const(("v" + std::to_string(id)).c_str()));
  Mpz lo, hi; ProductBounds(id, &lo, &hi);
  P->v[id].lo = lo; P->v[id].hi = hi;
  SOL->add((*ZV)[id] >= Num(lo)); SOL->add((*ZV)[id] <= Num(hi));
  P->products[{a, b}] = id;
  P->uses[a].push_back(id); if (a != b) P->uses[b].push_back(id);
  McCormick(id);
  return id;
}
// Products are nested pairwise; flatten to a canonical nesting.
static void Factors(int v, std::vector<int>* out) {
  if (P->v[v].f1 >= 0) { Factors(P->v[v].f1, out); Factors(P->v[v].f2, out); } else out->push_back(v);
}
static int ProductOf(int a, int b) {
  std::vector<int> f; Factors(a, &f); Factors(b, &f);
  std::sort(f.begin(), f.end());
  int p = f[0];
  for (size_t i = 1; i < f.size(); ++i) p = ProductVar(p, f[i]);
  return p;
}
Lin Product(const Lin& a, const Lin& b) {
  if (a.Const()) return b * a.c;
  if (b.Const()) return a * b.c;
  std::map<int, Mpz> m;
  Lin r; r.c = a.c * b.c;
  for (auto& x : a.t) m[x.first] += x.second * b.c;
  for (auto& x : b.t) m[x.first] += x.second * a.c;
  for (auto& x : a.t) for (auto& y : b.t) m[ProductOf(x.first, y.first)] += x.second * y.second;
  for (auto& x : m) if (x.second != 0) r.t.push_back(x);
  return r;
}

// Products of sums: bounds that follow from the ranges of the two factors.
void ProductLemmas(const Lin& a, const Lin& b) {
  if (a.Const() || b.Const() || (a.t.size() == 1 && b.t.size() == 1)) return;
  Mpz al, ah, bl, bh; Interval(a, &al, &ah); Interval(b, &bl, &bh);
  Lin p = Product(a, b);
  auto corner = [&](const Mpz& x, const Mpz& y) { return p - b * x - a * y + Lin(x * y); };
  for (auto& l : {corner(al, bl) * -1, corner(ah, bh) * -1, corner(ah, bl), corner(al, bh)}) SOL->add(RelZ3(l, LE));
}
Lin Subst(const Lin& e) {
  bool any = false;
  for (auto& x : e.t) if (P->v[x.first].lo == P->v[x.first].hi || P->subs.count(x.first)) { any = true; break; }
  if (!any) return e;
  Lin r; r.c = e.c;
  for (auto& x : e.t) {
    const VarInfo& v = P->v[x.first];
    auto it = P->subs.find(x.first);
    if (v.lo == v.hi) r.c += x.second * v.lo;
    else if (it != P->subs.end()) r = r + it->second * x.second;
    else r = r + VarLin(x.first) * x.second;
  }
  return Subst(r);
}
static void Eliminate(const Lin& e0) {  // e0 == 0
  Lin e = Subst(e0);
  int best = -1;
  for (auto& x : e.t) if (abs(x.second) == 1 && !P->v[x.first].input) best = x.first;
  if (best < 0) for (auto& x : e.t) if (abs(x.second) == 1) best = x.first;
  if (best < 0 || e.t.size() > 24) return;
  Mpz k; for (auto& x : e.t) if (x.first == best) k = x.second;
  Lin r = VarLin(best) - e * k;  // k = +-1
  for (auto& s : P->subs)
    for (auto& x : s.second.t) if (x.first == best) { s.second = s.second - VarLin(best) * Mpz(x.second) + r * Mpz(x.second); break; }
  P->subs[best] = r;
}
static Lin FlImpl(const Lin& e0, const Mpz& m);
Lin Fl(const Lin& e, const Mpz& m) {
  if (m == 1) return e;
  Lin r = FlImpl(e, m);
  if (!r.Const()) { Mpz lo, hi; Interval(e, &lo, &hi); NoteRange(r, FloorDiv(lo, m), FloorDiv(hi, m)); }
  return r;
}
static Lin FlImpl(const Lin& e0, const Mpz& m) {
  Lin e = Subst(e0);
  // Symmetric residues in (-m/2, m/2]: e = m*q + r
  Lin q, r; Mpz half = m / 2;
  auto split = [&](const Mpz& k, Mpz* a, Mpz* b) { *a = CeilDiv(k - half, m); *b = k - *a * m; };
  Mpz a, b;
  split(e.c, &a, &b); q.c = a; r.c = b;
  for (auto& x : e.t) {
    split(x.second, &a, &b);
    if (a != 0) q.t.push_back({x.first, a});
    if (b != 0) r.t.push_back({x.first, b});
  }
  if (r.Const()) { q.c += FloorDiv(r.c, m); return q; }
  Mpz mm = m;
  Mpz g = mm;
  for (auto& x : r.t) g = gcd(g, x.second);
  if (g > 1) {
    for (auto& x : r.t) x.second /= g;
    r.c = FloorDiv(r.c, g); mm /= g;
    if (mm == 1) return q + r;
    return q + Fl(r, mm);
  }
  if (r.t.size() == 1 && r.t[0].second == 1) {
    auto it = P->floor_def.find(r.t[0].first);
    if (it != P->floor_def.end()) {
      // An equality may have expressed the inner sum by its own floor.
      static int depth = 0;
      Mpz m1 = it->second.second; Lin inner = Subst(it->second.first); inner.c += r.c * m1;
      bool self = depth > 8;
      for (auto& x : inner.t) self = self || x.first == r.t[0].first;
      if (!self) { ++depth; Lin n = Fl(inner, m1 * mm); --depth; return q + n; }
    }
  }
  Mpz lo, hi; Interval(r, &lo, &hi);
  Mpz fl = FloorDiv(lo, mm), fh = FloorDiv(hi, mm);
  if (fl == fh) { q.c += fl; return q; }
  auto key = std::make_pair(r, mm);
  auto it = P->floors.find(key);
  if (it != P->floors.end()) return q + VarLin(it->second);
  Mpz sh = FloorDiv(Shadow(r), mm);
  int f = NewVar("f" + std::to_string(P->v.size()), fl, fh, false, sh);
  P->floors[key] = f; P->floor_def[f] = key;
  Lin d = r - VarLin(f) * mm;
  AddCons(d * -1, LE);            // r - mm f >= 0
  AddCons(d - Lin(mm - 1), LE);   // r - mm f <= mm-1
  return q + VarLin(f);
}

// ---------------------------------------------------------------- constraints
static void Release() { S->tokens++; }
// A path that died without a word gave nothing back.
static void Reaped(int st) { if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) { S->crashes++; S->incomplete++; S->tokens++; } }
static bool Wait(pid_t c) {
  int st; pid_t r;
  while ((r = waitpid(c, &st, 0)) < 0 && errno == EINTR) {}
  if (r == c) Reaped(st);
  return r == c;
}
[[noreturn]] static void EndPath() {
  long d = P->depth, m = S->maxdepth.load();
  while (d > m && !S->maxdepth.compare_exchange_weak(m, d)) {}
  Release();
  for (pid_t c : P->children) Wait(c);
  _exit(0);
}
static void CheckDeadline() { if (S->stop.load() || Now() > S->deadline) { S->incomplete++; EndPath(); } }
void Discard() { S->discarded++; EndPath(); }

static void Propagate(const Lin& e) {  // e <= 0
  if (e.t.size() > 8) return;
  Mpz lo, hi; SumInterval(e, &lo, &hi);  // term by term, as the rest is computed from it
  for (auto& x : e.t) {
    VarInfo& v = P->v[x.first];
    Mpz rest = lo - (x.second > 0 ? Mpz(x.second * v.lo) : Mpz(x.second * v.hi));
    // coef * v <= -rest
    if (x.second > 0) { Mpz h = FloorDiv(-rest, x.second); if (h < v.hi) SetBounds(x.first, nullptr, &h); }
    else { Mpz l = CeilDiv(-rest, x.second); if (l > v.lo) SetBounds(x.first, &l, nullptr); }
  }
}
static void PropagateCons(const Lin& e, Rel rel) {
  if (rel == LE || rel == EQ) Propagate(e);
  if (rel == EQ) Propagate(e * -1);
  if (rel == GT) Propagate(e * -1 + Lin(1));
  if (rel == NE && e.t.size() == 1 && abs(e.t[0].second) == 1) {
    VarInfo& v = P->v[e.t[0].first]; Mpz k = -e.c * e.t[0].second;
    if (v.lo == k) { Mpz l = k + 1; SetBounds(e.t[0].first, &l, nullptr); }
    else if (v.hi == k) { Mpz h = k - 1; SetBounds(e.t[0].first, nullptr, &h); }
  }
}
void AddCons(const Lin& e, Rel rel) {
  if (e.Const()) { if (!HoldsS(sgn(e.c), rel)) Discard(); return; }
  P->cons.push_back({e, rel});
  int id = (int)P->cons.size() - 1;
  for (auto& x : e.t) P->cons_of[x.first].push_back(id);
  SOL->add(RelZ3(e, rel));
  if (rel == EQ) Eliminate(e);
  try {
    PropagateCons(e, rel);
    for (int steps = 0; !P->dirty.empty() && steps < 300;) {
      int v = *P->dirty.begin(); P->dirty.erase(P->dirty.begin());
      for (int c : std::vector<int>(P->cons_of[v])) { PropagateCons(P->cons[c].e, P->cons[c].rel); ++steps; }
    }
    P->dirty.clear();
  } catch (int) { EndPath(); }
}
// Normalises "e rel 0"; returns 0/1 if it is decided outright, -1 otherwise.
static int Norm(Lin* e, Rel* rel) {
  *e = Subst(*e);
  if (e->Const()) return HoldsS(sgn(e->c), *rel);
  Mpz g = 0; for (auto& x : e->t) g = gcd(g, x.second);
  if (*rel == EQ || *rel == NE) {
    if (e->c % g != 0) return *rel == NE;
    for (auto& x : e->t) x.second /= g;
    e->c /= g;
    if (e->t[0].second < 0) *e = *e * -1;
  } else {
    if (*rel == GT) { *e = *e * -1 + Lin(1); *rel = LE; }  // e >= 1  <=>  1-e <= 0
    for (auto& x : e->t) x.second /= g;
    e->c = CeilDiv(e->c, g);
  }
  Mpz lo, hi; Interval(*e, &lo, &hi);
  if (*rel == LE) { if (hi <= 0) return 1; if (lo > 0) return 0; }
  if (*rel == EQ) { if (lo > 0 || hi < 0) return 0; if (lo == 0 && hi == 0) return 1; }
  if (*rel == NE) { if (lo > 0 || hi < 0) return 1; if (lo == 0 && hi == 0) return 0; }
  return -1;
}
bool Proved(const Lin& e0, Rel rel0) {
  Lin e = e0; Rel rel = rel0;
  int n = Norm(&e, &rel);
  if (n >= 0) return n;
  if (P->shadow_ok && !HoldsS(sgn(Shadow(e)), rel)) return false;
  g_full = true;
  bool r = Query(e, Neg(rel), nullptr) == z3::unsat;
  g_full = false;
  return r;
}
static int Fork(int n) {
  S->decisions++; P->depth++; CheckDeadline();
  for (int i = n - 1; i >= 1; --i) {
    for (size_t c = 0; c < P->children.size();) {
      int st; if (waitpid(P->children[c], &st, WNOHANG) == P->children[c]) { Reaped(st); P->children.erase(P->children.begin() + c); } else ++c;
    }
    int tok = S->tokens.load(); bool own = false;
    while (tok > 0 && !own) own = S->tokens.compare_exchange_weak(tok, tok - 1);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { S->incomplete++; if (own) S->tokens++; continue; }
    if (pid == 0) {
      P->children.clear();
      struct rlimit r; struct rusage u; getrusage(RUSAGE_SELF, &u);
      r.rlim_cur = 300; r.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_CPU, &r);
      return i;
    }
    if (own) P->children.push_back(pid);
    else {
      Wait(pid);
      for (;;) { int t = S->tokens.load(); if (t > 0 && S->tokens.compare_exchange_weak(t, t - 1)) break; usleep(200); }
    }
  }
  return 0;
}
static void SetShadow(const std::vector<Mpz>& m) {
  for (size_t i = 0; i < m.size() && i < P->v.size(); ++i) P->v[i].sh = m[i];
  P->shadow_ok = true;
}
static void EnsureShadow() {
  if (P->shadow_ok) return;
  auto r = Check();
  if (r == z3::unsat) Discard();
  if (r == z3::sat) { std::vector<Mpz> m; ReadModel(&m); SetShadow(m); }
}
bool Decide(const Lin& e0, Rel rel0) {
  S->sign_queries++;
  Lin e = e0; Rel rel = rel0;
  int n = Norm(&e, &rel);
  if (n >= 0) { S->syntactic++; return n; }
  auto key = std::make_pair(e, (int)rel);
  auto it = P->known.find(key);
  if (it != P->known.end()) { S->syntactic++; return it->second; }
  EnsureShadow();
  std::vector<Mpz> m;
  if (!P->shadow_ok) {
    auto rt = Query(e, rel, &m);
    if (rt == z3::unsat) { P->known[key] = false; return false; }
    std::vector<Mpz> m2;
    auto rf = Query(e, Neg(rel), &m2);
    if (rf == z3::unsat) { P->known[key] = true; return true; }
    P->uncertain = true;
    int i = Fork(2);
    P->known[key] = i == 0;
    AddCons(e, i == 0 ? rel : Neg(rel));
    if (i == 0 && rt == z3::sat) SetShadow(m);
    if (i == 1 && rf == z3::sat) SetShadow(m2);
    return i == 0;
  }
  bool s = HoldsS(sgn(Shadow(e)), rel);
  S->model_hits++;
  auto r = Query(e, s ? Neg(rel) : rel, &m);
  if (r == z3::unsat) { P->known[key] = s; return s; }
  if (r == z3::unknown) P->uncertain = true;
  int i = Fork(2);
  bool side = i == 0 ? s : !s;
  P->known[key] = side;
  if (i == 1) { if (r == z3::sat) SetShadow(m); else P->shadow_ok = false; }
  AddCons(e, side ? rel : Neg(rel));
  return side;
}
bool DecideFull(const Lin& e, Rel rel) {
  g_full = true;
  bool r = Decide(e, rel);
  g_full = false;
  return r;
}
void Assume(const Lin& e0, Rel rel0) {
  Lin e = e0; Rel rel = rel0;
  int n = Norm(&e, &rel);
  if (n == 1) return;
  if (n == 0) Discard();
  bool ok = P->shadow_ok && HoldsS(sgn(Shadow(e)), rel);
  AddCons(e, rel);
  if (!ok) { P->shadow_ok = false; EnsureShadow(); }
}
int InputVar(const std::string& name, const Mpz& lo, const Mpz& hi) {
  Mpz sh = lo <= 1 && hi >= 1 ? Mpz(1) : lo;
  int v = NewVar(name, lo, hi, true, sh);
  P->inputs.push_back({0, v, 0, name});
  return v;
}
int Choose(int n, const char* name) {
  int i = n == 1 ? 0 : Fork(n);
  P->inputs.push_back({1, 0, i, name});
  return i;
}
void CountCheck() { S->checks++; }
bool Thorough() { return g_thorough; }

// ---------------------------------------------------------------- models
static bool ProductsExact(const std::vector<Mpz>& m) {
  for (size_t i = 0; i < P->v.size(); ++i)
    if (P->v[i].f1 >= 0 && m[i] != m[P->v[i].f1] * m[P->v[i].f2]) return false;
  return true;
}
// A model in which every product is the product of its factors: fix one factor
// of every product, so that the products become linear.
static bool ExactModel(std::vector<Mpz>* out) {
  g_full = true;
  EnsureShadow();
  std::vector<Mpz> m;
  for (auto& v : P->v) m.push_back(v.sh);
  if (P->shadow_ok && ProductsExact(m)) { *out = m; return true; }
  unsigned st = g_seed * 7919 + 17;
  auto rnd = [&]() { st = st * 1103515245u + 12345u; return st >> 8; };
  for (int t = 0; t < 24; ++t) {
    SOL->push();
    std::map<int, Mpz> fixed;
    for (size_t i = 0; i < P->v.size(); ++i) {
      int a = P->v[i].f1, b = P->v[i].f2;
      if (a < 0) continue;
      if (P->v[a].f1 >= 0 && !fixed.count(a)) { std::swap(a, b); }
      if (!fixed.count(a) && !fixed.count(b)) {
        int f = (t & 1) ? b : a;
        Mpz val = m[f];
        if (t >= 2) {
          int k = rnd() % 6; const VarInfo& V = P->v[f];
          if (k == 0) val = V.lo; else if (k == 1) val = V.hi; else if (k == 2) val = V.lo <= 0 && V.hi >= 0 ? Mpz(0) : V.lo;
          else if (k == 3) val = V.lo <= 1 && V.hi >= 1 ? Mpz(1) : V.hi;
          else val = V.lo + (Mpz(rnd()) * rnd() * rnd()) % (V.hi - V.lo + 1);
        }
        fixed[f] = val; SOL->add(RelZ3(VarLin(f) - Lin(val), EQ));
      }
      int f = fixed.count(a) ? a : b, o = f == a ? b : a;
      SOL->add(RelZ3(VarLin((int)i) - VarLin(o) * fixed[f], EQ));
    }
    auto r = Check();
    bool ok = false;
    if (r == z3::sat) { std::vector<Mpz> mm; ReadModel(&mm); if (ProductsExact(mm)) { *out = mm; ok = true; } }
    SOL->pop();
    if (ok) return true;
  }
  return false;
}
static void WriteModel(const std::string& file, const std::vector<Mpz>& m, const std::string& head) {
  std::ofstream o(file); o << head;
  for (auto& in : P->inputs) {
    if (in.kind == 0) o << "var " << in.name << " " << m[in.var] << "\n";
    else o << "choose " << in.name << " " << in.value << "\n";
  }
}
static bool g_in_violation = false;
void Violation(const char* kind, const std::string& what) {
  if (g_in_violation) { S->tokens++; _exit(3); }
  g_in_violation = true;
  long n = S->violnum++;
  std::string key = std::string(kind) + ":" + what;
  int slot = -1, count = 0;
  { SpinLock l;
    for (int i = 0; i < 64; ++i) {
      if (S->kinds[i][0] == 0) { strncpy(S->kinds[i], key.c_str(), 150); slot = i; S->kinds[i][159] = 0; break; }
      if (!strncmp(S->kinds[i], key.c_str(), 150)) { slot = i; break; }
    }
    if (slot >= 0) count = ++S->kinds[slot][159];
    if (slot >= 0 && count > 100) S->kinds[slot][159] = 100;
  }
  if (slot >= 0 && count <= g_max_violations) {
    std::vector<Mpz> m; std::ostringstream head;
    head << "kind " << kind << "\nwhat " << what << "\nuncertain " << P->uncertain << "\n";
    std::string file = g_out + "/viol_" + std::to_string(n) + "_" + std::to_string(getpid());
    if (ExactModel(&m)) { S->violations++; WriteModel(file + ".model", m, head.str()); }
    else {
      S->violations++; S->unresolved++;
      std::ofstream o(file + ".nomodel"); o << head.str();
      for (auto& c : P->cons) o << "cons " << c.rel << " " << Str(c.e) << "\n";
    }
  } else S->violations++;
  EndPath();
}
void Unsupported(const std::string& what) {
  S->unsupported++;
  { SpinLock l; std::ofstream o(g_out + "/unsupported", std::ios::app); o << what << "\n"; }
  if (g_verbose) fprintf(stderr, "unsupported: %s\n", what.c_str());
  EndPath();
}
static void SampleModel() {
  long n = S->paths.load();
  if (S->samples.load() >= g_max_samples) return;
  if (n > 4 && (n & (n - 1)) && n % 97) return;
  long k = S->samples++;
  if (k >= g_max_samples) return;
  std::vector<Mpz> m;
  if (ExactModel(&m)) WriteModel(g_out + "/sample_" + std::to_string(k) + ".model", m, "");
  else S->inexact++;
}
static std::set<std::string>* g_seen;
void NoteFunction(const std::string& f) {
  if (!g_seen) g_seen = new std::set<std::string>;
  if (!g_seen->insert(f).second) return;
  SpinLock l;
  int n = S->nfuncs.load();
  for (int i = 0; i < n; ++i) if (!strncmp(S->funcs[i], f.c_str(), 119)) return;
  if (n < 2048) { strncpy(S->funcs[n], f.c_str(), 119); S->nfuncs = n + 1; }
}
static void OnSignal(int sig) {
  if (getenv("IRBT")) { void* b[60]; backtrace_symbols_fd(b, backtrace(b, 60), 2); }
  S->crashes++; S->incomplete++;
  { std::ofstream o(g_out + "/unsupported", std::ios::app); o << "engine signal " << sig << "\n"; }
  S->tokens++;
  _exit(2);
}
int EngineMain(int argc, char** argv, void (*run)(const std::string&),
               const std::vector<std::pair<std::string, std::string>>& harnesses, std::set<std::string>*) {
  std::string only; int jobs = 8; double budget = 60; bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--list") list = true;
    else if (a == "--harness") only = argv[++i];
    else if (a == "--out") g_out = argv[++i];
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--seed") g_seed = atoi(argv[++i]);
    else if (a == "--samples") g_max_samples = atoi(argv[++i]);
    else if (a == "--bc") ++i;
    else if (a == "-v") g_verbose = true;
  }
  std::string info; bool found = false;
  for (auto& h : harnesses) {
    if (list) printf("%s\t%s\n", h.first.c_str(), h.second.c_str());
    if (h.first == only) { info = h.second; found = true; }
  }
  if (list) return 0;
  if (!found) { fprintf(stderr, "no harness %s\n", only.c_str()); return 2; }
  if (g_out.empty()) g_out = "/tmp/irsym_out";
  mkdir(g_out.c_str(), 0777);
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  S->tokens = jobs;
  double t0 = Now(); S->deadline = t0 + budget;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    S->tokens--; setpgid(0, 0);
    if (!g_verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); }
    static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = OnSignal; sa.sa_flags = SA_ONSTACK | SA_RESETHAND; sigaction(s, &sa, nullptr); }
    P = new Path; Z = new z3::context; ZV = new std::vector<z3::expr>;
    SOL = new z3::solver(*Z, "QF_LIA");
    z3::params pr(*Z); pr.set("rlimit", g_rlimit); pr.set("random_seed", g_seed); SOL->set(pr);
    { struct rlimit as; as.rlim_cur = as.rlim_max = 6ul << 30; setrlimit(RLIMIT_AS, &as); }
    run(only);
    S->paths++;
    if (P->uncertain) S->unknown_paths++;
    SampleModel();
    EndPath();
  }
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  int st; bool killed = false;
  for (;;) {
    pid_t r = waitpid(-1, &st, WNOHANG);
    if (r < 0 && errno == ECHILD) break;
    if (r == pid && WIFSIGNALED(st)) S->incomplete++;
    if (r > 0) continue;
    if (Now() > S->deadline + 30 && !killed) { killed = true; S->incomplete++; S->stop = 1; }
    if (Now() > S->deadline + 60) kill(-pid, SIGKILL);
    usleep(5000);
  }
  { std::ofstream o(g_out + "/funcs"); for (int i = 0; i < S->nfuncs; ++i) o << S->funcs[i] << "\n"; }
  std::string bounds = info.substr(info.find('\t') + 1);
  printf("{\"harness\":\"%s\",\"paths\":%ld,\"discarded\":%ld,\"violations\":%ld,\"unsupported\":%ld,"
         "\"incomplete\":%ld,\"crashes\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"solver_s\":%.3f,"
         "\"model_hits\":%ld,\"syntactic\":%ld,\"sign_queries\":%ld,\"decisions\":%ld,\"checks\":%ld,"
         "\"maxdepth\":%ld,\"uncertain_paths\":%ld,\"cvc5\":%ld,\"wall_s\":%.2f,\"bounds\":\"%s\",\"reach\":{}}\n",
         only.c_str(), S->paths.load(), S->discarded.load(), S->violations.load(), S->unsupported.load(),
         S->incomplete.load(), S->crashes.load(), S->z3_sat.load(), S->z3_unsat.load(), S->z3_unknown.load(),
         S->z3_ns.load() * 1e-9, S->model_hits.load(), S->syntactic.load(), S->sign_queries.load(),
         S->decisions.load(), S->checks.load(), S->maxdepth.load(), S->unknown_paths.load(), S->ext.load(), Now() - t0, bounds.c_str());
  return 0;
}
}  // namespace ir
