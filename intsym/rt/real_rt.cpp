// Runtime for replaying a model with the real BigInt.
#include "harness.h"
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <sys/resource.h>

namespace hv {
struct Entry { const char* name; HarnessFn fn; int tier; };
static std::vector<Entry>& Entries() { static std::vector<Entry> e; return e; }
Registration::Registration(const char* n, HarnessFn f, int t, const char*) { Entries().push_back({n, f, t}); }

struct In { bool var; std::string name, value; int group; };
static std::vector<In> g_in; static size_t g_pos = 0;
static std::vector<std::string> g_scale{"1"};
static std::string g_scale_s = "1";
static bool g_obs = false;

static BigInt Parse(const std::string& s) {
  bool neg = s[0] == '-';
  BigInt r(0);
  for (char c : s) if (c != '-') r = r * 10 + BigInt(c - '0');
  return neg ? -r : r;
}
[[noreturn]] static void Bad(const char* why) { fprintf(stderr, "REPLAY-MISMATCH %s\n", why); _exit(4); }
BigInt Var(const char* name, int group) {
  if (g_pos >= g_in.size()) Bad("more inputs than in the model");
  In& in = g_in[g_pos++];
  if (!in.var || in.name != name) Bad("input order");
  BigInt v = Parse(in.value);
  if (group != 0) v = v * Parse(g_scale_s);
  return v;
}
int Choose(int n, const char* name) {
  if (g_pos >= g_in.size()) Bad("more inputs than in the model");
  In& in = g_in[g_pos++];
  if (in.var || in.name != name) Bad("input order");
  return atoi(in.value.c_str());
}
static void Rel(bool b) { if (!b) Bad("assumption not satisfied by the model"); }
void AssumeScaled() { }
void PrintOnly() { }
void AssumePos(const BigInt& v) { Rel(v > 0); }
void AssumeNonNeg(const BigInt& v) { Rel(v >= 0); }
void AssumeNonZero(const BigInt& v) { Rel(v != 0); }
void AssumeZero(const BigInt& v) { Rel(v == 0); }
void Assume(bool b) { Rel(b); }
void Check(bool b, const char* what) {
  if (!b) { printf("CHECK-FAILED %s\n", what); fflush(stdout); _exit(1); }
}
void CheckNone(const std::vector<BigInt>& positive, const char* what) {
  for (const BigInt& v : positive) if (!(v > 0)) return;
  Check(false, what);
}
void Reach(const char*) {}
void Observe(const char* n, const BigInt& v) {
  if (g_obs) std::cout << "observe " << n << " " << v << "\n";
}
int SignOf(const BigInt& v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }
static bool g_thorough = false;
bool Thorough() { return g_thorough; }
bool Symbolic() { return false; }
}  // namespace hv

extern "C" void __assert_fail(const char* e, const char* file, unsigned line, const char*) noexcept {
  printf("ASSERT-FAILED %s:%u: %s\n", file, line, e); fflush(stdout); _exit(1);
}

int main(int argc, char** argv) {
  using namespace hv;
  std::string h, f;
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--harness")) h = argv[++i];
    else if (!strcmp(argv[i], "--model")) f = argv[++i];
    else if (!strcmp(argv[i], "--scale")) g_scale_s = argv[++i];
    else if (!strcmp(argv[i], "--observe")) g_obs = true;
    else if (!strcmp(argv[i], "--thorough")) g_thorough = true;
  }
  struct rlimit r; r.rlim_cur = 20; r.rlim_max = 20; setrlimit(RLIMIT_CPU, &r);
  std::ifstream in(f); std::string line;
  while (std::getline(in, line)) {
    std::istringstream ls(line); std::string k, n, v; ls >> k >> n >> v;
    if (k == "var") g_in.push_back({true, n, v, 1});
    if (k == "choose") g_in.push_back({false, n, v, 0});
  }
  for (auto& e : Entries()) if (h == e.name) { e.fn(); printf("REPLAY-OK\n"); return 0; }
  fprintf(stderr, "no harness %s\n", h.c_str());
  return 5;
}
