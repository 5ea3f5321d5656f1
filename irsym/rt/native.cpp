// Replays a model on the natively compiled (ASan + UBSan) real code.
#include "ih.h"
#include <gmpxx.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/resource.h>

struct In { std::string kind, name, value; };
static std::vector<In> g_in; static size_t g_pos;
static std::vector<mpz_class> g_z;
static bool g_thorough;

[[noreturn]] static void Bad(const char* why) { fprintf(stderr, "REPLAY-MISMATCH %s\n", why); fflush(stderr); _exit(4); }
static mpz_class Next(const char* kind, const char* name) {
  if (g_pos >= g_in.size()) Bad("more inputs than in the model");
  In& in = g_in[g_pos++];
  if (in.kind != kind || in.name != name) Bad("input order");
  return mpz_class(in.value);
}
static int NewZ(const mpz_class& v) { g_z.push_back(v); return (int)g_z.size() - 1; }
static mpz_class FromU(uint64_t v) { mpz_class r = (unsigned long)v; return r; }
[[noreturn]] static void Fail(const char* what) { printf("CHECK-FAILED %s\n", what); fflush(stdout); _exit(1); }
extern "C" {
uint64_t ih_word(const char* n) { return (uint64_t)Next("var", n).get_ui(); }
int64_t ih_sword(const char* n) { mpz_class v = Next("var", n); return v < 0 ? -(int64_t)mpz_class(-v - 1).get_ui() - 1 : (int64_t)v.get_ui(); }
int64_t ih_range(const char* n, int64_t, int64_t) { return ih_sword(n); }
double ih_double(const char* n, int e, int64_t* m) { *m = ih_sword(n); return std::ldexp((double)*m, e); }
int ih_choose(int, const char* n) { return (int)Next("choose", n).get_si(); }
void ih_assume(bool b) { if (!b) Bad("assumption not satisfied by the model"); }
void ih_check(bool b, const char* what) { if (!b) Fail(what); }
int ih_thorough() { return g_thorough; }
int z_u(uint64_t v) { return NewZ(FromU(v)); }
int z_s(int64_t v) { mpz_class r = (long)v; return NewZ(r); }
int z_add(int a, int b) { return NewZ(g_z[a] + g_z[b]); }
int z_sub(int a, int b) { return NewZ(g_z[a] - g_z[b]); }
int z_mul(int a, int b) { return NewZ(g_z[a] * g_z[b]); }
int z_neg(int a) { return NewZ(-g_z[a]); }
int z_shl(int a, int k) { return NewZ(g_z[a] << k); }
int z_sign(int a) { return sgn(g_z[a]); }
void z_check_zero(int a, const char* w) { if (sgn(g_z[a]) != 0) { printf("difference %s\n", g_z[a].get_str().c_str()); Fail(w); } }
void z_check_neg(int a, const char* w) { if (sgn(g_z[a]) >= 0) Fail(w); }
void z_check_nonneg(int a, const char* w) { if (sgn(g_z[a]) < 0) Fail(w); }
void z_assume_neg(int a) { ih_assume(sgn(g_z[a]) < 0); }
void z_assume_nonneg(int a) { ih_assume(sgn(g_z[a]) >= 0); }
void z_assume_nonzero(int a) { ih_assume(sgn(g_z[a]) != 0); }
void z_assume_zero(int a) { ih_assume(sgn(g_z[a]) == 0); }
void __assert_fail(const char* e, const char* file, unsigned line, const char*) noexcept {
  printf("ASSERT-FAILED %s:%u: %s\n", file, line, e); fflush(stdout); _exit(1);
}
}

int main(int argc, char** argv) {
  std::string h, f;
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--harness")) h = argv[++i];
    else if (!strcmp(argv[i], "--model")) f = argv[++i];
    else if (!strcmp(argv[i], "--scale")) ++i;
    else if (!strcmp(argv[i], "--thorough")) g_thorough = true;
  }
  struct rlimit r; r.rlim_cur = 20; r.rlim_max = 20; setrlimit(RLIMIT_CPU, &r);
  std::ifstream in(f); std::string line;
  while (std::getline(in, line)) {
    std::istringstream ls(line); In x; ls >> x.kind >> x.name >> x.value;
    if (x.kind == "var" || x.kind == "choose") g_in.push_back(x);
  }
  void* fn = dlsym(RTLD_DEFAULT, ("harness_" + h).c_str());
  if (!fn) { fprintf(stderr, "no harness %s\n", h.c_str()); return 5; }
  ((void (*)())fn)();
  printf("REPLAY-OK\n"); fflush(stdout);
  return 0;
}
