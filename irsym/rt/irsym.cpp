// Engine A: symbolic execution of LLVM IR over linear integer expressions
// (machine words are integers modulo 2^N, unwrapped lazily).
#include "state.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <memory>
#include <unordered_map>
#include <llvm/ADT/SmallString.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>

using namespace ir;
namespace L = llvm;

// ---------------------------------------------------------------- values
struct V;
using VP = std::shared_ptr<V>;
struct V {
  enum Kind { LIN, NODE, DBL, FLT, AGG } kind = LIN;
  int w = 0;
  Lin e;                       // LIN: value is e modulo 2^w
  bool hu = false, hs = false;
  Lin u, s;                    // canonical unsigned / signed forms
  char op = 0; VP a, b;        // NODE: '&' '|' '^'; FLT: a = mantissa (w = 64, canonical signed)
  double d = 0;                // DBL
  int ex = 0;                  // FLT: value is s(a) * 2^ex
  std::vector<VP> agg;
};
static Mpz Pow2(int k) { Mpz r = 1; return r << k; }
static VP MkLin(int w, const Lin& e) { auto v = std::make_shared<V>(); v->w = w; v->e = e; return v; }
static VP MkU(int w, const Lin& u) { VP v = MkLin(w, u); v->hu = true; v->u = u; return v; }
static VP MkS(int w, const Lin& s) { VP v = MkLin(w, s); v->hs = true; v->s = s; return v; }
static VP MkC(int w, const Mpz& c) { Mpz m; mpz_fdiv_r_2exp(m.get_mpz_t(), c.get_mpz_t(), w); return MkU(w, Lin(m)); }
static VP MkBool(bool b) { return MkC(1, b); }
static VP MkDbl(double d) { auto v = std::make_shared<V>(); v->kind = V::DBL; v->w = 64; v->d = d; return v; }
static VP MkNode(char op, const VP& a, const VP& b) {
  auto v = std::make_shared<V>(); v->kind = V::NODE; v->w = a->w; v->op = op; v->a = a; v->b = b; return v;
}
static bool SameV(const VP& a, const VP& b) {
  if (a == b) return true;
  if (a->kind != b->kind || a->w != b->w) return false;
  if (a->kind == V::LIN) return a->e == b->e;
  if (a->kind == V::NODE) return a->op == b->op && ((SameV(a->a, b->a) && SameV(a->b, b->b)) || (SameV(a->a, b->b) && SameV(a->b, b->a)));
  return false;
}
static const Lin& U(const VP& v);
static const Lin& S(const VP& v);
static bool IsConst(const VP& v) { return v->kind == V::LIN && v->e.Const(); }
static Mpz CU(const VP& v) { Mpz m; mpz_fdiv_r_2exp(m.get_mpz_t(), v->e.c.get_mpz_t(), v->w); return m; }
static Mpz CS(const VP& v) { Mpz m = CU(v); if (m >= Pow2(v->w - 1)) m -= Pow2(v->w); return m; }

// Opaque variables for bit operations on two symbolic words, with congruence.
struct Op { VP node; int var; };
static std::vector<Op>* g_opaque = new std::vector<Op>;
static bool Equal(const VP& a, const VP& b);
static bool ProvedSame(const VP& a, const VP& b) {
  if (a->kind != b->kind) return false;
  if (a->kind == V::LIN) return Proved(U(a) - U(b), EQ);
  if (a->kind != V::NODE || a->op != b->op) return false;
  return (ProvedSame(a->a, b->a) && ProvedSame(a->b, b->b)) || (ProvedSame(a->a, b->b) && ProvedSame(a->b, b->a));
}
static Lin Opaque(const VP& n) {
  for (auto& o : *g_opaque) if (SameV(o.node, n)) return VarLin(o.var);
  for (auto& o : *g_opaque) if (o.node->w == n->w && ProvedSame(o.node, n)) return VarLin(o.var);
  int v = NewVar("bits" + std::to_string(g_opaque->size()), 0, Pow2(n->w) - 1, false, 0);
  g_opaque->push_back({n, v});
  return VarLin(v);
}
static const Lin& U(const VP& v) {
  if (v->hu) return v->u;
  if (v->kind == V::NODE) { v->u = Opaque(v); v->hu = true; return v->u; }
  if (v->kind != V::LIN) Unsupported("arithmetic on a floating point or aggregate value");
  Mpz lo, hi, m = Pow2(v->w); Interval(v->e, &lo, &hi);
  if (lo >= 0 && hi < m) v->u = v->e;
  else { v->u = v->e - Fl(v->e, m) * m; NoteRange(v->u, 0, m - 1); }
  v->hu = true; return v->u;
}
static const Lin& S(const VP& v) {
  if (v->hs) return v->s;
  if (v->kind == V::NODE) U(v);
  if (v->hu) {
    Mpz m = Pow2(v->w), lo, hi; Interval(v->u, &lo, &hi);
    if (hi < m / 2) v->s = v->u; else { v->s = v->u - Fl(v->u, m / 2) * m; NoteRange(v->s, -(m / 2), m / 2 - 1); }
    v->hs = true; return v->s;
  }
  if (v->kind != V::LIN) Unsupported("arithmetic on a floating point or aggregate value");
  Mpz lo, hi, m = Pow2(v->w), h = m / 2; Interval(v->e, &lo, &hi);
  if (lo >= -h && hi < h) v->s = v->e;
  else { v->s = v->e - Fl(v->e + Lin(h), m) * m; NoteRange(v->s, -h, h - 1); }
  v->hs = true; return v->s;
}
static VP AsLin(const VP& v) { return v->kind == V::NODE ? MkU(v->w, U(v)) : v; }

static VP Trunc(const VP& v, int w) {
  if (w == v->w) return v;
  if (v->kind == V::NODE) return MkNode(v->op, Trunc(v->a, w), Trunc(v->b, w));
  if (v->kind != V::LIN) Unsupported("trunc");
  Lin r; Mpz m = Pow2(w), h = m / 2;
  auto red = [&](const Mpz& k) { Mpz x = k - FloorDiv(k + h, m) * m; return x; };
  r.c = red(v->e.c);
  for (auto& x : v->e.t) { Mpz k = red(x.second); if (k != 0) r.t.push_back({x.first, k}); }
  if (r.Const()) return MkC(w, r.c);
  return MkLin(w, r);
}
static VP ZExt(const VP& v, int w) {
  if (v->kind == V::NODE) return MkNode(v->op, ZExt(v->a, w), ZExt(v->b, w));
  return MkU(w, U(v));
}
static VP SExt(const VP& v, int w) {
  if (v->kind == V::NODE) return MkNode(v->op, SExt(v->a, w), SExt(v->b, w));
  return IsConst(v) ? MkC(w, CS(v)) : MkS(w, S(v));
}
static bool IsNeg(const VP& v);
static bool SameVal(const VP& a, const VP& b) { return SameV(a, b) || Equal(a, b); }
static bool IsZero(const VP& v) {
  if (v->kind == V::NODE) {
    if (v->op == '|') return IsZero(v->a) && IsZero(v->b);
    if (v->op == '^') return Equal(v->a, v->b);
    return Decide(U(v), EQ);
  }
  Mpz lo, hi, m = Pow2(v->w);
  if (v->hu) return Decide(v->u, EQ);
  if (v->hs) return Decide(v->s, EQ);
  Interval(v->e, &lo, &hi);
  if (lo > -m && hi < m) return Decide(v->e, EQ);
  return Decide(U(v), EQ);
}
static bool Equal(const VP& a, const VP& b) {
  if (SameV(a, b)) return true;
  if (a->kind == V::NODE && IsConst(b) && CU(b) == 0) return IsZero(a);
  if (b->kind == V::NODE && IsConst(a) && CU(a) == 0) return IsZero(b);
  VP x = AsLin(a), y = AsLin(b);
  if (x->hu && y->hu) return Decide(x->u - y->u, EQ);
  if (x->hs && y->hs) return Decide(x->s - y->s, EQ);
  Mpz lo, hi, m = Pow2(a->w); Lin d = x->e - y->e; Interval(d, &lo, &hi);
  if (lo > -m && hi < m) return Decide(d, EQ);
  return Decide(U(x) - U(y), EQ);
}
static bool IsNeg(const VP& v) {
  if (v->kind == V::NODE) {
    bool a = IsNeg(v->a);
    if (v->op == '|') return a || IsNeg(v->b);
    if (v->op == '&') return a && IsNeg(v->b);
    return a != IsNeg(v->b);
  }
  if (v->hu && !v->hs) return Decide(Fl(v->u, Pow2(v->w - 1)), GT);
  return !Decide(S(v) * -1, LE);  // s < 0  <=>  not (-s <= 0)
}
static bool Sle(const VP& a, const VP& b) { return Decide(S(AsLin(a)) - S(AsLin(b)), LE); }
static bool Ule(const VP& a, const VP& b) { return Decide(U(a) - U(b), LE); }

static Mpz Concretize(const VP& v) {
  VP x = AsLin(v);
  if (IsConst(x)) return CU(x);
  const Lin& u = U(x);
  Mpz lo, hi;
  for (int i = 0; i < 4096; ++i) {
    Interval(u, &lo, &hi);
    if (lo == hi) return lo;
    Mpz c = Shadow(u);
    if (Decide(u - Lin(c), EQ)) return c;
  }
  Unsupported("too many values to enumerate");
}
static bool Truth(const VP& v) { return !IsZero(v); }

static VP Shl(const VP& v, int k) {
  if (k == 0) return v;
  if (v->kind == V::NODE) return MkNode(v->op, Shl(v->a, k), Shl(v->b, k));
  return IsConst(v) ? MkC(v->w, v->e.c << k) : MkLin(v->w, v->e * Pow2(k));
}
static VP LShr(const VP& v, int k) {
  if (k == 0) return v;
  if (v->kind == V::NODE && k == v->w - 1) return MkC(v->w, IsNeg(v) ? 1 : 0);
  if (v->kind == V::NODE) return MkNode(v->op, LShr(v->a, k), LShr(v->b, k));
  return MkU(v->w, Fl(U(v), Pow2(k)));
}
static VP AShr(const VP& v, int k) {
  if (k == 0) return v;
  if (v->kind == V::NODE && k < v->w - 1) return MkNode(v->op, AShr(v->a, k), AShr(v->b, k));
  if (k == v->w - 1) return MkC(v->w, IsNeg(v) ? -1 : 0);
  if (IsConst(v)) return MkC(v->w, FloorDiv(CS(v), Pow2(k)));
  return MkS(v->w, Fl(S(v), Pow2(k)));
}
// x & mask for a constant mask
static Lin AndConst(const VP& v, const Mpz& mask) {
  const Lin& u = U(v);
  Lin r; int i = 0, w = v->w;
  auto low = [&](int k) { if (k >= w) return u; Lin l = u - Fl(u, Pow2(k)) * Pow2(k); NoteRange(l, 0, Pow2(k) - 1); return l; };
  while (i < w) {
    if (!mpz_tstbit(mask.get_mpz_t(), i)) { ++i; continue; }
    int j = i; while (j < w && mpz_tstbit(mask.get_mpz_t(), j)) ++j;
    r = r + low(j) - low(i);
    i = j;
  }
  return r;
}
static bool SignMask(const VP& v) {
  if (v->kind != V::LIN || v->w == 1) return false;
  if (v->hs) { Mpz lo, hi; Interval(v->s, &lo, &hi); return lo >= -1 && hi <= 0; }
  Mpz lo, hi; Interval(v->e, &lo, &hi); return lo >= -1 && hi <= 0;
}
static bool Boolean(const VP& v) {
  if (v->kind != V::LIN) return false;
  Mpz lo, hi; Interval(v->hu ? v->u : v->e, &lo, &hi); return lo >= 0 && hi <= 1;
}
static int LowZeros(const Lin& u, int w) {
  Mpz g = u.c; for (auto& x : u.t) g = gcd(g, x.second);
  return g == 0 ? w : (int)mpz_scan1(g.get_mpz_t(), 0);
}
static VP Bit(char op, const VP& a, const VP& b) {
  int w = a->w;
  if (IsConst(a) && IsConst(b)) {
    Mpz x = CU(a), y = CU(b);
    return MkC(w, op == '&' ? Mpz(x & y) : op == '|' ? Mpz(x | y) : Mpz(x ^ y));
  }
  if (IsConst(a)) return Bit(op, b, a);
  if (IsConst(b)) {
    Mpz y = CU(b), ones = Pow2(w) - 1;
    if (y == 0) return op == '&' ? b : a;
    if (y == ones) {
      if (op == '&') return a;
      if (op == '|') return b;
      if (a->kind == V::LIN) {
        if (a->hs) return MkS(w, a->s * -1 - Lin(1));
        return MkLin(w, a->e * -1 - Lin(1));
      }
    }
    Lin an = AndConst(a, y);
    if (op == '&') return MkU(w, an);
    if (op == '|') return MkU(w, U(a) + Lin(y) - an);
    return MkU(w, U(a) + Lin(y) - an * 2);
  }
  if (SameV(a, b)) return op == '^' ? MkC(w, 0) : a;
  if (SignMask(b)) return Bit(op, a, MkC(w, IsZero(b) ? 0 : -1));
  if (SignMask(a)) return Bit(op, b, a);
  if (Boolean(a) && Boolean(b)) {
    if (op == '|' && Proved(U(a) + U(b) - Lin(1), LE)) return MkU(w, U(a) + U(b));
    return Bit(op, a, MkC(w, IsZero(b) ? 0 : 1));
  }
  if (a->kind == V::LIN && b->kind == V::LIN && op != '&') {
    for (int sw = 0; sw < 2; ++sw) {
      const Lin &x = U(sw ? b : a), &y = U(sw ? a : b);
      int k = LowZeros(x, w); Mpz lo, hi;
      if (k > 0) { Interval(y, &lo, &hi); if (hi < Pow2(k) || Proved(y - Lin(Pow2(k) - 1), LE)) return MkU(w, x + y); }
    }
    Mpz lo, hi;
    Interval(U(a), &lo, &hi); if (lo == 0 && hi == 0) return b;
    Interval(U(b), &lo, &hi); if (lo == 0 && hi == 0) return a;
    if (getenv("IRDBG")) fprintf(stderr, "NODE %c  %d %s   %d %s\n", op, w, Str(Subst(U(a))).c_str(), b->w, Str(Subst(U(b))).c_str());
  }
  return MkNode(op, a, b);
}
static void UndefinedIf(const Lin& e, Rel rel, const char* what) {
  if (Decide(e, rel)) Violation("undefined", what);
}
static void CheckSigned(const Lin& r, int w, const char* what) {
  UndefinedIf(r - Lin(Pow2(w - 1) - 1), GT, what);
  UndefinedIf(r * -1 - Lin(Pow2(w - 1)), GT, what);
}
// Truncating division; sets quotient and remainder.
static void DivPos(const Lin& a, const Lin& d, Lin* q, Lin* r) {  // a >= 0, d > 0
  if (d.Const()) { *q = Fl(a, d.c); *r = a - *q * d.c; return; }
  Mpz alo, ahi, dlo, dhi; Interval(a, &alo, &ahi); Interval(d, &dlo, &dhi);
  if (alo < 0) alo = 0;
  if (dlo < 1) dlo = 1;
  if (dhi < dlo) dhi = dlo;
  if (dhi - dlo <= 16) { Mpz c = Concretize(MkU(512, d)); *q = Fl(a, c); *r = a - *q * c; return; }
  static std::map<std::pair<Lin, Lin>, int> done;
  auto known = done.find({a, d});
  if (known != done.end()) { *q = VarLin(known->second); *r = a - Product(*q, d); return; }
  Mpz sd = Shadow(d); Mpz sq = sd > 0 ? FloorDiv(Shadow(a), sd) : Mpz(0);
  int v = NewVar("quot", FloorDiv(alo, dhi), FloorDiv(ahi, dlo), false, sq);
  done[{a, d}] = v;
  Lin p = Product(VarLin(v), d);
  *q = VarLin(v); *r = a - p;
  AddCons(*r * -1, LE);
  AddCons(*r - d + Lin(1), LE);
}
static void DivTrunc(Lin a, Lin d, Lin* q, Lin* r) {
  bool na = Decide(a + Lin(1), LE), nd = Decide(d + Lin(1), LE);
  if (na) a = a * -1;
  if (nd) d = d * -1;
  DivPos(a, d, q, r);
  if (na != nd) *q = *q * -1;
  if (na) *r = *r * -1;
}

// ---------------------------------------------------------------- memory
struct Cell { unsigned n; VP v; };
struct Obj { uint64_t size; bool alive, heap; std::string what; std::map<uint64_t, Cell> cells; };
static std::vector<Obj>* g_obj = new std::vector<Obj>;
static const uint64_t kBase = 1u << 20;
static uint64_t Alloc(uint64_t size, bool heap, const std::string& what) {
  g_obj->push_back({size, true, heap, what, {}});
  return ((uint64_t)(g_obj->size()) << 32) + kBase;
}
static Obj* Resolve(uint64_t addr, uint64_t n, uint64_t* off, const char* what) {
  uint64_t id = addr >> 32;
  if (addr < kBase) Violation("memory", std::string(what) + " through a null pointer");
  if (id == 0 || id > g_obj->size()) Violation("memory", std::string(what) + " through a wild pointer");
  Obj* o = &(*g_obj)[id - 1];
  *off = (addr & 0xffffffffu) - kBase;
  if (!o->alive) Violation("memory", std::string(what) + " after free of " + o->what);
  if ((int64_t)*off < 0 || *off + n > o->size) Violation("memory", std::string(what) + " outside of " + o->what);
  return o;
}
static VP Piece(const Cell& c, unsigned from, unsigned n) {  // bytes [from, from+n) of a cell
  if (from == 0 && n == c.n) return c.v;
  if (c.v->kind == V::DBL) {
    uint64_t bits; memcpy(&bits, &c.v->d, 8);
    return Trunc(LShr(MkC(64, Mpz((unsigned long)bits)), from * 8), n * 8);
  }
  if (c.v->kind == V::FLT || c.v->kind == V::AGG) Unsupported("partial access to a symbolic double");
  return Trunc(LShr(c.v, from * 8), n * 8);
}
static int g_uninit = 0;
static VP ReadBytes(Obj* o, uint64_t off, unsigned n) {
  auto it = o->cells.find(off);
  if (it != o->cells.end() && it->second.n == n) return it->second.v;
  // Assemble.
  std::vector<std::pair<unsigned, std::pair<unsigned, VP>>> parts;
  uint64_t p = off, end = off + n;
  while (p < end) {
    auto j = o->cells.upper_bound(p);
    if (j != o->cells.begin()) {
      auto k = std::prev(j);
      if (k->first + k->second.n > p) {
        uint64_t e = std::min<uint64_t>(end, k->first + k->second.n);
        parts.push_back({(unsigned)(p - off), {(unsigned)(e - p), Piece(k->second, (unsigned)(p - k->first), (unsigned)(e - p))}});
        p = e; continue;
      }
    }
    uint64_t e = j == o->cells.end() ? end : std::min<uint64_t>(end, j->first);
    VP f = MkU((int)(e - p) * 8, VarLin(InputVar("uninit" + std::to_string(g_uninit++), 0, Pow2((int)(e - p) * 8) - 1)));
    o->cells[p] = {(unsigned)(e - p), f};
    parts.push_back({(unsigned)(p - off), {(unsigned)(e - p), f}});
    p = e;
  }
  if (parts.size() == 1) return parts[0].second.second;
  Lin sum;
  for (auto& x : parts) sum = sum + U(x.second.second->kind == V::DBL ? Piece({8, x.second.second}, 0, 8) : x.second.second) * Pow2(x.first * 8);
  return MkU(n * 8, sum);
}
static void ClearBytes(Obj* o, uint64_t off, uint64_t n) {
  uint64_t end = off + n;
  auto it = o->cells.lower_bound(off);
  if (it != o->cells.begin()) {
    auto k = std::prev(it);
    if (k->first + k->second.n > off) it = k;
  }
  while (it != o->cells.end() && it->first < end) {
    uint64_t c = it->first; Cell cell = it->second;
    it = o->cells.erase(it);
    if (c < off) o->cells[c] = {(unsigned)(off - c), Piece(cell, 0, (unsigned)(off - c))};
    if (c + cell.n > end) o->cells[end] = {(unsigned)(c + cell.n - end), Piece(cell, (unsigned)(end - c), (unsigned)(c + cell.n - end))};
    it = o->cells.lower_bound(off);
    while (it != o->cells.end() && it->first < off) ++it;
    if (it != o->cells.end() && it->first >= end) break;
    if (it != o->cells.end() && c + cell.n > end && it->first == end) break;
  }
}
static void WriteBytes(Obj* o, uint64_t off, unsigned n, const VP& v) {
  auto it = o->cells.find(off);
  if (it != o->cells.end() && it->second.n == n) { it->second.v = v; return; }
  ClearBytes(o, off, n);
  o->cells[off] = {n, v};
}

// ---------------------------------------------------------------- interpreter
static L::Module* g_mod;
static const L::DataLayout* DL;
static std::unordered_map<const L::Value*, uint64_t>* g_globals = new std::unordered_map<const L::Value*, uint64_t>;
static std::map<uint64_t, const L::Function*>* g_fnaddr = new std::map<uint64_t, const L::Function*>;
// Exact integers with a range that follows from how they were put together.
struct ZV { Lin e; Mpz lo, hi; };
static std::vector<ZV>* g_z = new std::vector<ZV>;
static long g_steps = 0;

static int Width(L::Type* t) {
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (auto* i = L::dyn_cast<L::IntegerType>(t)) return i->getBitWidth();
  return 0;
}
static VP Load(L::Type* t, uint64_t addr) {
  if (t->isStructTy() || t->isArrayTy()) {
    auto v = std::make_shared<V>(); v->kind = V::AGG;
    unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
    for (unsigned i = 0; i < n; ++i) {
      L::Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
      uint64_t o = t->isStructTy() ? (uint64_t)DL->getStructLayout(L::cast<L::StructType>(t))->getElementOffset(i)
                                   : i * (uint64_t)DL->getTypeAllocSize(et);
      v->agg.push_back(Load(et, addr + o));
    }
    return v;
  }
  unsigned n = (unsigned)DL->getTypeStoreSize(t);
  uint64_t off; Obj* o = Resolve(addr, n, &off, "read");
  VP v = ReadBytes(o, off, n);
  int w = Width(t);
  if (!w) Unsupported("load of an unsupported type");
  if (t->isDoubleTy()) {
    if (v->kind == V::DBL || v->kind == V::FLT) return v;
    if (!IsConst(v)) Unsupported("double from symbolic bits");
    uint64_t bits = CU(v).get_ui(); double d; memcpy(&d, &bits, 8); return MkDbl(d);
  }
  if (v->kind == V::DBL) { uint64_t bits; memcpy(&bits, &v->d, 8); v = MkC(64, Mpz((unsigned long)bits)); }
  if (v->kind == V::FLT) Unsupported("bits of a symbolic double");
  return v->w == w ? v : Trunc(v, w);
}
static void Store(L::Type* t, const VP& v, uint64_t addr) {
  if (v->kind == V::AGG) {
    unsigned n = (unsigned)v->agg.size();
    for (unsigned i = 0; i < n; ++i) {
      L::Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
      uint64_t o = t->isStructTy() ? (uint64_t)DL->getStructLayout(L::cast<L::StructType>(t))->getElementOffset(i)
                                   : i * (uint64_t)DL->getTypeAllocSize(et);
      Store(et, v->agg[i], addr + o);
    }
    return;
  }
  unsigned n = (unsigned)DL->getTypeStoreSize(t);
  uint64_t off; Obj* o = Resolve(addr, n, &off, "write");
  VP x = v;
  if (v->kind != V::DBL && v->kind != V::FLT && v->w != (int)n * 8) x = ZExt(v, n * 8);
  WriteBytes(o, off, n, x);
}
static VP Const(const L::Constant* c);
static void InitConst(const L::Constant* c, uint64_t addr) {
  L::Type* t = c->getType();
  if (L::isa<L::UndefValue>(c)) return;
  if (L::isa<L::ConstantAggregateZero>(c) || c->isNullValue()) {
    uint64_t n = DL->getTypeAllocSize(t), off; Obj* o = Resolve(addr, n, &off, "init");
    for (uint64_t i = 0; i < n; i += 8) { unsigned k = (unsigned)std::min<uint64_t>(8, n - i); WriteBytes(o, off + i, k, MkC(k * 8, 0)); }
    return;
  }
  if (t->isStructTy()) {
    for (unsigned i = 0; i < t->getStructNumElements(); ++i)
      InitConst(c->getAggregateElement(i), addr + (uint64_t)DL->getStructLayout(L::cast<L::StructType>(t))->getElementOffset(i));
  } else if (t->isArrayTy()) {
    for (unsigned i = 0; i < t->getArrayNumElements(); ++i)
      InitConst(c->getAggregateElement(i), addr + i * (uint64_t)DL->getTypeAllocSize(t->getArrayElementType()));
  } else Store(t, Const(c), addr);
}
static uint64_t GlobalAddr(const L::Value* g) {
  auto it = g_globals->find(g);
  if (it != g_globals->end()) return it->second;
  if (auto* f = L::dyn_cast<L::Function>(g)) {
    uint64_t a = Alloc(1, false, f->getName().str());
    (*g_globals)[g] = a; (*g_fnaddr)[a] = f; return a;
  }
  auto* gv = L::dyn_cast<L::GlobalVariable>(g);
  if (!gv) Unsupported("global");
  uint64_t a = Alloc(DL->getTypeAllocSize(gv->getValueType()), false, L::demangle(gv->getName().str()));
  (*g_globals)[g] = a;
  if (gv->hasInitializer()) InitConst(gv->getInitializer(), a);
  return a;
}
static VP Const(const L::Constant* c) {
  if (auto* i = L::dyn_cast<L::ConstantInt>(c)) {
    L::SmallString<64> s; i->getValue().toStringUnsigned(s);
    return MkC(i->getBitWidth(), Mpz(s.str().str()));
  }
  if (L::isa<L::ConstantPointerNull>(c)) return MkC(64, 0);
  if (auto* f = L::dyn_cast<L::ConstantFP>(c)) {
    // Floats are only stored and copied, never computed with.
    if (c->getType()->isFloatTy()) return MkC(32, Mpz((unsigned long)f->getValueAPF().bitcastToAPInt().getZExtValue()));
    if (!c->getType()->isDoubleTy()) Unsupported("long double");
    return MkDbl(f->getValueAPF().convertToDouble());
  }
  if (L::isa<L::GlobalValue>(c)) return MkC(64, Mpz((unsigned long)GlobalAddr(c)));
  L::Type* t = c->getType();
  if (t->isStructTy() || t->isArrayTy()) {
    auto v = std::make_shared<V>(); v->kind = V::AGG;
    unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
    for (unsigned i = 0; i < n; ++i) v->agg.push_back(Const(c->getAggregateElement(i)));
    return v;
  }
  if (L::isa<L::UndefValue>(c)) return MkC(Width(t), 0);
  if (auto* ce = L::dyn_cast<L::ConstantExpr>(c)) {
    if (ce->getOpcode() == L::Instruction::GetElementPtr) {
      L::APInt off(64, 0);
      if (L::cast<L::GEPOperator>(ce)->accumulateConstantOffset(*DL, off))
        return MkC(64, Mpz((unsigned long)(CU(Const(ce->getOperand(0))).get_ui() + off.getZExtValue())));
    }
    if (ce->isCast()) return Const(ce->getOperand(0));
  }
  std::string s; L::raw_string_ostream os(s); c->print(os);
  Unsupported("constant " + s);
}

struct Frame { std::unordered_map<const L::Value*, VP> r; std::vector<uint64_t> allocas; };
static VP Get(Frame& f, const L::Value* v) {
  if (auto* c = L::dyn_cast<L::Constant>(v)) return Const(c);
  auto it = f.r.find(v);
  if (it == f.r.end()) { std::string s; llvm::raw_string_ostream o(s); v->print(o); Unsupported("undefined register " + s); };
  return it->second;
}
static uint64_t Addr(const VP& v) {
  if (!IsConst(v)) return Concretize(v).get_ui();
  return CU(v).get_ui();
}
static std::string CStr(uint64_t a) {
  std::string s;
  for (;;) { uint64_t off; Obj* o = Resolve(a, 1, &off, "read"); int c = (int)CU(ReadBytes(o, off, 1)).get_si(); if (!c) return s; s += (char)c; ++a; }
}
static void Free(uint64_t a) {
  if (a == 0) return;
  uint64_t id = a >> 32;
  if (id == 0 || id > g_obj->size()) Violation("memory", "free of a wild pointer");
  Obj& o = (*g_obj)[id - 1];
  if (!o.heap || (a & 0xffffffffu) != kBase) Violation("memory", "free of a pointer that was not allocated");
  if (!o.alive) Violation("memory", "double free");
  o.alive = false; o.cells.clear();
}
static void Copy(uint64_t d, uint64_t s, uint64_t n) {
  if (n == 0 || d == s) return;
  uint64_t so, dof; Obj* a = Resolve(s, n, &so, "read"); Obj* b = Resolve(d, n, &dof, "write");
  std::vector<std::pair<uint64_t, Cell>> tmp;
  for (auto it = a->cells.begin(); it != a->cells.end(); ++it) {
    uint64_t c = it->first, e = c + it->second.n;
    uint64_t x = std::max(c, so), y = std::min(e, so + n);
    if (x < y) tmp.push_back({x - so, {(unsigned)(y - x), Piece(it->second, (unsigned)(x - c), (unsigned)(y - x))}});
  }
  ClearBytes(b, dof, n);
  for (auto& t : tmp) b->cells[dof + t.first] = t.second;
}
static VP Call(const L::Function* f, std::vector<VP> args);
static VP MkFlt(const VP& m, int ex) { auto v = std::make_shared<V>(); v->kind = V::FLT; v->w = 64; v->a = m; v->ex = ex; return v; }
// m * 2^e as an exact pair for either representation
static void FltParts(const VP& v, Lin* m, int* e) {
  if (v->kind == V::FLT) { *m = S(v->a); *e = v->ex; return; }
  if (v->kind != V::DBL) Unsupported("floating point value");
  if (!std::isfinite(v->d)) Unsupported("infinite double");
  double r = std::frexp(v->d, e); Mpz k; k = std::ldexp(r, 53); *m = Lin(k); *e -= 53;
}
static int BitLength(const Lin& a, int max) {  // a > 0
  int lo = 1, hi = max;                        // 2^(lo-1) <= a < 2^hi
  while (lo < hi) {
    int mid = (lo + hi) / 2;
    if (Decide(a - Lin(Pow2(mid) - 1), LE)) hi = mid; else lo = mid + 1;
  }
  return lo;
}
static VP Ldexp(const VP& v, long k) {
  if (v->kind == V::DBL) return MkDbl(std::ldexp(v->d, (int)k));
  if (v->kind == V::FLT) {
    long e = v->ex + k;
    if (e < -1074 || e > 900) Unsupported("rounding ldexp");
    return MkFlt(v->a, (int)e);
  }
  Unsupported("ldexp");
}
static bool External(const L::Function* f, const std::string& n, std::vector<VP>& a, L::Type* rt, VP* ret) {
  auto I = [&](int i) { return CS(IsConst(a[i]) ? a[i] : MkC(a[i]->w, Concretize(a[i]))).get_si(); };
  auto z = [&](const VP& v) -> ZV& { return (*g_z)[CU(v).get_ui()]; };
  auto newz = [&](const Lin& l, const Mpz& lo, const Mpz& hi) {
    g_z->push_back({l, lo, hi}); *ret = MkC(32, (unsigned long)(g_z->size() - 1)); return true; };
  auto word = [&](const Lin& l, const Mpz& wl, const Mpz& wh) {
    Mpz lo, hi; Interval(l, &lo, &hi);
    return newz(l, lo > wl ? lo : wl, hi < wh ? hi : wh); };
  // The range is a consequence of the path: give it to the solver.
  auto lemma = [&](const ZV& v) {
    Lin e = Subst(v.e);
    if (e.Const()) return e;
    Mpz g = 0; for (auto& x : e.t) g = gcd(g, x.second);
    Lin r; r.t = e.t; for (auto& x : r.t) x.second /= g;
    // lo <= g r + c <= hi
    Mpz h = FloorDiv(v.hi - e.c, g), l = CeilDiv(v.lo - e.c, g);
    AddCons(r - Lin(h), LE); AddCons(Lin(l) - r, LE);
    if (h == l) AddCons(r - Lin(h), EQ);
    return e; };
  if (n == "ih_word") { *ret = MkU(64, VarLin(InputVar(CStr(Addr(a[0])), 0, Pow2(64) - 1))); return true; }
  if (n == "ih_sword") { *ret = MkS(64, VarLin(InputVar(CStr(Addr(a[0])), -Pow2(63), Pow2(63) - 1))); return true; }
  if (n == "ih_range") { *ret = MkS(64, VarLin(InputVar(CStr(Addr(a[0])), CS(a[1]), CS(a[2])))); return true; }
  if (n == "ih_double") {
    VP m = MkS(64, VarLin(InputVar(CStr(Addr(a[0])), -Pow2(53) + 1, Pow2(53) - 1)));
    uint64_t off; Obj* o = Resolve(Addr(a[2]), 8, &off, "write"); WriteBytes(o, off, 8, m);
    *ret = MkFlt(m, (int)I(1)); return true;
  }
  if (n == "ih_choose") { *ret = MkC(32, Choose((int)I(0), CStr(Addr(a[1])).c_str())); return true; }
  if (n == "ih_assume") { if (!Truth(a[0])) Discard(); return true; }
  if (n == "ih_check") { CountCheck(); if (!Truth(a[0])) Violation("check", CStr(Addr(a[1]))); return true; }
  if (n == "ih_thorough") { *ret = MkC(32, Thorough()); return true; }
  if (n == "z_u") return word(U(a[0]), 0, Pow2(a[0]->w) - 1);
  if (n == "z_s") return word(S(AsLin(a[0])), -Pow2(a[0]->w - 1), Pow2(a[0]->w - 1) - 1);
  if (n == "z_add") { ZV x = z(a[0]), y = z(a[1]); return newz(x.e + y.e, x.lo + y.lo, x.hi + y.hi); }
  if (n == "z_sub") { ZV x = z(a[0]), y = z(a[1]); return newz(x.e - y.e, x.lo - y.hi, x.hi - y.lo); }
  if (n == "z_mul") {
    ZV x = z(a[0]), y = z(a[1]); ProductLemmas(x.e, y.e);
    Mpz c[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi}, lo = c[0], hi = c[0];
    for (auto& k : c) { if (k < lo) lo = k; if (k > hi) hi = k; }
    return newz(Product(x.e, y.e), lo, hi);
  }
  if (n == "z_neg") { ZV x = z(a[0]); return newz(x.e * -1, -x.hi, -x.lo); }
  if (n == "z_shl") { ZV x = z(a[0]); Mpz k = Pow2((int)I(1)); return newz(x.e * k, x.lo * k, x.hi * k); }
  if (n == "z_sign") {
    const Lin l = z(a[0]).e;
    int s = Decide(l, EQ) ? 0 : Decide(l, GT) ? 1 : -1;
    *ret = MkC(32, s); return true;
  }
  if (n == "z_check_zero") { CountCheck(); Lin e = lemma(z(a[0])); if (!DecideFull(e, EQ)) { if (getenv("IRDBG")) fprintf(stderr, "DIFF %s\n", Str(e).c_str()); Violation("check", CStr(Addr(a[1]))); } return true; }
  if (n == "z_check_neg") { CountCheck(); Lin e = lemma(z(a[0])); if (!DecideFull(e + Lin(1), LE)) Violation("check", CStr(Addr(a[1]))); return true; }
  if (n == "z_check_nonneg") { CountCheck(); Lin e = lemma(z(a[0])); if (!DecideFull(e * -1, LE)) Violation("check", CStr(Addr(a[1]))); return true; }
  if (n == "z_assume_neg") { Assume(z(a[0]).e + Lin(1), LE); return true; }
  if (n == "z_assume_nonneg") { Assume(z(a[0]).e * -1, LE); return true; }
  if (n == "z_assume_nonzero") { Assume(z(a[0]).e, NE); return true; }
  if (n == "z_assume_zero") { Assume(z(a[0]).e, EQ); return true; }
  if (n == "malloc" || n == "_Znwm" || n == "_Znam") { *ret = MkC(64, Mpz((unsigned long)Alloc(Addr(a[0]), true, "a heap block of " + std::to_string(Addr(a[0])) + " bytes"))); return true; }
  if (n == "free" || n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" || n == "_ZdaPvm") { Free(Addr(a[0])); return true; }
  if (n == "__assert_fail") {
    std::string file = CStr(Addr(a[1])); size_t p = file.rfind('/');
    Violation("assert", (p == std::string::npos ? file : file.substr(p + 1)) + ":" + CStr(Addr(a[0])));
  }
  if (n == "abort" || n == "_ZSt9terminatev") Violation("crash", "abort");
  if (n.compare(0, 10, "_ZSt20__th") == 0 || n.compare(0, 7, "_ZSt17_") == 0) Violation("crash", "library exception");
  if (n == "memcmp" || n == "bcmp") Unsupported(n);
  if (n == "memcpy" || n == "memmove") { Copy(Addr(a[0]), Addr(a[1]), Addr(a[2])); *ret = a[0]; return true; }
  if (n == "llabs" || n == "labs" || n == "abs") {
    UndefinedIf(S(AsLin(a[0])) + Lin(Pow2(a[0]->w - 1)), EQ, "abs of the minimum");
    *ret = IsNeg(a[0]) ? MkLin(a[0]->w, S(AsLin(a[0])) * -1) : a[0]; return true;
  }
  if (n == "frexp") {
    uint64_t p = Addr(a[1]); uint64_t off; Obj* o = Resolve(p, 4, &off, "write");
    if (a[0]->kind == V::DBL) { int e = 0; double d = std::frexp(a[0]->d, &e); WriteBytes(o, off, 4, MkC(32, e)); *ret = MkDbl(d); return true; }
    if (a[0]->kind != V::FLT) Unsupported("frexp");
    Lin m = S(a[0]->a);
    if (Decide(m, EQ)) { WriteBytes(o, off, 4, MkC(32, 0)); *ret = MkDbl(0); return true; }
    bool neg = Decide(m + Lin(1), LE);
    int len = BitLength(neg ? m * -1 : m, 53);
    WriteBytes(o, off, 4, MkC(32, a[0]->ex + len));
    *ret = MkFlt(a[0]->a, -len); return true;
  }
  if (n == "ldexp" || n == "scalbn" || n == "scalbln") { *ret = Ldexp(a[0], I(1)); return true; }
  if (n == "fabs") {
    if (a[0]->kind == V::DBL) { *ret = MkDbl(std::fabs(a[0]->d)); return true; }
    if (a[0]->kind == V::FLT) { Lin m = S(a[0]->a); *ret = Decide(m + Lin(1), LE) ? MkFlt(MkS(64, m * -1), a[0]->ex) : a[0]; return true; }
  }
  return false;
}
static VP Overflow(const VP& r, const VP& c) { auto v = std::make_shared<V>(); v->kind = V::AGG; v->agg = {r, c}; return v; }
static VP Intrinsic(const L::IntrinsicInst* c, std::vector<VP>& a) {
  using I = L::Intrinsic::ID;
  int w = a.empty() ? 0 : a[0]->w;
  switch (c->getIntrinsicID()) {
    case L::Intrinsic::dbg_declare: case L::Intrinsic::dbg_value: case L::Intrinsic::dbg_label: case L::Intrinsic::lifetime_start:
    case L::Intrinsic::lifetime_end: case L::Intrinsic::assume: case L::Intrinsic::donothing: case L::Intrinsic::experimental_noalias_scope_decl:
      return nullptr;
    case L::Intrinsic::expect: return a[0];
    case L::Intrinsic::memcpy: case L::Intrinsic::memmove: Copy(Addr(a[0]), Addr(a[1]), Addr(a[2])); return nullptr;
    case L::Intrinsic::memset: {
      uint64_t n = Addr(a[2]), off; if (!n) return nullptr;
      Obj* o = Resolve(Addr(a[0]), n, &off, "write");
      if (!IsConst(a[1])) Unsupported("memset of a symbolic byte");
      Mpz b = CU(a[1]), k8 = 0; for (int i = 0; i < 8; ++i) k8 = (k8 << 8) + b;
      ClearBytes(o, off, n);
      for (uint64_t i = 0; i < n; i += 8) { unsigned k = (unsigned)std::min<uint64_t>(8, n - i); WriteBytes(o, off + i, k, MkC(k * 8, k8)); }
      return nullptr;
    }
    case L::Intrinsic::uadd_with_overflow: {
      Lin e = U(a[0]) + U(a[1]); Lin f = Fl(e, Pow2(w));
      return Overflow(MkU(w, e - f * Pow2(w)), MkU(1, f));
    }
    case L::Intrinsic::usub_with_overflow: {
      Lin e = U(a[0]) - U(a[1]); Lin f = Fl(e, Pow2(w));
      return Overflow(MkU(w, e - f * Pow2(w)), MkU(1, f * -1));
    }
    case L::Intrinsic::umul_with_overflow: {
      Lin e = Product(U(a[0]), U(a[1]));
      bool o = !Decide(e - Lin(Pow2(w) - 1), LE);
      return Overflow(o ? MkLin(w, e) : MkU(w, e), MkBool(o));
    }
    case L::Intrinsic::sadd_with_overflow: case L::Intrinsic::ssub_with_overflow: case L::Intrinsic::smul_with_overflow: {
      Lin x = S(AsLin(a[0])), y = S(AsLin(a[1]));
      Lin e = c->getIntrinsicID() == L::Intrinsic::sadd_with_overflow ? x + y : c->getIntrinsicID() == L::Intrinsic::ssub_with_overflow ? x - y : Product(x, y);
      bool o = Decide(e - Lin(Pow2(w - 1) - 1), GT) || Decide(e * -1 - Lin(Pow2(w - 1)), GT);
      return Overflow(o ? MkLin(w, e) : MkS(w, e), MkBool(o));
    }
    case L::Intrinsic::ctlz: {
      const Lin& u = U(a[0]);
      if (Decide(u, EQ)) { if (IsConst(a[1]) && CU(a[1]) == 1) Violation("undefined", "count leading zeros of zero"); return MkC(w, w); }
      return MkC(w, w - BitLength(u, w));
    }
    case L::Intrinsic::cttz: {
      const Lin& u = U(a[0]);
      if (Decide(u, EQ)) { if (IsConst(a[1]) && CU(a[1]) == 1) Violation("undefined", "count trailing zeros of zero"); return MkC(w, w); }
      for (int k = 0; k < w - 1; ++k) { if (!Decide(u - Fl(u, Pow2(k + 1)) * Pow2(k + 1), EQ)) return MkC(w, k); }
      return MkC(w, w - 1);
    }
    case L::Intrinsic::abs: {
      if (IsConst(a[1]) && CU(a[1]) == 1) UndefinedIf(S(AsLin(a[0])) + Lin(Pow2(w - 1)), EQ, "abs of the minimum");
      return IsNeg(a[0]) ? MkLin(w, S(AsLin(a[0])) * -1) : a[0];
    }
    case L::Intrinsic::smax: return Sle(a[0], a[1]) ? a[1] : a[0];
    case L::Intrinsic::smin: return Sle(a[0], a[1]) ? a[0] : a[1];
    case L::Intrinsic::umax: return Ule(a[0], a[1]) ? a[1] : a[0];
    case L::Intrinsic::umin: return Ule(a[0], a[1]) ? a[0] : a[1];
    case L::Intrinsic::fshl: case L::Intrinsic::fshr: {
      Mpz km = Concretize(a[2]) % w; int k = (int)km.get_si();
      bool l = c->getIntrinsicID() == L::Intrinsic::fshl;
      if (k == 0) return l ? a[0] : a[1];
      int left = l ? k : w - k;
      return Bit('|', Shl(a[0], left), LShr(a[1], w - left));
    }
    case L::Intrinsic::ldexp: return Ldexp(a[0], (long)CS(a[1]).get_si());
    case L::Intrinsic::trap: Violation("crash", "trap");
    case L::Intrinsic::fabs: { VP r; External(nullptr, "fabs", a, nullptr, &r); if (r) return r; break; }
    default: break;
  }
  Unsupported("intrinsic " + c->getCalledFunction()->getName().str());
}
static VP Binary(const L::BinaryOperator* b, const VP& x, const VP& y) {
  int w = x->w;
  bool nsw = false, nuw = false;
  if (auto* o = L::dyn_cast<L::OverflowingBinaryOperator>(b)) { nsw = o->hasNoSignedWrap(); nuw = o->hasNoUnsignedWrap(); }
  switch (b->getOpcode()) {
    case L::Instruction::Add: case L::Instruction::Sub: {
      bool add = b->getOpcode() == L::Instruction::Add;
      VP p = AsLin(x), q = AsLin(y);
      if (IsConst(p) && IsConst(q)) {
        Mpz r = add ? Mpz(CS(p) + CS(q)) : Mpz(CS(p) - CS(q));
        if (nsw && (r >= Pow2(w - 1) || r < -Pow2(w - 1))) Violation("undefined", "signed overflow");
        return MkC(w, r);
      }
      if (nsw) {
        Lin r = add ? S(p) + S(q) : S(p) - S(q);
        CheckSigned(r, w, add ? "signed overflow in +" : "signed overflow in -");
        return MkS(w, r);
      }
      if (p->hu && (q->hu)) return MkLin(w, add ? p->u + q->u : p->u - q->u);
      return MkLin(w, add ? p->e + q->e : p->e - q->e);
    }
    case L::Instruction::Mul: {
      VP p = AsLin(x), q = AsLin(y);
      if (nsw) { Lin r = Product(S(p), S(q)); CheckSigned(r, w, "signed overflow in *"); return r.Const() ? MkC(w, r.c) : MkS(w, r); }
      const Lin &pe = p->hs ? p->s : p->hu ? p->u : p->e, &qe = q->hs ? q->s : q->hu ? q->u : q->e;
      Lin r = Product(pe, qe);
      return r.Const() ? MkC(w, r.c) : MkLin(w, r);
    }
    case L::Instruction::UDiv: case L::Instruction::URem: {
      if (IsZero(y)) Violation("undefined", "division by zero");
      Lin q, r; DivPos(U(x), U(y), &q, &r);
      return MkU(w, b->getOpcode() == L::Instruction::UDiv ? q : r);
    }
    case L::Instruction::SDiv: case L::Instruction::SRem: {
      if (IsZero(y)) Violation("undefined", "division by zero");
      Lin n = S(AsLin(x)), d = S(AsLin(y));
      if (Decide(d + Lin(1), EQ)) UndefinedIf(n + Lin(Pow2(w - 1)), EQ, "signed overflow in /");
      Lin q, r; DivTrunc(n, d, &q, &r);
      return MkS(w, b->getOpcode() == L::Instruction::SDiv ? q : r);
    }
    case L::Instruction::Shl: case L::Instruction::LShr: case L::Instruction::AShr: {
      Mpz k = Concretize(y);
      if (k >= w) Violation("undefined", "shift amount too large");
      int s = (int)k.get_si();
      return b->getOpcode() == L::Instruction::Shl ? Shl(x, s) : b->getOpcode() == L::Instruction::LShr ? LShr(x, s) : AShr(x, s);
    }
    case L::Instruction::And: return Bit('&', x, y);
    case L::Instruction::Or: return Bit('|', x, y);
    case L::Instruction::Xor: return Bit('^', x, y);
    case L::Instruction::FAdd: case L::Instruction::FSub: case L::Instruction::FMul: case L::Instruction::FDiv:
      if (x->kind == V::DBL && y->kind == V::DBL) {
        double p = x->d, q = y->d;
        return MkDbl(b->getOpcode() == L::Instruction::FAdd ? p + q : b->getOpcode() == L::Instruction::FSub ? p - q :
                     b->getOpcode() == L::Instruction::FMul ? p * q : p / q);
      }
      Unsupported("rounding floating point arithmetic");
    default: Unsupported(std::string("instruction ") + b->getOpcodeName());
  }
}
static bool ICmp(L::CmpInst::Predicate p, const VP& x, const VP& y) {
  switch (p) {
    case L::CmpInst::ICMP_EQ: return Equal(x, y);
    case L::CmpInst::ICMP_NE: return !Equal(x, y);
    case L::CmpInst::ICMP_ULE: return Ule(x, y);
    case L::CmpInst::ICMP_UGT: return !Ule(x, y);
    case L::CmpInst::ICMP_UGE: return Ule(y, x);
    case L::CmpInst::ICMP_ULT: return !Ule(y, x);
    case L::CmpInst::ICMP_SLT: if (IsConst(y) && CU(y) == 0) return IsNeg(x); return !Sle(y, x);
    case L::CmpInst::ICMP_SGE: if (IsConst(y) && CU(y) == 0) return !IsNeg(x); return Sle(y, x);
    case L::CmpInst::ICMP_SGT:
      if (IsConst(y) && CS(y) == -1) return !IsNeg(x);
      if (x->kind == V::NODE && IsConst(y) && CS(y) == 0) return !IsNeg(x) && !IsZero(x);
      if (IsConst(x) && CU(x) == 0) return IsNeg(y);
      return !Sle(x, y);
    case L::CmpInst::ICMP_SLE:
      if (x->kind == V::NODE && IsConst(y) && CS(y) == 0) return IsNeg(x) || IsZero(x);
      if (IsConst(x) && CU(x) == 0) return !IsNeg(y);
      return Sle(x, y);
    default: Unsupported("icmp");
  }
}
static bool FCmp(L::CmpInst::Predicate p, const VP& x, const VP& y) {
  Lin a, b; int ea, eb; FltParts(x, &a, &ea); FltParts(y, &b, &eb);
  int m = std::min(ea, eb);
  if (ea - m > 3000 || eb - m > 3000) Unsupported("fcmp range");
  Lin d = a * Pow2(ea - m) - b * Pow2(eb - m);
  switch (p) {
    case L::CmpInst::FCMP_OEQ: case L::CmpInst::FCMP_UEQ: return Decide(d, EQ);
    case L::CmpInst::FCMP_ONE: case L::CmpInst::FCMP_UNE: return !Decide(d, EQ);
    case L::CmpInst::FCMP_OLE: case L::CmpInst::FCMP_ULE: return Decide(d, LE);
    case L::CmpInst::FCMP_OGT: case L::CmpInst::FCMP_UGT: return !Decide(d, LE);
    case L::CmpInst::FCMP_OGE: case L::CmpInst::FCMP_UGE: return Decide(d * -1, LE);
    case L::CmpInst::FCMP_OLT: case L::CmpInst::FCMP_ULT: return !Decide(d * -1, LE);
    case L::CmpInst::FCMP_ORD: return true;
    case L::CmpInst::FCMP_UNO: return false;
    default: Unsupported("fcmp");
  }
}
static VP Cast(const L::CastInst* c, const VP& v) {
  int w = Width(c->getType());
  switch (c->getOpcode()) {
    case L::Instruction::Trunc: return Trunc(v, w);
    case L::Instruction::ZExt: return ZExt(v, w);
    case L::Instruction::SExt: return SExt(v, w);
    case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: return v->w == w ? v : v->w > w ? Trunc(v, w) : ZExt(v, w);
    case L::Instruction::BitCast: return v;
    case L::Instruction::SIToFP: case L::Instruction::UIToFP: {
      Lin l = c->getOpcode() == L::Instruction::SIToFP ? S(AsLin(v)) : U(v);
      if (!c->getType()->isDoubleTy()) Unsupported("long double");
      if (l.Const()) { double d = l.c.get_d(); if (Mpz(d) != l.c) Unsupported("rounding conversion"); return MkDbl(d); }
      if (!Proved(l - Lin(Pow2(53)), LE) || !Proved(l * -1 - Lin(Pow2(53)), LE)) Unsupported("rounding conversion");
      return MkFlt(MkS(64, l), 0);
    }
    case L::Instruction::FPToSI: case L::Instruction::FPToUI: {
      bool sg = c->getOpcode() == L::Instruction::FPToSI;
      Lin m; int e; FltParts(v, &m, &e);
      Lin q;
      if (e >= 0) q = m * Pow2(e);
      else { Lin r; DivTrunc(m, Lin(Pow2(-e)), &q, &r); }
      if (sg) CheckSigned(q, w, "double to integer out of range");
      else { UndefinedIf(q + Lin(1), LE, "double to integer out of range"); UndefinedIf(q - Lin(Pow2(w) - 1), GT, "double to integer out of range"); }
      return q.Const() ? MkC(w, q.c) : sg ? MkS(w, q) : MkU(w, q);
    }
    default: Unsupported(std::string("cast ") + c->getOpcodeName());
  }
}
static VP Run(const L::Function* f, Frame& fr) {
  const L::BasicBlock *bb = &f->getEntryBlock(), *prev = nullptr;
  for (;;) {
    std::vector<std::pair<const L::Value*, VP>> phis;
    const L::BasicBlock* next = nullptr;
    for (auto& I : *bb) {
      if (++g_steps > 3000000) Violation("crash", "does not terminate");
      if (auto* p = L::dyn_cast<L::PHINode>(&I)) { phis.push_back({p, Get(fr, p->getIncomingValueForBlock(prev))}); continue; }
      for (auto& p : phis) fr.r[p.first] = p.second;
      phis.clear();
      switch (I.getOpcode()) {
        case L::Instruction::Alloca: {
          auto* a = L::cast<L::AllocaInst>(&I);
          uint64_t n = Addr(Get(fr, a->getArraySize())) * (uint64_t)DL->getTypeAllocSize(a->getAllocatedType());
          uint64_t addr = Alloc(n, false, "local " + a->getName().str() + " in " + L::demangle(f->getName().str()));
          fr.allocas.push_back(addr); fr.r[&I] = MkC(64, Mpz((unsigned long)addr)); break;
        }
        case L::Instruction::Load: fr.r[&I] = Load(I.getType(), Addr(Get(fr, I.getOperand(0)))); break;
        case L::Instruction::Store: Store(I.getOperand(0)->getType(), Get(fr, I.getOperand(0)), Addr(Get(fr, I.getOperand(1)))); break;
        case L::Instruction::GetElementPtr: {
          uint64_t a = Addr(Get(fr, I.getOperand(0)));
          auto* g = L::cast<L::GetElementPtrInst>(&I);
          for (auto it = L::gep_type_begin(g), e = L::gep_type_end(g); it != e; ++it) {
            VP ix = Get(fr, it.getOperand());
            if (auto* st = it.getStructTypeOrNull()) a += (uint64_t)DL->getStructLayout(st)->getElementOffset((unsigned)CU(ix).get_ui());
            else {
              int64_t k = CS(IsConst(ix) ? ix : MkC(ix->w, Concretize(ix))).get_si();
              a += (uint64_t)(k * (int64_t)DL->getTypeAllocSize(it.getIndexedType()));
            }
          }
          fr.r[&I] = MkC(64, Mpz((unsigned long)a)); break;
        }
        case L::Instruction::ICmp: {
          auto* c = L::cast<L::ICmpInst>(&I);
          fr.r[&I] = MkBool(ICmp(c->getPredicate(), Get(fr, c->getOperand(0)), Get(fr, c->getOperand(1)))); break;
        }
        case L::Instruction::FCmp: {
          auto* c = L::cast<L::FCmpInst>(&I);
          fr.r[&I] = MkBool(FCmp(c->getPredicate(), Get(fr, c->getOperand(0)), Get(fr, c->getOperand(1)))); break;
        }
        case L::Instruction::FNeg: {
          VP v = Get(fr, I.getOperand(0));
          fr.r[&I] = v->kind == V::DBL ? MkDbl(-v->d) : MkFlt(MkS(64, S(v->a) * -1), v->ex); break;
        }
        case L::Instruction::Select: fr.r[&I] = Truth(Get(fr, I.getOperand(0))) ? Get(fr, I.getOperand(1)) : Get(fr, I.getOperand(2)); break;
        case L::Instruction::Freeze: fr.r[&I] = Get(fr, I.getOperand(0)); break;
        case L::Instruction::ExtractValue: {
          VP v = Get(fr, I.getOperand(0));
          for (unsigned i : L::cast<L::ExtractValueInst>(&I)->indices()) v = v->agg[i];
          fr.r[&I] = v; break;
        }
        case L::Instruction::InsertValue: {
          auto* iv = L::cast<L::InsertValueInst>(&I);
          if (iv->getNumIndices() != 1) Unsupported("nested insertvalue");
          VP v = std::make_shared<V>(*Get(fr, iv->getOperand(0)));
          v->agg[iv->getIndices()[0]] = Get(fr, iv->getOperand(1));
          fr.r[&I] = v; break;
        }
        case L::Instruction::Call: {
          auto* c = L::cast<L::CallInst>(&I);
          std::vector<VP> args;
          const L::Function* callee = c->getCalledFunction();
          if (callee && callee->getName().starts_with("llvm.dbg") || callee && callee->getName().starts_with("llvm.experimental.noalias")) break;
          for (auto& x : c->args()) args.push_back(Get(fr, x));
          VP r;
          if (auto* in = L::dyn_cast<L::IntrinsicInst>(c)) r = Intrinsic(in, args);
          else {
            if (!callee) {
              auto it = g_fnaddr->find(Addr(Get(fr, c->getCalledOperand())));
              if (it == g_fnaddr->end()) Unsupported("indirect call");
              callee = it->second;
            }
            r = Call(callee, args);
          }
          if (r) fr.r[&I] = r;
          break;
        }
        case L::Instruction::Br: {
          auto* b = L::cast<L::BranchInst>(&I);
          next = b->isUnconditional() || Truth(Get(fr, b->getCondition())) ? b->getSuccessor(0) : b->getSuccessor(1); break;
        }
        case L::Instruction::Switch: {
          auto* s = L::cast<L::SwitchInst>(&I);
          VP v = Get(fr, s->getCondition()); next = s->getDefaultDest();
          for (auto& k : s->cases()) if (Equal(v, Const(k.getCaseValue()))) { next = k.getCaseSuccessor(); break; }
          break;
        }
        case L::Instruction::Ret: return I.getNumOperands() ? Get(fr, I.getOperand(0)) : nullptr;
        case L::Instruction::Unreachable: Violation("undefined", "unreachable code reached");
        default:
          if (auto* b = L::dyn_cast<L::BinaryOperator>(&I)) { fr.r[&I] = Binary(b, Get(fr, b->getOperand(0)), Get(fr, b->getOperand(1))); break; }
          if (auto* c = L::dyn_cast<L::CastInst>(&I)) { fr.r[&I] = Cast(c, Get(fr, c->getOperand(0))); break; }
          Unsupported(std::string("instruction ") + I.getOpcodeName());
      }
    }
    prev = bb; bb = next;
  }
}
static int g_depth = 0;
static VP Call(const L::Function* f, std::vector<VP> args) {
  std::string n = f->getName().str();
  VP ret;
  if (f->isDeclaration()) {
    if (External(f, n, args, f->getReturnType(), &ret)) return ret;
    Unsupported("function " + L::demangle(n));
  }
  std::string d = L::demangle(n);
  if (d.find("walnut::") != std::string::npos) NoteFunction(d.substr(0, d.find('(')));
  if (++g_depth > 400) Violation("crash", "unbounded recursion");
  Frame fr;
  unsigned i = 0;
  for (auto& a : f->args()) fr.r[&a] = args[i++];
  ret = Run(f, fr);
  for (uint64_t a : fr.allocas) { Obj& o = (*g_obj)[(a >> 32) - 1]; o.alive = false; o.cells.clear(); }
  --g_depth;
  return ret;
}

static void RunHarness(const std::string& h) {
  Call(g_mod->getFunction("harness_" + h), {});
}
int main(int argc, char** argv) {
  std::string bc;
  for (int i = 1; i < argc - 1; ++i) if (!strcmp(argv[i], "--bc")) bc = argv[i + 1];
  L::LLVMContext ctx; L::SMDiagnostic err;
  auto mod = L::parseIRFile(bc, err, ctx);
  if (!mod) { fprintf(stderr, "cannot read %s: %s\n", bc.c_str(), err.getMessage().str().c_str()); return 3; }
  g_mod = mod.get(); DL = &mod->getDataLayout();
  std::vector<std::pair<std::string, std::string>> hs;
  for (auto& g : mod->globals()) {
    std::string n = g.getName().str();
    if (n.compare(0, 6, "hinfo_") == 0) {
      auto* a = L::dyn_cast<L::ConstantDataArray>(g.getInitializer());
      hs.push_back({n.substr(6), a ? a->getAsCString().str() : "0\t"});
    }
  }
  return EngineMain(argc, argv, RunHarness, hs, nullptr);
}
