// C24: ownership handles.
#include <new>
#include <type_traits>
#include "ih.h"
#include "walnut/deed.h"

using namespace walnut;
static int Sel(int n, const char* name) { return (int)ih_range(name, 0, n - 1); }
namespace {
struct Thing : DeedTarget {
  explicit Thing(int64_t v) : value(v) {}
  Thing(Thing&& o) : DeedTarget(std::move(o)), value(o.value) {}
  Thing(const Thing& o) = default;
  Thing& operator=(Thing&& o) { DeedTarget::operator=(std::move(o)); value = o.value; return *this; }
  Thing& operator=(const Thing& o) = default;
  int64_t value;
};
const int D = 3, O = 3;  // places for handles and for things
template <class H>
struct World {
  H* d[D]; Thing* o[O];
  // The reference: which thing a handle holds, who lent it, who it is lent to.
  int obj[D], lender[D], lent_to[D], owner[O];
  bool da[D], oa[O];
  int64_t val[O];
  void* dm[D]; void* om[O];
  World() {
    for (int i = 0; i < D; ++i) { d[i] = nullptr; da[i] = false; obj[i] = lender[i] = lent_to[i] = -1; dm[i] = ::operator new(sizeof(H)); }
    for (int i = 0; i < O; ++i) { o[i] = nullptr; oa[i] = false; owner[i] = -1; val[i] = 0; om[i] = ::operator new(sizeof(Thing)); }
  }
  void MakeObj(int i, int64_t v) { o[i] = new (om[i]) Thing(v); oa[i] = true; owner[i] = -1; val[i] = v; }
  void Free(int i) { da[i] = false; obj[i] = lender[i] = lent_to[i] = -1; d[i] = nullptr; }
  void Hold(int i, int t) { obj[i] = t; if (t >= 0) owner[t] = i; }
  void GiveBack(int i) {
    int l = lender[i];
    if (l >= 0) { lent_to[l] = -1; Hold(l, obj[i]); }
    else if (obj[i] >= 0) owner[obj[i]] = -1;
    obj[i] = -1; lender[i] = -1;
  }
  void Verify() {
    int holders[O] = {0, 0, 0};
    for (int i = 0; i < D; ++i) {
      if (!da[i]) continue;
      ih_check(d[i]->is_lender() == (lent_to[i] >= 0), "a handle is a lender exactly while something is borrowed from it");
      if (lent_to[i] >= 0) continue;
      DeedTarget* t = d[i]->get();
      ih_check(t == (obj[i] < 0 ? nullptr : static_cast<DeedTarget*>(o[obj[i]])), "the handle points to the thing it holds");
      ih_check(static_cast<bool>(*d[i]) == (obj[i] >= 0) && (*d[i] == nullptr) == (obj[i] < 0) && (*d[i] != nullptr) == (obj[i] >= 0), "tests for emptiness");
      if (obj[i] >= 0) { ++holders[obj[i]]; ih_check(static_cast<Thing*>(t)->value == val[obj[i]], "the thing reached through the handle"); }
    }
    for (int t = 0; t < O; ++t) {
      if (oa[t]) { ih_check(o[t]->value == val[t], "value"); ih_check(holders[t] <= 1 && (holders[t] == 1) == (owner[t] >= 0), "at most one current holder"); }
    }
  }
  bool Usable(int i) { return da[i] && lent_to[i] < 0; }
  void Step(const char* an, const char* xn, const char* yn) {
    int op = Sel(11, an), x = Sel(D, xn);
    if (op == 0) {  // new empty handle
      ih_assume(!da[x]); d[x] = new (dm[x]) H(); Free(x); d[x] = static_cast<H*>(dm[x]); da[x] = true; return;
    }
    if (op == 4) { ih_assume(Usable(x)); d[x]->Return(); GiveBack(x); return; }
    if (op == 5) { ih_assume(Usable(x)); d[x]->~H(); GiveBack(x); Free(x); return; }
    if (op == 8) {  // destroy the thing
      ih_assume(oa[x]); o[x]->~Thing(); if (owner[x] >= 0) obj[owner[x]] = -1; owner[x] = -1; oa[x] = false; o[x] = nullptr; return;
    }
    int y = Sel(D, yn);
    switch (op) {
      case 1: {  // move construct y from x
        ih_assume(Usable(x) && !da[y]);
        d[y] = new (dm[y]) H(std::move(*d[x])); da[y] = true; lent_to[y] = -1;
        lender[y] = lender[x]; if (lender[y] >= 0) lent_to[lender[y]] = y;
        int t = obj[x]; obj[x] = -1; lender[x] = -1; Hold(y, t);
        break;
      }
      case 2: case 3: {  // swap, move assign
        ih_assume(Usable(x) && Usable(y) && (op == 3 || x <= y));
        if (op == 2) d[x]->swap(*d[y]); else *d[x] = std::move(*d[y]);
        if (x == y) break;
        int t = obj[x], l = lender[x];
        Hold(x, obj[y]); lender[x] = lender[y]; if (lender[x] >= 0) lent_to[lender[x]] = x;
        Hold(y, t); lender[y] = l; if (l >= 0) lent_to[l] = y;
        break;
      }
      case 6: {  // lend
        ih_assume(Usable(x) && !da[y]);
        d[y] = new (dm[y]) H(d[x]->Lend()); da[y] = true; lent_to[y] = -1;
        lender[y] = x; lent_to[x] = y; Hold(y, obj[x]); obj[x] = -1;
        break;
      }
      case 7: {  // move construct thing y from x
        ih_assume(oa[x] && !oa[y]);
        o[y] = new (om[y]) Thing(std::move(*o[x])); oa[y] = true; val[y] = val[x];
        owner[y] = owner[x]; if (owner[y] >= 0) obj[owner[y]] = y;
        owner[x] = -1;
        break;
      }
      case 9: {  // a handle for thing x, or for nothing
        ih_assume(!da[y]);
        d[y] = new (dm[y]) H(oa[x] ? o[x] : static_cast<Thing*>(nullptr)); da[y] = true; lent_to[y] = -1; lender[y] = -1; obj[y] = -1;
        if (oa[x]) {
          if (owner[x] >= 0) { lender[y] = owner[x]; lent_to[owner[x]] = y; obj[owner[x]] = -1; }
          Hold(y, x);
        }
        break;
      }
      default: {  // move assign thing, copy thing
        ih_assume(oa[x] && oa[y] && x != y);
        if (Sel(2, "copy")) { *o[x] = static_cast<const Thing&>(*o[y]); val[x] = val[y]; break; }
        *o[x] = std::move(*o[y]); val[x] = val[y];
        int a = owner[x], b = owner[y];
        owner[x] = b; if (b >= 0) obj[b] = x;
        owner[y] = a; if (a >= 0) obj[a] = y;
        break;
      }
    }
  }
  void Teardown() {
    // Borrowers end before their lenders.
    for (int round = 0; round < D; ++round)
      for (int i = 0; i < D; ++i)
        if (Usable(i)) { d[i]->~H(); GiveBack(i); Free(i); Verify(); }
    for (int i = 0; i < D; ++i) ih_check(!da[i], "harness: every handle ends");
    for (int i = 0; i < O; ++i) if (oa[i]) { o[i]->~Thing(); oa[i] = false; }
  }
};
template <class H>
void Run(int steps, bool prepared) {
  static const char* const an[5] = {"op0", "op1", "op2", "op3", "op4"};
  static const char* const xn[5] = {"x0", "x1", "x2", "x3", "x4"};
  static const char* const yn[5] = {"y0", "y1", "y2", "y3", "y4"};
  World<H> w;
  w.MakeObj(0, ih_sword("v0")); w.MakeObj(1, ih_sword("v1"));
  if (prepared) {  // 0 holds thing 0 and lends it to 1
    w.d[0] = new (w.dm[0]) H(w.o[0]); w.da[0] = true; w.Hold(0, 0);
    w.d[1] = new (w.dm[1]) H(w.d[0]->Lend()); w.da[1] = true; w.lender[1] = 0; w.lent_to[0] = 1; w.obj[0] = -1; w.Hold(1, 0);
  } else {
    w.d[0] = new (w.dm[0]) H(w.o[0]); w.da[0] = true; w.Hold(0, 0);
  }
  w.Verify();
  for (int i = 0; i < steps; ++i) { w.Step(an[i], xn[i], yn[i]); w.Verify(); }
  w.Teardown();
}
}  // namespace
HARNESS(histories, 0, "every history of 3 operations (4 thorough) on 3 places for handles and 3 for things, starting from one held thing and one free thing of any value") {
  Run<Deed<Thing>>(ih_thorough() ? 4 : 3, false);
}
HARNESS(lent_histories, 0, "every history of 3 operations (4 thorough) starting from a thing held by one handle and lent to a second") {
  Run<Deed<Thing>>(ih_thorough() ? 4 : 3, true);
}
HARNESS(generic_histories, 0, "every history of 2 operations (3 thorough) on untyped handles, starting from a lent thing") {
  Run<GenericDeed>(ih_thorough() ? 3 : 2, true);
}
