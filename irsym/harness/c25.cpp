// C25: redirected values and unification of vertex representations.
#include <new>
#include "ih.h"
#include "walnut/redirectable_value.h"
#include "walnut/vertex_double_point3_mapper.h"

static int Sel(int n, const char* name) { return (int)ih_range(name, 0, n - 1); }

#ifdef __clang__
// The parts of the standard library's hash table that live in its shared
// library, for the interpreter.
namespace std {
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) seed = seed * 31 + c[i];
  return seed;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  size_t r = n < 13 ? 13 : n | 1;
  const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = r;
  return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize) return {true, _M_next_bkt(2 * (elt + ins))};
  return {false, 0};
}
}  // namespace __detail
}  // namespace std
#endif

using namespace walnut;

namespace {
int live;
struct Probe {
  explicit Probe(int64_t v) : value(v) { ++live; }
  Probe(const Probe& o) : value(o.value) { ++live; }
  Probe(Probe&& o) : value(o.value) { ++live; }
  ~Probe() { --live; value = -77; }
  int64_t value;
};
using RV = RedirectableValue<Probe>;

const int kMax = 6;
struct Forest {
  RV* e[kMax]; int n = 0;
  int group[kMax];      // label of the group of each entry
  int64_t gval[kMax];   // value of each group, by label
  void Add(int64_t v) { e[n] = new RV(Probe(v)); group[n] = n; gval[n] = v; ++n; }
  void Copy(int x, bool of_const) {
    e[n] = of_const ? new RV(*static_cast<const RV*>(e[x])) : new RV(*e[x]);
    group[n] = group[x]; ++n;
  }
  void Redirect(int x, int y) {
    e[x]->Redirect(*e[y]);
    int from = group[x], to = group[y];
    if (from == to) return;
    for (int i = 0; i < n; ++i) if (group[i] == from) group[i] = to;
  }
  void Verify(bool by_const) {
    int groups = 0;
    for (int i = 0; i < n; ++i) {
      const RV& c = *e[i];
      const RV* p = by_const ? &c.primary() : &e[i]->primary();
      int64_t v = by_const ? (*c).value : (**e[i]).value;
      ih_check(v == gval[group[i]], "an entry resolves to the value of its group");
      ih_check((by_const ? c->value : (*e[i])->value) == v, "member access resolves like dereferencing");
      if (c.IsPrimary()) ++groups;
      bool member = false;
      for (int j = 0; j < n; ++j) {
        if (p == e[j]) member = group[j] == group[i];
        bool same = group[i] == group[j];
        ih_check((*e[i] == *e[j]) == same && (*e[i] != *e[j]) == !same, "entries are equal exactly in the same group");
        if (same) ih_check(&e[j]->primary() == p, "one representative per group");
      }
      ih_check(member, "the representative is a member of the group");
    }
    int labels = 0;
    for (int i = 0; i < n; ++i) { bool first = true; for (int j = 0; j < i; ++j) if (group[j] == group[i]) first = false; labels += first; }
    ih_check(groups == labels, "exactly one representative per group");
    ih_check(live == labels, "one live value per group");
  }
  void Finish() {
    // Entries end before the entry they are redirected to.
    for (int i = 0; i < n; ++i) if (!e[i]->IsPrimary()) { (void)e[i]->primary(); }
    bool gone[kMax] = {};
    for (int i = 0; i < n; ++i) if (!e[i]->IsPrimary()) gone[i] = true;
    for (int i = 0; i < n; ++i) if (!gone[i]) { e[i]->~RV(); }
    ih_check(live == 0, "every value is destroyed once");
    for (int i = 0; i < n; ++i) { if (gone[i]) e[i]->~RV(); }
    ih_check(live == 0, "a redirected entry destroys nothing");
    for (int i = 0; i < n; ++i) ::operator delete(static_cast<void*>(e[i]));
  }
};

void RunForest(int start, int steps) {
  static const char* const on[] = {"op0", "op1", "op2", "op3", "op4"};
  static const char* const xn[] = {"x0", "x1", "x2", "x3", "x4"};
  static const char* const yn[] = {"y0", "y1", "y2", "y3", "y4"};
  live = 0;
  Forest f;
  static const char* const vn[] = {"v0", "v1", "v2", "v3", "v4"};
  for (int i = 0; i < start; ++i) f.Add(ih_sword(vn[i]));
  int copies = 0;
  for (int s = 0; s < steps; ++s) {
    int op = Sel(copies == 0 && f.n < kMax ? 3 : 1, on[s]);
    int x = Sel(f.n, xn[s]);
    if (op == 0) { int y = Sel(f.n, yn[s]); f.Redirect(x, y); }
    else { f.Copy(x, op == 2); ++copies; }
    f.Verify((s & 1) != 0);
  }
  f.Verify(false); f.Verify(true);
  f.Finish();
}
}  // namespace

// Edges that only have what the mapper uses: a representation of their start
// vertex, and the next edge around that vertex.
namespace {
struct FakePoly {};
struct FakeParent {};
struct FakeVertex {
  DoublePoint3 p;
  DoublePoint3 GetDoublePoint3() const { return p; }
};
}  // namespace
namespace walnut {
template <>
class ConnectedEdge<FakePoly, FakeParent> {
 public:
  const FakeVertex& vertex() const { return v; }
  const ConnectedEdge* GetNextAroundVertex() const { return next; }
  FakeVertex v;
  const ConnectedEdge* next = nullptr;
};
}  // namespace walnut
namespace {
using FakeEdge = ConnectedEdge<FakePoly, FakeParent>;
struct Factory {
  int64_t* count;
  int64_t operator()(const DoublePoint3&) { return (*count)++; }
};
struct Merger {
  bool flip;
  void operator()(RedirectableValue<int64_t>& a, RedirectableValue<int64_t>& b) {
    if (flip) b.Redirect(a); else a.Redirect(b);
  }
};
DoublePoint3 Rep(int r) {
  switch (r) {
    case 0: return DoublePoint3(0.5, 1, 2);
    case 1: return DoublePoint3(0.5, 1, 2.5);
    case 2: return DoublePoint3(0.5, 1.5, 2);
    case 3: return DoublePoint3(0.75, 1, 2);
    case 4: return DoublePoint3(1, 0.5, 2);
    default: return DoublePoint3(-0.5, 1, 2);
  }
}
// `a` edges around the first vertex, whose representations are 0..ra-1, and
// `b` edges around the second, whose representations are 4 and 5.
void RunMapper(int a, int ra, int b) {
  static const char* const rn[] = {"r0", "r1", "r2", "r3", "r4", "r5", "r6"};
  static const char* const on[] = {"o0", "o1", "o2", "o3", "o4", "o5", "o6"};
  const int n = a + b;
  FakeEdge e[8];
  int rep[8];
  int used = 0;
  for (int i = 0; i < n; ++i) {
    // Which representation is called what does not matter: a new one is the
    // next one of its vertex.
    if (i == a) used = 0;
    int most = i < a ? ra : 2;
    int r = Sel(used + 1 < most ? used + 1 : most, rn[i]);
    if (r == used) ++used;
    rep[i] = i < a ? r : 4 + r;
    e[i].v.p = Rep(rep[i]);
    e[i].next = i < a ? &e[(i + 1) % a] : &e[a + (i - a + 1) % b];
  }
  int64_t count = 0;
  Merger m{Sel(2, "flip") != 0};
  VertexDoublePoint3Mapper<Factory, Merger> mapper(Factory{&count}, m);
  bool done[8] = {};
  for (int s = 0; s < n; ++s) {
    int k = Sel(n - s, on[s]), i = 0;
    while (done[i] || k-- > 0) ++i;
    done[i] = true;
    auto& r = mapper.Map(e[i]);
    ih_check(r.first == Rep(rep[i]), "the entry returned for an edge is the one of its own representation");
  }
  int64_t value[2]; const void* prim[2];
  for (int v = 0; v < 2; ++v) {
    int first = v == 0 ? 0 : a, end = v == 0 ? a : n;
    for (int i = first; i < end; ++i) {
      auto it = mapper.map.find(Rep(rep[i]));
      ih_check(it != mapper.map.end(), "every representation is mapped");
      if (i == first) { value[v] = *it->second; prim[v] = &it->second.primary(); }
      ih_check(*it->second == value[v] && &it->second.primary() == prim[v], "representations of one vertex have one index");
      ih_check(*it->second >= 0 && *it->second < count, "the index was made by the factory");
    }
  }
  if (b > 0) ih_check(value[0] != value[1] && prim[0] != prim[1], "different vertices have different indices");
  // Mapping again changes nothing.
  int64_t before = count;
  for (int i = 0; i < n; ++i) ih_check(*mapper.Map(e[i]).second == value[i < a ? 0 : 1], "mapping again gives the same index");
  ih_check(before == count, "mapping again creates no index");
  // Entries end before the entries they are redirected to.
  mapper.map.clear();
}
}  // namespace

HARNESS(forest, 0, "every history of 3 redirections, one of which may instead copy an entry, on 4 entries with any values") {
  RunForest(4, 3);
}
HARNESS(forest3, 1, "every history of 4 redirections, one of which may instead copy an entry, on 3 entries with any values") {
  RunForest(3, 4);
}
HARNESS(forest5, 1, "every history of 3 redirections on 5 entries") {
  RunForest(5, 3);
}
HARNESS(mapper_one, 0, "one vertex with 4 edges (5 thorough) in any of up to 4 representations, mapped in every order, merging in either direction") {
  RunMapper(ih_thorough() ? 5 : 4, 4, 0);
}
HARNESS(mapper_two, 0, "two vertices with 3 and 2 edges in any of up to 3 and 2 representations, mapped in every order") {
  RunMapper(3, 3, 2);
}
