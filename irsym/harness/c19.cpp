// C19: boolean filters.
#include <vector>
#include <unordered_map>
#include "ih.h"
#ifdef __clang__
namespace std {
size_t _Hash_bytes(const void*, size_t, size_t seed) { return seed; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n | 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
}
}
#endif
#include "walnut/boolean_operation_filter.h"
#include "walnut/bsp_visitor.h"

using namespace walnut;
static int Sel(int n, const char* name) { return (int)ih_range(name, 0, n - 1); }
namespace {
const int kIds = 4;  // ids 0..3, of which the first `known` have an entry
struct World {
  std::vector<BSPContentInfo> info, after;
  int64_t pwn[kIds], pwn2[kIds];
  explicit World(int most, int least = 0) {
    static const char* const pn[] = {"pwn0", "pwn1", "pwn2", "pwn3"};
    static const char* const in[] = {"interior0", "interior1", "interior2", "interior3"};
    static const char* const bn[] = {"border0", "border1", "border2", "border3"};
    static const char* const qn[] = {"later0", "later1", "later2", "later3"};
    int known = least + Sel(most - least + 1, "known");
    for (int i = 0; i < kIds; ++i) {
      pwn[i] = pwn2[i] = 0;
      if (i >= known) continue;
      BSPContentInfo c;
      c.has_interior_polygons = (size_t)ih_range(in[i], 0, 1000000);
      c.has_border_polygons = (size_t)ih_range(bn[i], 0, 1000000);
      c.pwn = pwn[i] = ih_sword(pn[i]);
      info.push_back(c);
      // Somewhere below the winding number of a solid that still has polygons
      // here may be anything, that of another one stays.
      bool has = c.has_interior_polygons != 0 || c.has_border_polygons != 0;
      pwn2[i] = has ? ih_sword(qn[i]) : pwn[i];
      c.pwn = pwn2[i];
      c.has_interior_polygons = c.has_border_polygons = 0;
      after.push_back(c);
    }
  }
  // `inside` and `inside2` are the formula for `pwn` and `pwn2`.
  template <class F> void Check(F& f, bool inside, bool inside2) {
    std::pair<bool, bool> r = f(info);
    ih_check(r.first == inside, "the filter accepts exactly where its formula holds");
    ih_check(r.second || inside == inside2, "where the filter says nothing can change, nothing does");
    std::pair<bool, bool> s = f(after);
    ih_check(s.first == inside2, "the filter accepts exactly where its formula holds, below");
    ih_check(!s.second, "nothing changes where no polygons are left");
  }
};
// The formulas.
bool Pos(const int64_t* w, size_t id) { return w[id] > 0; }
bool NonNeg(const int64_t* w, size_t id) { return w[id] >= 0; }
bool Odd(const int64_t* w, size_t id) { return w[id] % 2 != 0; }
}  // namespace

HARNESS(single, 0, "PolygonFilter, InvertedPolygonFilter and OddPolygonFilter for any of 3 ids, 0 to 3 solids with any winding numbers and polygon counts") {
  World w(3);
  BSPContentId id = (BSPContentId)Sel(3, "id");
  switch (Sel(3, "filter")) {
    case 0: { PolygonFilter f(id); w.Check(f, Pos(w.pwn, id), Pos(w.pwn2, id)); break; }
    case 1: { InvertedPolygonFilter f(id); w.Check(f, NonNeg(w.pwn, id), NonNeg(w.pwn2, id)); break; }
    default: { OddPolygonFilter f(id); w.Check(f, Odd(w.pwn, id), Odd(w.pwn2, id)); break; }
  }
}
HARNESS(combined, 0, "intersection, union, subtraction and exclusive-or of each two filters for any of 3 ids") {
  World w(2);
  BSPContentId a = (BSPContentId)Sel(3, "a"), b = (BSPContentId)Sel(3, "b");
  bool ia = Pos(w.pwn, a), ib = Pos(w.pwn, b), nb = NonNeg(w.pwn, b);
  bool ja = Pos(w.pwn2, a), jb = Pos(w.pwn2, b), mb = NonNeg(w.pwn2, b);
  PolygonFilter fa(a), fb(b);
  switch (Sel(4, "filter")) {
    case 0: { auto f = MakeIntersectionFilter(fa, fb); w.Check(f, ia && ib, ja && jb); break; }
    case 1: { auto f = MakeUnionFilter(fa, fb); w.Check(f, ia || ib, ja || jb); break; }
    case 2: { auto f = MakeSubtractionFilter(fa, InvertedPolygonFilter(b)); w.Check(f, ia && nb, ja && mb); break; }
    default: { auto f = MakeXORFilter(fa, fb); w.Check(f, ia != ib, ja != jb); break; }
  }
}
HARNESS(nested, 0, "filters combined from combined filters over 3 solids with any winding numbers") {
  World w(3, 3);
  PolygonFilter f0(0), f1(1), f2(2);
  const int64_t *p = w.pwn, *q = w.pwn2;
  switch (Sel(6, "filter")) {
    case 0: { auto f = MakeUnionFilter(MakeIntersectionFilter(f0, f1), f2); w.Check(f, (Pos(p, 0) && Pos(p, 1)) || Pos(p, 2), (Pos(q, 0) && Pos(q, 1)) || Pos(q, 2)); break; }
    case 1: { auto f = MakeIntersectionFilter(f0, MakeUnionFilter(f1, f2)); w.Check(f, Pos(p, 0) && (Pos(p, 1) || Pos(p, 2)), Pos(q, 0) && (Pos(q, 1) || Pos(q, 2))); break; }
    case 2: { auto f = MakeSubtractionFilter(MakeUnionFilter(f0, f1), InvertedPolygonFilter(2)); w.Check(f, (Pos(p, 0) || Pos(p, 1)) && NonNeg(p, 2), (Pos(q, 0) || Pos(q, 1)) && NonNeg(q, 2)); break; }
    case 3: { auto f = MakeXORFilter(MakeXORFilter(f0, f1), f2); w.Check(f, (Pos(p, 0) != Pos(p, 1)) != Pos(p, 2), (Pos(q, 0) != Pos(q, 1)) != Pos(q, 2)); break; }
    case 4: { auto f = MakeXORFilter(MakeUnionFilter(f0, OddPolygonFilter(1)), f2); w.Check(f, (Pos(p, 0) || Odd(p, 1)) != Pos(p, 2), (Pos(q, 0) || Odd(q, 1)) != Pos(q, 2)); break; }
    default: { auto f = MakeIntersectionFilter(MakeXORFilter(f0, f1), InvertedPolygonFilter(2)); w.Check(f, (Pos(p, 0) != Pos(p, 1)) && NonNeg(p, 2), (Pos(q, 0) != Pos(q, 1)) && NonNeg(q, 2)); break; }
  }
}
namespace {
void RunIds(int count) {
  World w(3);
  static const char* const nn[] = {"id0", "id1", "id2"};
  std::vector<BSPContentId> ids;
  bool a[2] = {true, true}, o[2] = {false, false}, s[2] = {false, false};
  for (int i = 0; i < count; ++i) {
    BSPContentId id = (BSPContentId)Sel(kIds, nn[i]);
    ids.push_back(id);
    for (int k = 0; k < 2; ++k) {
      const int64_t* p = k == 0 ? w.pwn : w.pwn2;
      a[k] = a[k] && Pos(p, id); o[k] = o[k] || Pos(p, id);
      s[k] = i == 0 ? Pos(p, id) : s[k] && NonNeg(p, id);
    }
  }
  bool set = Sel(2, "set") != 0;
  switch (Sel(3, "filter")) {
    case 0: { UnionIdsFilter f(set ? std::vector<BSPContentId>() : ids); if (set) f.SetIds(ids); w.Check(f, o[0], o[1]); break; }
    case 1: { IntersectIdsFilter f(set ? std::vector<BSPContentId>() : ids); if (set) f.SetIds(ids); w.Check(f, a[0], a[1]); break; }
    default: { SubtractIdsFilter f(set ? std::vector<BSPContentId>() : ids); if (set) f.SetIds(ids); w.Check(f, s[0], s[1]); break; }
  }
}
}
HARNESS(ids1, 0, "union, intersection and subtraction of a list of one of 4 ids, 0 to 3 solids with any winding numbers") { RunIds(1); }
HARNESS(ids2, 0, "union, intersection and subtraction of a list of two of 4 ids, 0 to 3 solids with any winding numbers") { RunIds(2); }
HARNESS(ids3, 1, "union, intersection and subtraction of a list of three of 4 ids, 0 to 3 solids with any winding numbers") { RunIds(3); }
HARNESS(no_ids, 0, "union and subtraction of an empty list accept nothing") {
  World w(2);
  if (Sel(2, "filter") == 0) { UnionIdsFilter f; w.Check(f, false, false); } else { SubtractIdsFilter f; w.Check(f, false, false); }
}
