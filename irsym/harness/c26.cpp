// C26: concatenated and adapted ranges.
#include <vector>
#include "ih.h"
#include "walnut/concat_range.h"
#include "walnut/transform_iterator.h"

using namespace walnut;
using Vec = int64_t*;
using Range = ConcatRange<int64_t*>;
static int64_t g_data[16];
static const char* const kNames[16] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10", "v11", "v12", "v13", "v14", "v15"};
static void Fill(int n) {
  for (int i = 0; i < n; ++i) g_data[i] = ih_sword(kNames[i]);
}
struct Ref { int64_t* e[24]; int n = 0; };
// A symbolic number in [0, n).
static int Sel(int n, const char* name) { return (int)ih_range(name, 0, n - 1); }
template <class R>
static void Walk(R& r, const Ref& want, const char* what) {
  int i = 0;
  auto it = r.begin();
  for (; it != r.end(); ++it, ++i) {
    ih_check(i < want.n, what);
    ih_check(&*it == want.e[i] && *it == *want.e[i], what);
    ih_check(it.operator->() == want.e[i], what);
    ih_check(!(it == r.end()), what);
  }
  ih_check(i == want.n && it == r.end(), what);
  while (i > 0) {
    --i;
    if (i & 1) --it; else { auto old = it--; ih_check(old != it, what); }
    ih_check(&*it == want.e[i], what);
  }
  ih_check(it == r.begin(), what);
  auto jt = r.begin();
  for (int k = 0; k < want.n; ++k) { auto old = jt++; ih_check(&*old == want.e[k], what); }
  ih_check(jt == r.end(), what);
  i = want.n;
  for (auto b = r.rbegin(); b != r.rend(); ++b) { --i; ih_check(i >= 0 && &*b == want.e[i], what); }
  ih_check(i == 0, what);
}
static void WalkAll(Range& r, const Ref& want, const char* what) {
  Walk(r, want, what);
  const Range& c = r;
  Walk(c, want, what);
  // positions reached by offset
  for (int i = 0; i <= want.n; ++i) {
    auto it = r.begin() + (size_t)i;
    ih_check((it == r.end()) == (i == want.n), "begin() + n");
    if (i < want.n) {
      ih_check(&*it == want.e[i], "begin() + n");
      ih_check(&r.begin()[(size_t)i] == want.e[i], "begin()[n]");
    }
    auto at = r.begin();
    for (int k = 0; k < i; ++k) ++at;
    ih_check(at == it, "begin() + n equals n increments");
    for (int j = 0; i + j <= want.n; ++j) {
      auto jt = at + (size_t)j;
      ih_check((jt == r.end()) == (i + j == want.n), "it + n");
      if (i + j < want.n) ih_check(&*jt == want.e[i + j], "it + n");
    }
  }
  Range::const_iterator cb = r.begin();
  ih_check(cb == c.begin() && cb == r.cbegin() && r.cend() == c.end(), "const and non-const positions");
}
static void Put(Ref* w, bool front, int64_t* b, int n) {
  if (front) { for (int i = w->n; i-- > 0;) w->e[i + n] = w->e[i]; for (int i = 0; i < n; ++i) w->e[i] = b + i; }
  else for (int i = 0; i < n; ++i) w->e[w->n + i] = b + i;
  w->n += n;
}
static void Build(Range* r, Ref* want, int pieces, int max_size, int base) {
  static const char* const sizes[4] = {"size0", "size1", "size2", "size3"};
  static const char* const ends[4] = {"front0", "front1", "front2", "front3"};
  for (int i = 0; i < pieces; ++i) {
    int n = Sel(max_size + 1, sizes[i]);
    bool front = Sel(2, ends[i]) == 1;
    int64_t* b = g_data + base + 4 * i;
    if (front) r->Prepend(b, b + n); else r->Append(b, b + n);
    Put(want, front, b, n);
  }
}
HARNESS(sequence, 0, "up to 3 ranges of 0 to 2 arbitrary elements appended or prepended in any order: both directions, const, reverse, offsets") {
  Fill(12);
  Range r; Ref want;
  Build(&r, &want, ih_thorough() ? 4 : 3, ih_thorough() ? 3 : 2, 0);
  WalkAll(r, want, "element sequence");
  Range copy(r);
  WalkAll(copy, want, "element sequence of a copy");
  r.Clear();
  Ref none;
  WalkAll(r, none, "cleared");
  ih_check(r.begin() == r.end(), "cleared");
  int64_t* b = g_data;
  r.Append(b, b + 2); Put(&none, false, b, 2);
  WalkAll(r, none, "reused after clearing");
}
HARNESS(nested, 0, "any part of a concatenation of up to 2 ranges of 0 to 2 elements appended or prepended to one of up to 2 ranges") {
  Fill(16);
  Range a, b; Ref wa, wb;
  Build(&a, &wa, 2, 2, 0);
  int pieces = Sel(3, "pieces");
  static const char* const sizes[2] = {"bsize0", "bsize1"};
  for (int i = 0; i < pieces; ++i) {
    int n = Sel(3, sizes[i]);
    b.Append(g_data + 8 + 4 * i, g_data + 8 + 4 * i + n); Put(&wb, false, g_data + 8 + 4 * i, n);
  }
  int from = Sel(wa.n + 1, "from"), to = from + Sel(wa.n - from + 1, "length");
  Range::const_iterator f = a.begin(), t = a.begin();
  for (int i = 0; i < from; ++i) ++f;
  for (int i = 0; i < to; ++i) ++t;
  bool front = Sel(2, "front") == 1;
  if (front) b.Prepend(f, t); else b.Append(f, t);
  Ref w;
  for (int i = 0; i < (front ? to - from : wb.n); ++i) w.e[w.n++] = front ? wa.e[from + i] : wb.e[i];
  for (int i = 0; i < (front ? wb.n : to - from); ++i) w.e[w.n++] = front ? wb.e[i] : wa.e[from + i];
  WalkAll(b, w, "element sequence after adding part of another concatenation");
  WalkAll(a, wa, "the source is unchanged");
}
HARNESS(as_range, 0, "a concatenation used as the input range of another concatenation") {
  Fill(8);
  Range a; Ref wa;
  Build(&a, &wa, 2, 2, 0);
  ConcatRange<Range::const_iterator> c;
  c.Append(a.cbegin(), a.cend());
  c.Prepend(g_data, g_data + 1);
  Ref w;
  w.e[w.n++] = g_data;
  for (int i = 0; i < wa.n; ++i) w.e[w.n++] = wa.e[i];
  Walk(c, w, "collapsed concatenation");
}
namespace {
struct Pair { int64_t a, b; };
struct Pick {
  Pick(int which = 0) : which(which) {}
  int64_t& operator()(Pair& p) const { return which ? p.b : p.a; }
  int which;
};
}
HARNESS(transform, 0, "an adapted iterator with any function state over 3 arbitrary elements: every operation keeps position and function") {
  static Pair p[3];
  for (int i = 0; i < 3; ++i) { p[i].a = ih_sword(kNames[2 * i]); p[i].b = ih_sword(kNames[2 * i + 1]); }
  int which = Sel(2, "function");
  using It = TransformIterator<Pair*, Pick>;
  const It b(p, Pick(which)), e(p + 3, Pick(which));
  auto at = [&](int i) { return which ? &p[i].b : &p[i].a; };
  int i = Sel(4, "position");
  It it = b;
  for (int k = 0; k < i; ++k) {
    ih_check(&*it == at(k) && it.operator->() == at(k), "element");
    if (k & 1) ++it; else { It old = it++; ih_check(&*old == at(k), "post increment returns the old position with its function"); }
  }
  ih_check((it == e) == (i == 3) && (it != e) == (i != 3), "end");
  ih_check(it - b == i && e - it == 3 - i, "distance");
  It plus = b + i; ih_check(plus == it, "b + n");
  It minus = e - (3 - i); ih_check(minus == it, "e - n");
  It pe = b; pe += i; ih_check(pe == it, "b += n");
  It me = e; me -= 3 - i; ih_check(me == it, "e -= n");
  It copy(it); ih_check(copy == it, "copy");
  ih_check((it < e) == (i < 3) && (it <= e) && (it >= b) && (it > b) == (i > 0), "order");
  if (i < 3) {
    ih_check(&*plus == at(i), "b + n keeps the function");
    ih_check(&*minus == at(i), "e - n keeps the function");
    ih_check(&*pe == at(i) && &*me == at(i) && &*copy == at(i), "position and function");
    ih_check(&b[i] == at(i), "b[n]");
    ih_check(*it == *at(i), "value");
    int64_t x = ih_sword("written");
    *it = x;
    ih_check((which ? p[i].b : p[i].a) == x, "write through");
  }
  if (i > 0) {
    It d = it, d2 = it;
    It old = d--; --d2;
    ih_check(&*d == at(i - 1) && d == d2, "decrement");
    ih_check(old == it, "post decrement returns the old position");
    if (i < 3) ih_check(&*old == at(i), "post decrement keeps the function");
  }
}
