// The exact check of a decomposition of closed polygons into convex pieces.
#ifndef VERIF_DECOMP_H
#define VERIF_DECOMP_H
#include <map>
#include "polys.h"

namespace geo {
inline bool Between(const HomoPoint3& a, const HomoPoint3& m, const HomoPoint3& b) {  // strictly inside segment ab
  Vector3 x = DirR(a, m), y = DirR(m, b);
  if (IsZeroR(x) || IsZeroR(y) || !IsZeroR(CrossR(x, y))) return false;
  return Sg(DotR(x, y)) > 0;
}
// A formal sum of directed segments between points.
struct Chain {
  const std::vector<HomoPoint3>& p;
  std::map<std::pair<int, int>, int> c;
  explicit Chain(const std::vector<HomoPoint3>& pts) : p(pts) {}
  void Add(int i, int j, int n) {
    if (i == j) return;
    if (i > j) { std::swap(i, j); n = -n; }
    if ((c[{i, j}] += n) == 0) c.erase({i, j});
  }
  // Does the sum vanish everywhere?  Segments are only looked at closely
  // where the sum does not cancel term by term.
  bool Zero() {
    if (c.empty()) return true;
    // one name for every location
    std::vector<int> name(p.size());
    for (size_t i = 0; i < p.size(); ++i) {
      name[i] = (int)i;
      for (size_t j = 0; j < i; ++j) if (name[j] == (int)j && SameLoc(p[i], p[j])) { name[i] = (int)j; break; }
    }
    auto old = c;
    c.clear();
    for (auto& t : old) Add(name[t.first.first], name[t.first.second], t.second);
    for (bool again = true; again && !c.empty();) {
      again = false;
      for (auto t : c) {
        int i = t.first.first, j = t.first.second;
        for (size_t k = 0; k < p.size() && !again; ++k) {
          if (name[k] != (int)k || (int)k == i || (int)k == j || !Between(p[i], p[k], p[j])) continue;
          Add(i, j, -t.second);
          Add(i, (int)k, t.second);
          Add((int)k, j, t.second);
          again = true;
        }
        if (again) break;
      }
    }
    return c.empty();
  }
};
// Proper polygons: no two edges touch except at a shared vertex, and no edge
// folds back onto its neighbour.  Repeated vertices are removed first.
inline bool IsSimple(const std::vector<HomoPoint3>& in, const Vector3& n) {
  std::vector<HomoPoint3> p;
  for (const auto& q : in) if (p.empty() || !SameLoc(p.back(), q)) p.push_back(q);
  while (p.size() > 1 && SameLoc(p.front(), p.back())) p.pop_back();
  int k = p.size();
  if (k < 3) return false;
  auto turn = [&](const HomoPoint3& a, const HomoPoint3& b, const HomoPoint3& c) { return Sg(DotR(CrossR(DirR(a, b), DirR(a, c)), n)); };
  for (int i = 0; i < k; ++i)
    for (int j = i + 1; j < k; ++j) {
      const HomoPoint3 &a = p[i], &b = p[(i + 1) % k], &c = p[j], &d = p[(j + 1) % k];
      if (j == i + 1 || (i == 0 && j == k - 1)) {
        const HomoPoint3 &m = j == i + 1 ? b : a, &x = j == i + 1 ? a : c, &y = j == i + 1 ? d : b;
        if (k > 3 || true) {
          Vector3 u = DirR(m, x), v = DirR(m, y);
          if (IsZeroR(CrossR(u, v)) && Sg(DotR(u, v)) > 0) return false;
        }
        continue;
      }
      int t1 = turn(a, b, c), t2 = turn(a, b, d);
      if (t1 * t2 > 0) continue;
      int t3 = turn(c, d, a), t4 = turn(c, d, b);
      if (t3 * t4 > 0) continue;
      if (t1 == 0 && t2 == 0) {
        if (Between(a, c, b) || Between(a, d, b) || Between(c, a, d) || SameLoc(a, c) || SameLoc(a, d) || SameLoc(b, c) || SameLoc(b, d)) return false;
        continue;
      }
      return false;
    }
  return true;
}
}  // namespace geo
#endif
