// Axis aligned boxes as input solids, and the exact check of a boolean
// combination of them: the coordinates of the boxes are sorted, so that every
// vertex of the result has integer ranks, and the surface is then compared
// face by face of the grid with the boundary of the combination.
#ifndef VERIF_BOXES_H
#define VERIF_BOXES_H
#include <algorithm>
#include "polys.h"
#include "walnut/aabb_convex_polygon.h"
#include "walnut/bsp_tree.h"
#include "walnut/bsp_visitor.h"

namespace geo {

struct SBoxSolid { BigInt lo[3], hi[3]; };

inline SBoxSolid MakeBox(const BigInt& x0, const BigInt& y0, const BigInt& z0, const BigInt& x1, const BigInt& y1, const BigInt& z1) {
  SBoxSolid b;
  b.lo[0] = x0; b.lo[1] = y0; b.lo[2] = z0; b.hi[0] = x1; b.hi[1] = y1; b.hi[2] = z1;
  return b;
}
// The six faces, outward (or inward if flipped).
template <class Poly = AABBConvexPolygon<>>
std::vector<Poly> BoxMesh(const SBoxSolid& b, bool flip = false, int only_dim = -1) {
  std::vector<Poly> r;
  for (int dim = 0; dim < 3; ++dim) for (int up = 0; up < 2; ++up) {
    if (only_dim >= 0 && only_dim != dim) continue;
    int e = (dim + 1) % 3, f = (dim + 2) % 3;
    std::vector<HomoPoint3> v;
    for (int k = 0; k < 4; ++k) {
      BigInt c[3];
      c[dim] = up ? b.hi[dim] : b.lo[dim];
      c[e] = (k == 1 || k == 2) ? b.hi[e] : b.lo[e];
      c[f] = k >= 2 ? b.hi[f] : b.lo[f];
      v.emplace_back(c[0], c[1], c[2], BigInt(1));
    }
    bool pos = (up != 0) != flip;
    if (!pos) std::reverse(v.begin(), v.end());
    BigInt n[3] = {BigInt(0), BigInt(0), BigInt(0)};
    n[dim] = BigInt(pos ? 1 : -1);
    BigInt d = up ? b.hi[dim] : b.lo[dim];
    if (!pos) d = -d;
    r.emplace_back(HalfSpace3(n[0], n[1], n[2], d), dim, v);
  }
  return r;
}

struct Grid {
  std::vector<BigInt> c[3];
  void Add(const SBoxSolid& b) {
    for (int i = 0; i < 3; ++i) { Insert(i, b.lo[i]); Insert(i, b.hi[i]); }
  }
  void Insert(int dim, const BigInt& v) {
    auto& w = c[dim];
    size_t k = 0;
    for (; k < w.size(); ++k) {
      int s = Sg(v - w[k]);
      if (s == 0) return;
      if (s < 0) break;
    }
    w.insert(w.begin() + k, v);
  }
  int Rank(int dim, const BigInt& x, const BigInt& w) const {
    for (size_t k = 0; k < c[dim].size(); ++k) if (Sg(x - c[dim][k] * w) == 0) return (int)k;
    return -1;
  }
  // Is the cell (cell i of an axis lies below coordinate i) inside the box?
  bool Inside(const SBoxSolid& b, const int* cell) const {
    for (int i = 0; i < 3; ++i) {
      int lo = Rank(i, b.lo[i], BigInt(1)), hi = Rank(i, b.hi[i], BigInt(1));
      if (cell[i] <= lo || cell[i] > hi) return false;
    }
    return true;
  }
};

// Exact 2D point in convex polygon, for even vertices and an odd point.
inline bool InPolygon(const std::vector<std::pair<int, int>>& v, int x, int y) {
  bool neg = false, pos = false;
  for (size_t i = 0; i < v.size(); ++i) {
    auto a = v[i], b = v[(i + 1) % v.size()];
    long s = (long)(b.first - a.first) * (y - a.second) - (long)(b.second - a.second) * (x - a.first);
    neg |= s < 0; pos |= s > 0;
    if (s == 0) return false;  // not for polygons along the grid
  }
  return !(neg && pos);
}

// Compares the surface with the boundary of { cell | inside(cell) }.  Where two
// inputs touch from opposite sides (touch(lower cell, upper cell)) the surface
// may contain the two coinciding faces of opposite orientation.  Without
// `oriented` the faces may point either way, and an odd number of them is
// wanted where the result is on one side only.
template <class Polys, class Fn, class Fn2>
void CheckSurface(const Grid& g, const Polys& polys, const Fn& inside, const Fn2& touch, bool oriented = true, bool valid = true) {
  int n[3];
  for (int i = 0; i < 3; ++i) n[i] = (int)g.c[i].size();
  struct RP { int dim, rank; bool up; std::vector<std::pair<int, int>> v; };
  std::vector<RP> rp;
  for (const auto& p : polys) {
    if (valid) CheckValid(p, "output polygons are valid and convex");
    const Vector3& nm = p.plane().normal();
    RP r; r.dim = -1;
    for (int i = 0; i < 3; ++i) if (Sg(Comp(nm, i)) != 0) { Check(r.dim < 0, "output faces are parallel to input faces"); r.dim = i; }
    Check(r.dim >= 0, "output face has a normal");
    r.up = Sg(Comp(nm, r.dim)) > 0;
    for (size_t k = 0; k < p.vertex_count(); ++k) {
      const HomoPoint3& q = p.vertex(k);
      int c[3];
      for (int i = 0; i < 3; ++i) {
        c[i] = g.Rank(i, Comp(q.vector_from_origin(), i), q.w());
        Check(c[i] >= 0, "output vertices are crossings of input faces");
      }
      if (k == 0) r.rank = c[r.dim];
      Check(r.rank == c[r.dim], "output polygon is in its plane");
      r.v.emplace_back(2 * c[(r.dim + 1) % 3], 2 * c[(r.dim + 2) % 3]);
    }
    rp.push_back(r);
  }
  // Cells of the grid, evaluated once.
  std::vector<char> in((n[0] + 1) * (n[1] + 1) * (n[2] + 1));
  auto at = [&](const int* c) -> char& { return in[(c[0] * (n[1] + 1) + c[1]) * (n[2] + 1) + c[2]]; };
  int c[3];
  for (c[0] = 0; c[0] <= n[0]; ++c[0]) for (c[1] = 0; c[1] <= n[1]; ++c[1]) for (c[2] = 0; c[2] <= n[2]; ++c[2]) at(c) = inside(c);
  for (int dim = 0; dim < 3; ++dim) {
    int e = (dim + 1) % 3, f = (dim + 2) % 3;
    for (int r = 0; r < n[dim]; ++r) for (int j = 1; j < n[e]; ++j) for (int k = 1; k < n[f]; ++k) {
      int lo[3], hi[3];
      lo[dim] = r; hi[dim] = r + 1; lo[e] = hi[e] = j; lo[f] = hi[f] = k;
      int up = 0, down = 0;
      for (const RP& q : rp)
        if (q.dim == dim && q.rank == r && InPolygon(q.v, 2 * j - 1, 2 * k - 1)) (q.up ? up : down)++;
      bool a = at(lo), b = at(hi);
      if (up > 0 && down > 0 && touch(lo, hi)) { --up; --down; }
      if (oriented) {
        Check(up == (a && !b), "the result has an upward face exactly where it is below but not above");
        Check(down == (!a && b), "the result has a downward face exactly where it is above but not below");
      } else {
        Check((up + down) % 2 == (a != b), "the result has an odd number of faces exactly where it is on one side only");
      }
    }
  }
}
}  // namespace geo
#endif
