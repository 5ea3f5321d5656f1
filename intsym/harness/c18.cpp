#include <cstdlib>
#include <iostream>
#include "decomp.h"
#include "walnut/convex_polygon_factory.h"
using namespace geo;

namespace {
struct Idx : public EdgeInfoRoot {
  Idx() = default;
  explicit Idx(int i) : i(i) {}
  Idx(const Idx& o) : EdgeInfoRoot(), i(o.i) {}
  Idx(RValueKey<Idx> o) noexcept : i(o.get().i) {}
  Idx(const Idx& o, const HomoPoint3&) : i(o.i) {}
  Idx(const Idx& o, const PluckerLine&) : i(o.i) {}
  Idx(const Idx& o, const HomoPoint3&, const PluckerLine&) : i(o.i) {}
  Idx& operator=(const Idx& o) { i = o.i; return *this; }
  Idx& operator=(RValueKey<Idx> o) noexcept { i = o.get().i; return *this; }
  bool operator==(const Idx& o) const { return i == o.i; }
  bool operator!=(const Idx& o) const { return i != o.i; }
  int i = -1;
};
typedef Point3WithVertexData<Idx> DPoint;
const int kW[12] = {1, -2, 3, -5, 7, -11, 13, -17, 19, -23, 29, -31};

template <class F>
struct Collector : public F {
  std::vector<typename F::ConvexPolygonRep> result;
 protected:
  void Emit(typename F::ConvexPolygonRep&& p) override { result.push_back(std::move(p)); }
};
typedef std::vector<std::array<BigInt, 3>> Input;

// No three vertices on a line.
bool InGeneralPosition(const std::vector<HomoPoint3>& p) {
  int k = p.size();
  for (int i = 0; i < k; ++i)
    for (int j = i + 1; j < k; ++j)
      for (int m = j + 1; m < k; ++m)
        if (IsZeroR(CrossR(DirR(p[i], p[j]), DirR(p[i], p[m])))) return false;
  return true;
}
// Does the polygon go up and down only once along a coordinate?
bool IsMonotone(const std::vector<HomoPoint3>& p, int dim) {
  std::vector<int> s;
  for (size_t i = 0; i < p.size(); ++i) {
    int c = CompR(p[(i + 1) % p.size()], p[i], dim);
    if (c) s.push_back(c);
  }
  int changes = 0;
  for (size_t i = 0; i < s.size(); ++i) changes += s[i] != s[(i + 1) % s.size()];
  return changes <= 2;
}
// in: the polygon; the pieces' vertices are identified with idx.
template <class P, class At>
void CheckPieces(const std::vector<HomoPoint3>& in, const std::vector<P>& pieces, bool planar, bool simple, const At& idx) {
  Chain chain(in);
  int k = in.size();
  for (int i = 0; i < k; ++i) chain.Add(i, (i + 1) % k, 1);
  for (const P& p : pieces) {
    CheckValid(p, "pieces are valid and convex");
    std::vector<int> id;
    for (size_t i = 0; i < p.vertex_count(); ++i) {
      int j = idx(p, i);
      Check(j >= 0 && j < k, "pieces only have vertices of the input");
      Check(SameLoc(in[j], p.vertex(i)), "pieces only have vertices of the input, with their data");
      id.push_back(j);
    }
    for (size_t i = 0; i < id.size(); ++i) chain.Add(id[i], id[(i + 1) % id.size()], -1);
  }
  Check(chain.Zero(), "the borders of the pieces add up to the border of the input");
  if (!planar) { Reach(pieces.empty() ? "none" : "pieces"); return; }
  if (pieces.empty()) { Reach("none"); return; }
  const Vector3& n = pieces[0].plane().normal();
  bool opposite = false;
  for (const P& p : pieces) {
    Check(SameDirR(p.plane().normal(), n) || SameDirR(-p.plane().normal(), n), "pieces lie in the plane of the input");
    opposite = opposite || Sg(DotR(p.plane().normal(), n)) < 0;
  }
  if (!opposite) { Reach(pieces.size() > 1 ? "several" : "one"); return; }
  // All pieces of one direction tile the polygon (their borders add up to its
  // border).  Only polygons that cross themselves, or that are not monotone in
  // the coordinate that is swept, may have pieces in both directions.
  int drop = Sg(n.x()) ? 0 : Sg(n.y()) ? 1 : 2, dim = drop == 1 ? 0 : 1;
  if (simple) Check(!IsMonotone(in, dim), "the pieces of a simple monotone polygon have its orientation");
  Reach("both directions");
}
// kind: 0 simple polygons in a plane with normal n, 1 polygons of a plane that
// may cross themselves but have no three vertices on a line, 2 polygons in
// space that have no three vertices on a line.
void Run(const Input& v, int type, int kind, const Vector3& n, const HalfSpace3* plane = nullptr) {
  std::vector<HomoPoint3> in;
  {
    std::vector<HomoPoint3> loc;
    for (const auto& q : v) loc.emplace_back(q[0], q[1], q[2], BigInt(1));
    if (kind == 0 && !IsSimple(loc, n)) { Reach("not simple"); return; }
    if (kind != 0 && !InGeneralPosition(loc)) { Reach("not in general position"); return; }
  }
  bool planar = kind != 2;
#ifndef SYMBOLIC
  if (getenv("PRINT_INPUT")) for (const auto& q : v) std::cerr << q[0] << " " << q[1] << " " << q[2] << "\n";
#endif
  if (type == 0) {
    std::vector<DPoint> pts;
    for (size_t i = 0; i < v.size(); ++i) {
      pts.emplace_back(v[i][0], v[i][1], v[i][2]);
      pts.back().data.i = (int)i;
      in.emplace_back(pts.back());
    }
    Collector<ConvexPolygonFactory<DPoint>> c;
    if (plane) c.ConvexPolygonFactory<DPoint>::Build(*plane, pts.begin(), pts.end()); else c.Build(pts.begin(), pts.end());
    CheckPieces(in, c.result, planar, kind == 0, [](const MutableConvexPolygon<Idx>& p, size_t i) { return p.const_edge(i).i; });
  } else {
    // The denominators name the vertices.
    for (size_t i = 0; i < v.size(); ++i) {
      BigInt w(kW[i]), x = v[i][0] * w, y = v[i][1] * w, z = v[i][2] * w;
      in.emplace_back(x, y, z, w);
    }
    std::vector<HomoPoint3> pts = in;
    Collector<ConvexPolygonFactory<HomoPoint3>> c;
    if (plane) c.ConvexPolygonFactory<HomoPoint3>::Build(*plane, pts.begin(), pts.end()); else c.Build(pts.begin(), pts.end());
    CheckPieces(in, c.result, planar, kind == 0, [&](const MutableConvexPolygon<>& p, size_t i) {
      for (size_t j = 0; j < v.size(); ++j) if (Sg(p.vertex(i).w() - BigInt(kW[j])) == 0) return (int)j;
      return -1;
    });
  }
}

// Polygons in the plane, in the coordinates of a frame.
const std::vector<std::vector<P2>>& Plane() {
  static const std::vector<std::vector<P2>> s = {
      {{0, 0}, {6, 0}, {6, 6}, {0, 6}},                                      // 0 square
      {{0, 0}, {6, 1}, {7, 5}, {3, 8}, {-1, 4}},                             // 1 convex pentagon
      {{0, 0}, {4, 0}, {4, 2}, {2, 2}, {2, 6}, {0, 6}},                      // 2 L
      {{0, 0}, {3, 2}, {6, 0}, {4, 3}, {6, 6}, {3, 4}, {0, 6}, {2, 3}},      // 3 star
      {{0, 0}, {6, 0}, {6, 2}, {2, 2}, {2, 4}, {6, 4}, {6, 6}, {0, 6}},      // 4 C
      {{0, 0}, {1, 4}, {2, 0}, {3, 4}, {4, 0}, {4, 6}, {0, 6}},              // 5 comb
      {{0, 0}, {2, 0}, {4, 0}, {6, 0}, {6, 3}, {6, 6}, {3, 6}, {0, 6}, {0, 3}},  // 6 collinear vertices
      {{0, 0}, {2, 1}, {4, 1}, {6, 0}, {5, 3}, {4, 4}, {2, 4}, {1, 3}},      // 7 monotone with reflex vertices
      {{0, 0}, {5, 0}, {5, 5}, {1, 5}, {1, 2}, {3, 2}, {3, 3}, {2, 3}, {2, 4}, {4, 4}, {4, 1}, {0, 1}},  // 8 spiral
      {{0, 0}, {6, 0}, {6, 0}, {6, 6}, {0, 6}, {0, 6}},                      // 9 repeated vertices
      {{0, 0}, {4, 4}, {4, 0}, {0, 4}},                                      // 10 bow tie
      {{0, 0}, {5, 1}, {6, 6}, {3, 4}, {1, 7}},                              // 11 reflex pentagon
  };
  return s;
}
// All coordinates are in units of u.
std::array<BigInt, 3> Lift(const Frame& f, const BigInt& u, const BigInt& x, const BigInt& y) {
  std::array<BigInt, 3> r;
  for (int c = 0; c < 3; ++c) r[c] = u * BigInt(f.o[c]) + x * BigInt(f.u[c]) + y * BigInt(f.v[c]);
  return r;
}
// Polygons of n vertices anywhere in a plane.
Vector3 FrameNormal(const Frame& f) {
  int nm[3];
  for (int i = 0; i < 3; ++i) nm[i] = f.u[(i + 1) % 3] * f.v[(i + 2) % 3] - f.u[(i + 2) % 3] * f.v[(i + 1) % 3];
  return Vector3(nm[0], nm[1], nm[2]);
}
void Anywhere(int n, int frames, int symbolic, int kind, int variants) {
  int frame = Choose(frames, "frame");
  const Frame& f = Frames()[frame];
  int first = symbolic < n ? Choose(n, "first") : 0;
  // Quick: the type of the input and whether the plane is given vary along.
  int variant = variants == 4 ? Choose(4, "variant") : (frame + first) % 4, type = variant & 1, give = variant >> 1;
  Input v(n);
  BigInt u = V("u");
  AssumePos(u);
  static const P2 kFix[3] = {{0, 0}, {4, 1}, {1, 5}};
  for (int i = 0; i < n; ++i) {
    int j = (first + i) % n;
    BigInt x, y;
    if (i < symbolic) { x = V("x" + std::to_string(i)); y = V("y" + std::to_string(i)); }
    else { x = u * BigInt(kFix[i - symbolic].x); y = u * BigInt(kFix[i - symbolic].y); }
    v[j] = Lift(f, u, x, y);
  }
  Vector3 nm = FrameNormal(f);
  BigInt d = u * (nm.x() * BigInt(f.o[0]) + nm.y() * BigInt(f.o[1]) + nm.z() * BigInt(f.o[2]));
  HalfSpace3 plane(nm.x(), nm.y(), nm.z(), d);
  Run(v, type, kind, nm, give ? &plane : nullptr);
}
// A shape of which some consecutive vertices are moved anywhere in the plane.
void Moved(const std::vector<int>& shapes, int frames, int count, bool flips, int kind, bool all) {
  int shape = shapes[Choose(shapes.size(), "shape")];
  const Frame& f = Frames()[Choose(frames, "frame")];
  const auto& s = Plane()[shape];
  int n = s.size();
  // Quick: the moved vertex is one of the first three of the polygon, or of the last three in the other direction.
  int moved = Choose(n, "moved"), start, type, turn;
  if (all) { start = Choose(n, "start"); type = Choose(2, "type"); turn = flips ? Choose(4, "turn") : 0; }
  else { turn = flips ? Choose(2, "turn") * (1 + (moved + shape) % 3) : 0; start = (moved + 1 + 2 * shape) % n; type = (moved + shape) & 1; }
  BigInt u = V("u"), x[2], y[2];
  AssumePos(u);
  for (int i = 0; i < count; ++i) { x[i] = V("x" + std::to_string(i)); y[i] = V("y" + std::to_string(i)); }
  Input v;
  for (int i = 0; i < n; ++i) {
    int j = (turn & 1) ? (start + n - i) % n : (start + i) % n;
    BigInt a = u * BigInt(s[j].x), b = u * BigInt(s[j].y);
    int m = (j - moved + n) % n;
    if (m < count) { a = x[m]; b = y[m]; }
    if (turn & 2) std::swap(a, b);
    v.push_back(Lift(f, u, a, b));
  }
  Run(v, type, kind, FrameNormal(f));
}
// A vertex of a shape moved anywhere in space: the polygon is folded at it.
void Folded(const std::vector<int>& shapes, int frames, int count) {
  int shape = shapes[Choose(shapes.size(), "shape")];
  const Frame& f = Frames()[Choose(frames, "frame")];
  const auto& s = Plane()[shape];
  int n = s.size();
  int moved = Choose(n, "moved"), other = count > 1 ? (moved + 1 + Choose(n - 1, "other")) % n : -1, type = Thorough() ? Choose(2, "type") : moved & 1;
  Input v;
  BigInt u = V("u");
  AssumePos(u);
  for (int i = 0; i < n; ++i) v.push_back(Lift(f, u, u * BigInt(s[i].x), u * BigInt(s[i].y)));
  for (int c = 0; c < 3; ++c) v[moved][c] = V("p" + std::to_string(c));
  if (other >= 0) {  // moved across the plane
    BigInt h = V("h");
    for (int c = 0; c < 3; ++c) v[other][c] = v[other][c] + h * BigInt(c + 1);
  }
  Run(v, type, 2, FrameNormal(f));
}
// Large polygons whose cross products are at the limits of a word.
void Huge() {
  static const long kC[6][5][2] = {
      // reflex vertex with a cross product of -2^63, 2^63
      {{0, 0}, {1L << 32, 0}, {(1L << 32) + 1, 1L << 31}, {0, 1L << 33}, {-5, 1L << 20}},
      {{0, 0}, {-(1L << 32), 1}, {1L << 32, 1L << 33}, {1L << 31, 1L << 30}, {3L << 31, 0}},
      {{0, 0}, {1L << 32, 1L << 31}, {1L << 33, 0}, {1L << 33, 1L << 33}, {0, 1L << 33}},
      {{0, 0}, {1L << 31, 1L << 32}, {0, 1L << 33}, {-(1L << 33), 1L << 33}, {-(1L << 33), 0}},
      {{0, 0}, {1, -(1L << 33)}, {(1L << 33) + 1, -(1L << 33)}, {1L << 33, 0}, {1L << 32, -(1L << 30)}},
      {{0, 0}, {1, 1L << 33}, {(1L << 33) + 1, 1L << 33}, {1L << 33, 0}, {1L << 32, 1L << 30}},
  };
  int k = Choose(6, "shape"), start = Choose(5, "start"), rev = Choose(2, "reversed"), type = Choose(2, "type");
  const Frame& f = Frames()[Choose(6, "frame")];
  BigInt ox = V("ox"), oy = V("oy");
  Input v;
  for (int i = 0; i < 5; ++i) {
    int j = rev ? (start + 5 - i) % 5 : (start + i) % 5;
    v.push_back(Lift(f, BigInt(1), BigInt((long)kC[k][j][0]) + ox, BigInt((long)kC[k][j][1]) + oy));
  }
  Run(v, type, 0, FrameNormal(f));
}
}  // namespace

HARNESS(triangle, 0, "all triangles in 4 (thorough: 10) plane orientations") { Anywhere(3, Thorough() ? 10 : 4, 3, 0, 4); }
HARNESS(quad, 0, "simple quadrilaterals in 3 (thorough: 6) plane orientations with 2 vertices anywhere") { Anywhere(4, Thorough() ? 6 : 3, 2, 0, Thorough() ? 4 : 1); }
HARNESS(quad3, 1, "simple quadrilaterals in 2 plane orientations with 3 vertices anywhere") { Anywhere(4, 2, 3, 0, 1); }
HARNESS(pentagon, 0, "simple pentagons in 1 (thorough: 6) plane orientations with 2 vertices anywhere") { Anywhere(5, Thorough() ? 6 : 1, 2, 0, Thorough() ? 4 : 1); }
HARNESS(moved, 0, "11 shapes in 1 (thorough: 10) plane orientations and both directions with one vertex anywhere such that the polygon is simple, one start per vertex (thorough: any start)") { Moved({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, Thorough() ? 10 : 1, 1, true, 0, Thorough()); }
HARNESS(moved_frames, 0, "square, L, reflex shape in 10 plane orientations with one vertex anywhere such that the polygon is simple") { Moved({0, 2, 7}, 10, 1, false, 0, Thorough()); }
HARNESS(moved_two, 0, "square, (thorough: 6 shapes) with two neighbouring vertices anywhere such that the polygon is simple") { Moved(Thorough() ? std::vector<int>{0, 1, 2, 5, 7, 9} : std::vector<int>{0}, 1, 2, Thorough(), 0, Thorough()); }
HARNESS(crossing_quad, 0, "quadrilaterals in general position in 3 (thorough: 6) plane orientations with 2 vertices anywhere, also self-crossing") { Anywhere(4, Thorough() ? 6 : 3, 2, 1, Thorough() ? 4 : 1); }
HARNESS(crossing_pentagon, 1, "pentagons in general position in 6 plane orientations with 2 vertices anywhere, also self-crossing") { Anywhere(5, 6, 2, 1, 4); }
HARNESS(crossing_moved, 0, "3 shapes in general position in 2 (thorough: 10) plane orientations with one vertex anywhere, also self-crossing") { Moved({1, 3, 5}, Thorough() ? 10 : 2, 1, false, 1, Thorough()); }
HARNESS(folded, 0, "2 (thorough: 4) shapes in 2 (thorough: 10) orientations with one vertex anywhere in space") { Folded(Thorough() ? std::vector<int>{0, 1, 11, 3} : std::vector<int>{11, 3}, Thorough() ? 10 : 2, 1); }
HARNESS(folded_two, 1, "square, pentagon with one vertex anywhere in space and another moved across the plane") { Folded({0, 1}, 10, 2); }
HARNESS(huge, 0, "5-gons anywhere with cross products at the limits of a word") { Huge(); }
