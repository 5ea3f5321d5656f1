#include "solids.h"
#include "walnut/mesh.h"
#include "walnut/aabb_convex_polygon.h"
using namespace geo;

namespace {
// The functions only look at the vertices; symbolic polygons that need not be
// planar keep the checks of the constructors of real polygons out of the way.
struct Poly {
  std::vector<HomoPoint3> v;
  size_t vertex_count() const { return v.size(); }
  const HomoPoint3& vertex(size_t i) const { return v[i]; }
};
// A closed mesh of concrete vertices, with its centroid (c / cd) and volume
// sign known from a decomposition into boxes, prisms and tetrahedra.
struct Shape {
  std::vector<std::array<int, 3>> v;
  std::vector<std::vector<int>> f;
  int c[3], cd;
};
void AddBox(Shape& s, int x0, int y0, int z0, int x1, int y1, int z1, bool inward = false) {
  int b = s.v.size();
  for (int i = 0; i < 8; ++i) s.v.push_back({(i & 1) ? x1 : x0, (i & 2) ? y1 : y0, (i & 4) ? z1 : z0});
  std::vector<std::vector<int>> f = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
  for (auto& q : f) {
    if (inward) std::reverse(q.begin(), q.end());
    for (int& i : q) i += b;
    s.f.push_back(q);
  }
}
Shape MakeShape(int k) {
  Shape s;
  auto cen = [&](int x, int y, int z, int d) { s.c[0] = x; s.c[1] = y; s.c[2] = z; s.cd = d; };
  switch (k) {
    case 0:  // tetrahedron
      s.v = {{0, 0, 0}, {3, 1, 0}, {1, 4, 1}, {2, 1, 5}};
      s.f = {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}};
      cen(6, 6, 6, 4);
      break;
    case 1:  // box
      AddBox(s, 1, 0, -2, 3, 5, 2);
      cen(4, 5, 0, 2);
      break;
    case 2:  // L shaped prism: [0,4]x[0,1] and [0,1]x[1,3], z in [0,2], with nonconvex caps in two pieces
      s.v = {{0, 0, 0}, {4, 0, 0}, {4, 1, 0}, {1, 1, 0}, {1, 3, 0}, {0, 3, 0}, {0, 0, 2}, {4, 0, 2}, {4, 1, 2}, {1, 1, 2}, {1, 3, 2}, {0, 3, 2}};
      s.f = {{0, 3, 2, 1}, {0, 5, 4, 3}, {6, 7, 8, 9}, {6, 9, 10, 11}, {0, 1, 7, 6}, {1, 2, 8, 7}, {2, 3, 9, 8}, {3, 4, 10, 9}, {4, 5, 11, 10}, {5, 0, 6, 11}};
      // areas 4 and 2 with centres (2, 1/2) and (1/2, 2)
      cen(9, 6, 6, 6);
      break;
    case 3:  // two boxes in one mesh, volumes 8 and 1
      AddBox(s, 0, 0, 0, 2, 2, 2);
      AddBox(s, 5, 3, -4, 6, 4, -3);
      cen(2 * 8 + 11, 2 * 8 + 7, 2 * 8 - 7, 18);
      break;
    case 4:  // box with a cavity: volumes 27 and 1
      AddBox(s, 0, 0, 0, 3, 3, 3);
      AddBox(s, 1, 1, 1, 2, 2, 2, true);
      cen(3, 3, 3, 2);
      break;
    case 5:  // pentagonal prism, one cap with a fan of collinear vertices
      // cross section {0,0},{2,0},{4,0},{4,2},{0,2}: a rectangle with an extra vertex
      s.v = {{0, 0, 0}, {2, 0, 0}, {4, 0, 0}, {4, 2, 0}, {0, 2, 0}, {0, 0, 3}, {2, 0, 3}, {4, 0, 3}, {4, 2, 3}, {0, 2, 3}};
      s.f = {{0, 4, 3, 2, 1}, {5, 6, 7, 8, 9}, {0, 1, 6, 5}, {1, 2, 7, 6}, {2, 3, 8, 7}, {3, 4, 9, 8}, {4, 0, 5, 9}};
      cen(4, 2, 3, 2);
      break;
    default:  // square pyramid: centroid at a quarter of the height
      s.v = {{0, 0, 0}, {4, 0, 0}, {4, 4, 0}, {0, 4, 0}, {1, 3, 4}};
      s.f = {{0, 3, 2, 1}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}};
      // base centre (2,2,0) 3/4, apex 1/4
      cen(7, 9, 4, 4);
      break;
  }
  return s;
}
const int kShapes = 7;
const int kW[6][5] = {{1, 1, 1, 1, 1}, {2, 2, 2, 2, 2}, {-1, 2, 3, 1, -2}, {6, 4, -10, 15, 9}, {-3, -3, -3, -3, -3}, {5, 1, 1, 7, -7}};

Poly Face(const std::vector<HomoPoint3>& v) { return Poly{v}; }
// p as a vertex with denominator w
HomoPoint3 At(const BigInt (&p)[3], int w) {
  BigInt x = p[0] * BigInt(w), y = p[1] * BigInt(w), z = p[2] * BigInt(w);
  return HomoPoint3(x, y, z, BigInt(w));
}
void CheckCentroid(const HomoPoint3& got, const BigInt (&c)[3], const BigInt& cd, const char* what) {
  Check(Sg(got.w()) != 0, "the centroid of a solid with a volume exists");
  for (int i = 0; i < 3; ++i) Check(Sg(Comp(got.vector_from_origin(), i) * cd - c[i] * got.w()) == 0, what);
}
// All tetrahedra.
void Tetra() {
  BigInt p[4][3], sum[3];
  for (int c = 0; c < 3; ++c) sum[c] = BigInt(0);
  for (int i = 0; i < 4; ++i)
    for (int c = 0; c < 3; ++c) { p[i][c] = V("p" + std::to_string(i) + std::to_string(c)); sum[c] = sum[c] + p[i][c]; }
  Vector3 e[3];
  for (int i = 0; i < 3; ++i) {
    BigInt x = p[i + 1][0] - p[0][0], y = p[i + 1][1] - p[0][1], z = p[i + 1][2] - p[0][2];
    e[i] = Vector3(x, y, z);
  }
  bool degenerate = Choose(2, "degenerate");
  BigInt det = DotR(e[0], CrossR(e[1], e[2]));
  static const int f[4][3] = {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}};
  int ws = Choose(6, "w"), same = Choose(2, "shared"), start = Choose(3, "start"), rev = Choose(2, "reversed");
  std::vector<Poly> m;
  for (int k = 0; k < 4; ++k) {
    std::vector<HomoPoint3> v;
    for (int j = 0; j < 3; ++j) {
      int i = f[k][(j + start * (k + 1)) % 3];
      v.push_back(At(p[i], kW[ws][same ? i : (i + 2 * k) % 5]));
    }
    if (rev) std::reverse(v.begin(), v.end());
    m.push_back(Face(v));
  }
  if (degenerate) {
    if (Sg(det) == 0) { Check(Sg(GetCentroid(m).w()) == 0, "no volume, no centroid"); Reach("flat"); }
    return;
  }
  AssumeNonZero(det);
  CheckCentroid(GetCentroid(m), sum, BigInt(4), "centroid of a tetrahedron");
  Reach("end");
}
// All affine images of other solids.
void Affine(int shapes, bool starts) {
  Shape s = MakeShape(Choose(shapes, "shape"));
  int ws = Choose(6, "w"), same = Choose(2, "shared"), st = starts ? Choose(3, "start") : 0, rev = Choose(2, "reversed"), extra = Choose(2, "empty");
  BigInt a[3][3], t[3];
  for (int i = 0; i < 3; ++i) {
    t[i] = V("t" + std::to_string(i));
    for (int j = 0; j < 3; ++j) a[i][j] = V("a" + std::to_string(i) + std::to_string(j));
  }
  Vector3 r[3];
  for (int i = 0; i < 3; ++i) r[i] = Vector3(a[i][0], a[i][1], a[i][2]);
  AssumeNonZero(DotR(r[0], CrossR(r[1], r[2])));
  std::vector<Poly> m;
  if (extra) m.emplace_back();  // polygons without vertices are skipped
  for (size_t k = 0; k < s.f.size(); ++k) {
    std::vector<HomoPoint3> v;
    int n = s.f[k].size();
    for (int j = 0; j < n; ++j) {
      int i = s.f[k][(j + st * (k + 1)) % n];
      BigInt p[3];
      for (int c = 0; c < 3; ++c) p[c] = a[c][0] * BigInt(s.v[i][0]) + a[c][1] * BigInt(s.v[i][1]) + a[c][2] * BigInt(s.v[i][2]) + t[c];
      v.push_back(At(p, kW[ws][same ? i % 5 : (i + 3 * k) % 5]));
    }
    if (rev) std::reverse(v.begin(), v.end());
    m.push_back(Face(v));
    if (extra && k == 2) m.emplace_back();
  }
  BigInt c[3];
  for (int i = 0; i < 3; ++i) c[i] = a[i][0] * BigInt(s.c[0]) + a[i][1] * BigInt(s.c[1]) + a[i][2] * BigInt(s.c[2]) + t[i] * BigInt(s.cd);
  CheckCentroid(GetCentroid(m), c, BigInt(s.cd), "centroid of an affine image");
  Reach("end");
}
// Two independent tetrahedra in one mesh; the second may be a cavity.
void Two() {
  BigInt u = V("u"), x = V("x"), y = V("y"), z = V("z"), h = V("h");
  AssumePos(u); AssumePos(h);
  int ws = Choose(6, "w"), cav = Choose(2, "cavity"), ord = Choose(2, "order");
  static const int f[4][3] = {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}};
  // a: corner tetrahedron of size u at 0; b: of size h at (x, y, z)
  std::vector<Poly> m;
  for (int w = 0; w < 2; ++w) {
    bool second = (w == 1) != (ord == 1);
    for (int k = 0; k < 4; ++k) {
      std::vector<HomoPoint3> v;
      for (int j = 0; j < 3; ++j) {
        int i = f[k][j];
        BigInt zero(0), p[3];
        for (int c = 0; c < 3; ++c) {
          const BigInt& o = !second ? zero : c == 0 ? x : c == 1 ? y : z;
          p[c] = o + (i == c + 1 ? (second ? h : u) : zero);
        }
        v.push_back(At(p, kW[ws][(i + k) % 5]));
      }
      if (second && cav) std::reverse(v.begin(), v.end());
      m.push_back(Face(v));
    }
  }
  // 24 * volume * centroid: u^3 * u and h^3 * (4 o + h)
  BigInt va = u * u * u, vb = h * h * h;
  if (cav) vb = BigInt(0) - vb;
  BigInt vol = va + vb;
  BigInt c[3] = {va * u + vb * (BigInt(4) * x + h), va * u + vb * (BigInt(4) * y + h), va * u + vb * (BigInt(4) * z + h)};
  if (cav && Sg(vol) == 0) { Check(Sg(GetCentroid(m).w()) == 0, "no volume, no centroid"); Reach("cancel"); return; }
  CheckCentroid(GetCentroid(m), c, BigInt(4) * vol, "centroid of two solids");
  Reach("end");
}

// Meshes of n points: triangles over all of them, or one polygon.
std::vector<Poly> Points(const std::vector<HomoPoint3>& p) {
  int n = p.size(), kind = Choose(3, "mesh");
  std::vector<Poly> m;
  if (kind == 0) {
    m.push_back(Face(p));
  } else if (kind == 1) {
    for (int i = 0; i < n; ++i) {
      if (i == 1) m.emplace_back();
      m.push_back(Face({p[i], p[(i + 1) % n], p[(i + 2) % n]}));
    }
  } else {
    for (int i = 0; i + 2 < n; ++i) m.push_back(Face({p[i + 2], p[i], p[i + 1]}));
  }
  return m;
}
std::vector<HomoPoint3> SymPoints(int n, bool symw, bool flat) {
  std::vector<HomoPoint3> p;
  static const int kC[6] = {2, -1, 1, -3, 5, 1};
  int first = Choose(2, "w");
  for (int i = 0; i < n; ++i) {
    std::string s = "p" + std::to_string(i);
    BigInt x = V(s + "x"), y = V(s + "y"), z = V(s + "z"), w(kC[(i + first) % 6]);
    if (symw && (i + first) % 2) w = NZ(s + "w");
    if (flat) { x = y; }
    p.emplace_back(x, y, z, w);
  }
  return p;
}
void Top(int n, bool symw) {
  std::vector<HomoPoint3> p = SymPoints(n, symw, false);
  // distinct points, so that the edges exist
  std::vector<Poly> m = Points(p);
  HomoPoint3 top = GetTopPoint(m);
  bool is = false;
  for (const HomoPoint3& q : p) {
    is = is || (Sg(q.x() - top.x()) == 0 && Sg(q.y() - top.y()) == 0 && Sg(q.z() - top.z()) == 0 && Sg(q.w() - top.w()) == 0);
    int c = CompR(q, top, 2);
    if (c == 0) c = CompR(q, top, 1);
    if (c == 0) c = CompR(q, top, 0);
    Check(c <= 0, "no vertex is above the top point");
  }
  Check(is, "the top point is a vertex");
  Reach("end");
}
const int kP[7][4] = {{3, 1, 2, 1}, {-4, 2, 1, -2}, {0, 5, -1, 3}, {2, 2, 2, 1}, {-1, -3, 0, -1}, {7, -2, -9, 2}, {-6, -2, -4, -2}};
void CheckFar(const std::vector<HomoPoint3>& p, const std::vector<Poly>& m, const Vector3& v) {
  HomoPoint3 far = GetFarthest(m, v);
  bool is = false;
  for (const HomoPoint3& q : p) {
    is = is || (Sg(q.x() - far.x()) == 0 && Sg(q.y() - far.y()) == 0 && Sg(q.z() - far.z()) == 0 && Sg(q.w() - far.w()) == 0);
    BigInt a = DotR(q.vector_from_origin(), v), b = DotR(far.vector_from_origin(), v);
    Check(Sg(a * far.w() - b * q.w()) * Sg(q.w()) * Sg(far.w()) <= 0, "no vertex is farther than the farthest one");
  }
  Check(is, "the farthest point is a vertex");
  Reach("end");
}
void FarDir(int n) {
  int o = Choose(7, "first");
  std::vector<HomoPoint3> p;
  for (int i = 0; i < n; ++i) { const int* k = kP[(i + o) % 7]; p.emplace_back(k[0], k[1], k[2], k[3]); }
  Vector3 v = SVec3("v");
  CheckFar(p, Points(p), v);
}
void FarPts(int n, bool symw) {
  static const int kD[4][3] = {{0, 0, 1}, {-1, 0, 0}, {1, -2, 3}, {0, 0, 0}};
  int d = Choose(4, "direction");
  std::vector<HomoPoint3> p = SymPoints(n, symw, false);
  CheckFar(p, Points(p), Vector3(kD[d][0], kD[d][1], kD[d][2]));
}
void Empty() {
  std::vector<Poly> m;
  if (Choose(2, "one")) m.emplace_back();
  Vector3 v = SVec3("v");
  Check(Sg(GetTopPoint(m).w()) == 0 && Sg(GetFarthest(m, v).w()) == 0 && Sg(GetCentroid(m).w()) == 0, "an empty mesh has no such points");
  std::vector<AABBConvexPolygon<>> b;
  if (!m.empty()) b.emplace_back();
  Check(Sg(GetTopPoint(b).w()) == 0 && Sg(GetFarthest(b, v).w()) == 0 && Sg(GetCentroid(b).w()) == 0, "an empty mesh has no such points");
  Reach("end");
}
// Real polygons: solids of any size anywhere.
template <class P>
void Real() {
  static const int kC[7][4] = {{1, 1, 1, 1}, {8, 6, 7, 4}, {0, 0, 0, 1}, {8, 8, 3, 4}, {16, 24, 8, 12}, {3, 3, 3, 1}, {4, 3, 2, 2}};
  int k = Choose(7, "solid"), start = Choose(3, "start"), ask = Choose(3, "ask");
  Solid s = MakeSolid(k);
  s.scale = V("u"); AssumePos(s.scale);
  for (int i = 0; i < 3; ++i) s.off[i] = V("o" + std::to_string(i));
  s.Finish();
  std::vector<P> m = s.Mesh<P>();
  for (P& p : m) if (start) p.RotateEdges(start % p.vertex_count());
  if (ask == 0) {
    BigInt c[3];
    for (int i = 0; i < 3; ++i) c[i] = s.scale * BigInt(kC[k][i]) + s.off[i] * BigInt(kC[k][3]);
    CheckCentroid(GetCentroid(m), c, BigInt(kC[k][3]), "centroid of a solid");
  } else if (ask == 1) {
    HomoPoint3 top = GetTopPoint(m);
    for (size_t i = 0; i < s.v.size(); ++i) {
      HomoPoint3 q = s.Vertex(i);
      int c = CompR(q, top, 2);
      if (c == 0) c = CompR(q, top, 1);
      if (c == 0) c = CompR(q, top, 0);
      Check(c <= 0, "no vertex is above the top point");
    }
  } else {
    Vector3 v = SVec3("v");
    HomoPoint3 far = GetFarthest(m, v);
    for (size_t i = 0; i < s.v.size(); ++i) Check(Sg(DotR(DirR(far, s.Vertex(i)), v)) <= 0, "no vertex is farther than the farthest one");
  }
  Reach("end");
}
}  // namespace

HARNESS(real, 0, "7 solids of any size anywhere as meshes of real polygons; centroid, top point, farthest point in any direction") { Real<AABBConvexPolygon<>>(); }
HARNESS(tetra, 0, "all tetrahedra of either orientation, 6 sets of denominators, shared or not by the faces") { Tetra(); }
HARNESS(affine, 0, "all affine images of a box, pyramid, L-shaped prism, prism with collinear vertices, box with a cavity, two boxes; 6 sets of denominators") { Affine(kShapes, true); }
HARNESS(two, 0, "two corner tetrahedra of any sizes and places, one may be a cavity") { Two(); }
HARNESS(top, 0, "any 3 (thorough: 5) points") { Top(Thorough() ? 5 : 3, false); }
HARNESS(top_denominators, 0, "any 3 (thorough: 4) points, half of the denominators symbolic") { Top(Thorough() ? 4 : 3, true); }
HARNESS(far_direction, 0, "5 (thorough: 7) points, any direction") { FarDir(Thorough() ? 7 : 5); }
HARNESS(far_points, 0, "any 3 (thorough: 4) points with symbolic denominators, 4 directions") { FarPts(Thorough() ? 4 : 3, true); }
HARNESS(empty, 0, "empty meshes") { Empty(); }
