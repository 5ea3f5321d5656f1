// Concrete convex polygon shapes in many orientations, and reference
// operations on convex polygons written from the definitions.
#ifndef VERIF_POLYS_H
#define VERIF_POLYS_H
#include <algorithm>
#include "geo.h"
#include "walnut/mutable_convex_polygon.h"

namespace geo {

struct P2 { int x, y; };
inline const std::vector<std::vector<P2>>& Shapes() {
  static const std::vector<std::vector<P2>> s = {
      {{0, 0}, {4, 1}, {1, 3}},                                            // 0 triangle
      {{-2, -1}, {3, -1}, {3, 2}, {-2, 2}},                                // 1 rectangle
      {{0, 0}, {4, 0}, {6, 3}, {3, 6}, {-1, 4}},                           // 2 pentagon
      {{0, 0}, {2, 0}, {4, 0}, {4, 4}, {0, 4}, {0, 1}},                    // 3 collinear vertices
      {{2, 0}, {4, 0}, {6, 2}, {6, 4}, {4, 6}, {2, 6}, {0, 4}, {0, 2}},    // 4 octagon
      {{0, 0}, {3, 0}, {6, 0}, {3, 3}, {0, 6}, {0, 3}},                    // 5 triangle with 3 midpoints
      {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {4, 1}, {4, 2}, {4, 3}, {4, 4}, {2, 5}, {0, 4}, {0, 2}},  // 6: 11 vertices
      {{3, 0}, {6, 0}, {8, 1}, {9, 3}, {9, 6}, {8, 8}, {6, 9}, {3, 9}, {1, 8}, {0, 6}, {0, 3}, {1, 1}},  // 7: 12-gon
  };
  return s;
}
struct Frame { int o[3], u[3], v[3]; };
inline const std::vector<Frame>& Frames() {
  static const std::vector<Frame> f = {
      {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}},    {{1, 2, -3}, {0, 1, 0}, {1, 0, 0}},
      {{2, 0, 1}, {0, 1, 0}, {0, 0, 1}},    {{-1, 0, 1}, {0, 0, 1}, {0, 1, 0}},
      {{0, 5, 0}, {0, 0, 1}, {1, 0, 0}},    {{0, 0, 7}, {1, 0, 0}, {0, 0, 1}},
      {{5, -7, 1}, {1, 0, 2}, {0, 1, -3}},  {{3, 1, -2}, {0, 1, -3}, {1, 0, 2}},
      {{-4, 1, 6}, {2, -1, 1}, {1, 1, 0}},  {{0, 0, -5}, {1, 1, 0}, {2, -1, 1}},
  };
  return f;
}

struct PolySpec {
  HalfSpace3 plane;
  int drop;
  std::vector<HomoPoint3> v;
};
// A concrete polygon; start rotates the vertex list, weird gives the vertices
// denominators of varying size and sign.
inline PolySpec MakeSpec(int shape, int frame, int start, bool weird, int drop_choice = 0) {
  static const int kW[] = {2, -1, 3, -2, 1, 5, -3};
  const auto& s = Shapes()[shape];
  const Frame& f = Frames()[frame];
  PolySpec r;
  int n[3];
  for (int i = 0; i < 3; ++i) n[i] = f.u[(i + 1) % 3] * f.v[(i + 2) % 3] - f.u[(i + 2) % 3] * f.v[(i + 1) % 3];
  int k = weird ? 3 : 1;
  int d = n[0] * f.o[0] + n[1] * f.o[1] + n[2] * f.o[2];
  r.plane = HalfSpace3(n[0] * k, n[1] * k, n[2] * k, d * k);
  std::vector<int> dims;
  for (int i = 0; i < 3; ++i) if (n[i]) dims.push_back(i);
  r.drop = dims[drop_choice % dims.size()];
  for (size_t i = 0; i < s.size(); ++i) {
    const P2& p = s[(i + start) % s.size()];
    int w = weird ? kW[i % 7] : 1;
    int c[3];
    for (int j = 0; j < 3; ++j) c[j] = (f.o[j] + p.x * f.u[j] + p.y * f.v[j]) * w;
    r.v.emplace_back(BigInt(c[0]), BigInt(c[1]), BigInt(c[2]), BigInt(w));
  }
  return r;
}
// A choice of shape, orientation, start vertex, denominators and drop dimension.
inline PolySpec PickSpec(const std::vector<int>& shapes, int frames, bool starts, bool weird = true, int* frame_out = nullptr) {
  int shape = shapes[Choose(shapes.size(), "shape")];
  int frame = Choose(frames, "frame");
  int start = starts ? Choose(Shapes()[shape].size(), "start") : 0;
  bool wd = weird ? Choose(2, "weird") : false;
  int drop = frame >= 6 ? Choose(3, "drop") : 0;
  if (frame_out) *frame_out = frame;
  return MakeSpec(shape, frame, start, wd, drop);
}
// The vertex list constructors start with the last vertex; this makes
// vertex(i) == v[i].
template <class T>
std::vector<T> RotateLeft(std::vector<T> v) {
  std::rotate(v.begin(), v.begin() + 1, v.end());
  return v;
}
template <class Poly = MutableConvexPolygon<>>
Poly MakePoly(const PolySpec& s) { return Poly(s.plane, s.drop, RotateLeft(s.v)); }


// Point where segment ab meets the plane (ends strictly on opposite sides).
inline HomoPoint3 CrossPoint(const HalfSpace3& h, const HomoPoint3& a, const HomoPoint3& b) {
  BigInt fa = DotR(h.normal(), a.vector_from_origin()) - h.d() * a.w();
  BigInt fb = DotR(h.normal(), b.vector_from_origin()) - h.d() * b.w();
  // fb * a - fa * b (as homogeneous vectors)
  BigInt x = fb * a.x() - fa * b.x(), y = fb * a.y() - fa * b.y(), z = fb * a.z() - fa * b.z();
  BigInt w = fb * a.w() - fa * b.w();
  return HomoPoint3(x, y, z, w);
}

// Cyclic sequences of points equal, given the offset of exp in got, or -1.
template <class P>
int CyclicMatch(const P& got, const std::vector<HomoPoint3>& exp) {
  size_t n = exp.size();
  if (got.vertex_count() != n) return -1;
  for (size_t o = 0; o < n; ++o) {
    bool ok = true;
    for (size_t i = 0; ok && i < n; ++i) ok = SameLoc(got.vertex((i + o) % n), exp[i]);
    if (ok) return (int)o;
  }
  return n == 0 ? 0 : -1;
}
// b - a, multiplied by a positive number
inline Vector3 DirR(const HomoPoint3& a, const HomoPoint3& b) {
  int s = Sg(a.w()) * Sg(b.w());
  BigInt x = (b.x() * a.w() - a.x() * b.w()) * BigInt(s);
  BigInt y = (b.y() * a.w() - a.y() * b.w()) * BigInt(s);
  BigInt z = (b.z() * a.w() - a.z() * b.w()) * BigInt(s);
  return Vector3(x, y, z);
}
inline bool OnLineR(const PluckerLine& l, const HomoPoint3& p) {
  // p x d == m w
  Vector3 c = CrossR(p.vector_from_origin(), l.d());
  return Sg(c.x() - l.m().x() * p.w()) == 0 && Sg(c.y() - l.m().y() * p.w()) == 0 && Sg(c.z() - l.m().z() * p.w()) == 0;
}
// Vertices on the plane, edges joining consecutive vertices, turning only
// left about the plane's normal.
template <class P>
void CheckValid(const P& p, const char* what) {
  size_t n = p.vertex_count();
  Check(n >= 3, what);
  const Vector3& nm = p.plane().normal();
  Check(!IsZeroR(nm), what);
  Check(p.drop_dimension() >= 0 && p.drop_dimension() < 3 && Sg(Comp(nm, p.drop_dimension())) != 0, what);
  std::vector<Vector3> dirs;
  for (size_t i = 0; i < n; ++i) {
    Check(Sg(p.vertex(i).w()) != 0, what);
    Check(SideR(p.plane(), p.vertex(i)) == 0, what);
    Vector3 d = DirR(p.vertex(i), p.vertex((i + 1) % n));
    Check(!IsZeroR(d), what);
    Check(SameDirR(d, p.edge(i).line().d()), what);
    Check(OnLineR(p.edge(i).line(), p.vertex(i)), what);
    dirs.push_back(d);
  }
  for (size_t i = 0; i < n; ++i) {
    Vector3 c = CrossR(dirs[(i + n - 1) % n], dirs[i]);
    if (IsZeroR(c)) Check(Sg(DotR(dirs[(i + n - 1) % n], dirs[i])) > 0, what);
    else Check(Sg(DotR(c, nm)) > 0, what);
  }
}
// Does the polygon equal this one exactly as built (vertices, plane)?
template <class P>
bool SameAsSpec(const P& p, const PolySpec& s) {
  if (p.vertex_count() != s.v.size() || !SamePlaneR(p.plane(), s.plane)) return false;
  for (size_t i = 0; i < s.v.size(); ++i) if (!SameLoc(p.vertex(i), s.v[i])) return false;
  return true;
}
}  // namespace geo
#endif
