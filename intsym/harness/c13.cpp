#include "polys.h"
using namespace geo;

namespace {
typedef MutableConvexPolygon<> Poly;
// n points on a parabola, counter-clockwise
PolySpec Parabola(int n, int frame, int start, bool weird) {
  static const int kW[] = {2, -1, 3, -2, 1};
  PolySpec s = MakeSpec(0, frame, 0, false);
  const Frame& f = Frames()[frame];
  s.v.clear();
  for (int k = 0; k < n; ++k) {
    int i = (k + start) % n, x = i, y = i * i, w = weird ? kW[k % 5] : 1, c[3];
    for (int j = 0; j < 3; ++j) c[j] = (f.o[j] + x * f.u[j] + y * f.v[j]) * w;
    s.v.emplace_back(BigInt(c[0]), BigInt(c[1]), BigInt(c[2]), BigInt(w));
  }
  return s;
}
int Side2(const HalfSpace2& h, const HomoPoint3& p, int drop) {
  Vector2 v = p.vector_from_origin().DropDimension(drop);
  return Sg(h.x() * v.x() + h.y() * v.y() - h.d() * p.w()) * Sg(p.w());
}
// sign of v.(a-b)
int Farther(const Vector2& v, const HomoPoint3& a, const HomoPoint3& b, int drop) {
  Vector2 d = DirR(b, a).DropDimension(drop);
  return Sg(v.x() * d.x() + v.y() * d.y());
}
void CheckRanges(const ConvexPolygonSplitRanges& r, const std::vector<int>& s, const char* what) {
  size_t n = s.size();
  std::vector<int> got(n, 0);
  bool twice = false;
  for (size_t i = r.neg_range.first; i < r.neg_range.second && i < 4 * n; ++i) { twice |= got[i % n] != 0; got[i % n] = -1; }
  for (size_t i = r.pos_range.first; i < r.pos_range.second && i < 4 * n; ++i) { twice |= got[i % n] != 0; got[i % n] = 1; }
  Check(!twice && got == s, what);
  Check(r.IsValid(n), what);
}
void CheckAll(const PolySpec& spec) {
  Poly p = MakePoly(spec);
  int n = spec.v.size(), drop = spec.drop;
  BigInt a = V("a"), b = V("b"), d = V("d");
  HalfSpace2 h(a, b, d);
  Vector2 nv(a, b);
  AssumeValid(nv);
  std::vector<int> s;
  for (auto& v : spec.v) s.push_back(Side2(h, v, drop));
  CheckRanges(p.FindSplitRangesLinear(h, drop), s, "linear search ranges");
  CheckRanges(p.FindSplitRangesBisect(h, drop), s, "bisecting search ranges");
  auto opp = p.GetOppositeEdgeIndicesBisect(nv, drop);
  auto edge_sign = [&](size_t i) { return Farther(nv, spec.v[(i + 1) % n], spec.v[i % n], drop); };
  Check(opp.first < (size_t)n && edge_sign(opp.first) > 0, "edge in the direction");
  Check(opp.second < (size_t)n && edge_sign(opp.second) < 0, "edge against the direction");
  size_t e = p.GetExtremeIndexBisect(nv, drop);
  Check(e < (size_t)n, "extreme index in range");
  bool max = true;
  for (int i = 0; i < n; ++i) max = max && Farther(nv, spec.v[i], spec.v[e], drop) <= 0;
  Check(max, "extreme vertex is farthest");
  Check(Farther(nv, spec.v[(e + n - 1) % n], spec.v[e], drop) < 0, "first of the tied vertices");
  bool any_pos = false, any_neg = false, any_zero = false;
  for (int x : s) { any_pos |= x > 0; any_neg |= x < 0; any_zero |= x == 0; }
  auto pv = p.GetPosSideVertex(h, drop, opp.first, opp.second);
  Check(Sg(pv.first) == (any_pos ? 1 : any_zero ? 0 : -1), "positive side vertex kind");
  pv.second %= n;
  Check(s[pv.second] == Sg(pv.first), "positive side vertex is where it says");
  if (Sg(pv.first) <= 0) Check(pv.second == e, "closest vertex to the positive side");
  auto ngv = p.GetNegSideVertex(h, drop, opp.first, opp.second);
  Check(Sg(ngv.first) == (any_neg ? -1 : any_zero ? 0 : 1), "negative side vertex kind");
  ngv.second %= n;
  Check(s[ngv.second] == Sg(ngv.first), "negative side vertex is where it says");
  if (any_neg && any_pos) {
    auto ln = p.GetLastNegSideVertex(h, drop, ngv.second, -1, pv.second);
    Check(s[ln.second] == Sg(ln.first) && s[ln.second] <= 0 && s[(ln.second + 1) % n] > 0, "last vertex not above");
    auto lp = p.GetLastPosSideVertex(h, drop, ngv.second, pv.second, 1);
    Check(s[lp.second] == Sg(lp.first) && s[lp.second] >= 0 && s[(lp.second + 1) % n] < 0, "last vertex not below");
  }
  Reach("end");
}
void Extreme3(const PolySpec& spec) {
  Poly p = MakePoly(spec);
  int n = spec.v.size();
  Vector3 v = SVec3("v");
  size_t e = p.GetExtremeIndexBisect(v);
  if (IsZeroR(CrossR(v, spec.plane.normal()))) Check(e == size_t(-1), "no extreme vertex along the normal");
  else {
    Check(e < (size_t)n, "extreme index in range");
    bool max = true;
    for (int i = 0; i < n; ++i) max = max && Sg(DotR(v, DirR(spec.v[e], spec.v[i]))) <= 0;
    Check(max, "extreme vertex is farthest in 3D");
    Check(Sg(DotR(v, DirR(spec.v[e], spec.v[(e + n - 1) % n]))) < 0, "first of the tied vertices in 3D");
  }
  Reach("end");
}
void Shape(const std::vector<int>& l, int frames) { CheckAll(PickSpec(l, frames, true)); }
void Para(std::initializer_list<int> l, int frames) {
  std::vector<int> ns(l);
  int n = ns[Choose(ns.size(), "n")], frame = Choose(frames, "frame"), start = Choose(n, "start"), weird = Choose(2, "weird");
  CheckAll(Parabola(n, frame, start, weird));
}
}  // namespace
HARNESS(small_shapes, 0, "all half-planes; triangle, rectangle, pentagon, 2 hexagons with collinear vertices; 2 orientations; all starts") { Shape({0, 1, 2, 3, 5}, 2); }
HARNESS(big_shapes, 0, "all half-planes; polygon with 11 vertices (collinear ones included); 2 orientations, all starts") { Shape({6}, 2); }
HARNESS(parabola, 0, "all half-planes; convex polygons with 4, 9, 10 and 11 vertices, all starts") { Para({4, 9, 10, 11}, 1); }
HARNESS(extreme3, 0, "all directions; triangle, rectangle, hexagon in 10 orientations") {
  Extreme3(PickSpec({0, 1, 3}, 10, true));
}
HARNESS(all_shapes, 1, "all half-planes; 8 shapes with up to 12 vertices; 10 orientations; all starts") { Shape({0, 1, 2, 3, 4, 5, 6, 7}, 10); }
HARNESS(parabola_all, 1, "all half-planes; convex polygons with 3 to 17 vertices, 2 orientations, all starts") { Para({3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}, 2); }
