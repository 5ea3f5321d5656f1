#include "links.h"
using namespace geo;

namespace {
void Boxes(int op, int free) {
  BigInt u = V("u"), x = V("x"), y = V("y"), z = free > 2 ? V("z") : u;
  AssumePos(u);
  int w = 2 + 2 * Choose(2, "w");
  size_t bound = Choose(2, "kd") ? 0 : 6;
  SBoxSolid a = MakeBox(BigInt(0), BigInt(0), BigInt(0), u * BigInt(4), u * BigInt(4), u * BigInt(4));
  SBoxSolid b = MakeBox(x, y, z, x + u * BigInt(w), y + u * BigInt(4), z + u * BigInt(2));
  Tree tree;
  BSPContentId ia = tree.AllocateId(), ib = tree.AllocateId();
  tree.AddContents(ia, BoxMesh(a));
  tree.AddContents(ib, BoxMesh(b, op == 2));
  std::vector<CPoly> out = ConnectedOp(tree, ia, ib, op, bound);
  CheckLinks(out, true);
  Grid g;
  g.Add(a); g.Add(b);
  CheckBoxes(g, a, b, out, op);
  Reach("end");
}
void Convex(int op, int kinds, int dirs) {
  AssumeScaled();
  BigInt u = V("u") * BigInt(kUnit), t = V("t") * BigInt(kUnit);
  AssumePos(u);
  static const int kDir[4][3] = {{1, 0, 0}, {1, 1, 1}, {0, 1, -1}, {1, -2, 1}};
  int ka = Choose(kinds, "a"), kb = Choose(kinds, "b"), d = Choose(dirs, "dir");
  Solid a = MakeSolid(ka), b = MakeSolid(kb);
  a.scale = b.scale = u;
  for (int i = 0; i < 3; ++i) b.off[i] = t * BigInt(kDir[d][i]);
  a.Finish(); b.Finish();
  Tree tree;
  BSPContentId ia = tree.AllocateId(), ib = tree.AllocateId();
  tree.AddContents(ia, a.Mesh());
  tree.AddContents(ib, b.Mesh(op == 2));
  std::vector<CPoly> out = ConnectedOp(tree, ia, ib, op, 6);
  CheckLinks(out, true);
  CheckCombination(a, b, out, op);
  Reach("end");
}

// ---- Faces around one line ----
using LP = ConnectedPolygon<>;
using LEdge = LP::EdgeRep;
struct Basis { int a[3], p[3], q[3]; };  // line direction, two others
const Basis kBasis[4] = {
    {{0, 0, 1}, {1, 0, 0}, {0, 1, 0}},
    {{1, -1, 0}, {1, 1, 0}, {0, 0, 1}},
    {{-1, 2, 2}, {2, -1, 2}, {2, 2, -1}},
    {{0, 1, 0}, {0, 0, 2}, {1, 1, 0}},
};
const int kCompass[8][2] = {{1, 0}, {-1, 0}, {0, -1}, {1, 1}, {-1, 1}, {0, 1}, {-1, -1}, {2, -1}};
HomoPoint3 At(const Basis& b, const BigInt& z, int x, int y, const BigInt& u, int w) {
  BigInt c[3];
  for (int i = 0; i < 3; ++i) c[i] = (z * BigInt(b.a[i]) + u * BigInt(b.p[i] * x + b.q[i] * y)) * BigInt(w);
  return HomoPoint3(c[0], c[1], c[2], BigInt(w));
}
// A triangle with the edge from z0 to z1 (z0 < z1; the other way if !pos) on
// the line through (x0, y0), extending in direction dir.
LP Face(const Basis& b, const BigInt& z0, const BigInt& z1, int dir, bool pos, const BigInt& u, int w) {
  HomoPoint3 lo = At(b, z0, 0, 0, u, w), hi = At(b, z1, 0, 0, u, 1), far = At(b, z0, kCompass[dir][0], kCompass[dir][1], u, 2);
  std::vector<HomoPoint3> v{pos ? lo : hi, pos ? hi : lo, far};
  HalfSpace3 plane(v[0], v[1], v[2]);
  int drop = plane.normal().GetFirstNonzeroDimension();
  return LP(plane, drop, RotateLeft(v));
}
struct Span { BigInt lo, hi; int dir; bool pos; };
// Direction order by angle, from the compass table (counter clockwise).
int Angle(int dir) { static const int k[8] = {0, 4, 6, 1, 3, 2, 5, 7}; return k[dir]; }
void Around(int count, int dirs, int bases, bool all) {
  BigInt u = V("u"), t = V("t"), w = V("w");
  AssumePos(u); AssumePos(w);
  static const char* kD[4] = {"dir0", "dir1", "dir2", "dir3"};
  static const char* kP[4] = {"pos0", "pos1", "pos2", "pos3"};
  int bs = Choose(bases, "basis");
  const Basis& b = kBasis[bs];
  int weird = Choose(all ? 3 : 2, "weird"), order = Choose(all ? 2 : 1, "order");
  std::vector<Span> sp;
  std::vector<LP> polys;
  polys.reserve(count);
  for (int i = 0; i < count; ++i) {
    Span s;
    s.dir = i == 0 ? 0 : Choose(dirs, kD[i]);
    for (const Span& o : sp) if (o.dir == s.dir) return;  // one face for each direction
    s.pos = Choose(2, kP[i]);
    if (i < 2) { s.lo = BigInt(0); s.hi = u * BigInt(i == 1 && count > 2 ? 4 : 4); }
    else if (i == 2) { s.lo = t; s.hi = t + w; }
    else { s.lo = t; s.hi = u * BigInt(8); Assume(Sg(s.hi - t) > 0); }
    sp.push_back(s);
    polys.push_back(Face(b, s.lo, s.hi, s.dir, s.pos, u, weird == 0 ? 1 : weird == 1 ? -1 : i % 2 ? -2 : 3));
  }
  std::vector<Deed<LEdge>> edges;
  for (size_t i = 0; i < polys.size(); ++i) {
    size_t k = order ? polys.size() - 1 - i : i;
    size_t n = 0;
    for (size_t e = 0; e < 3; ++e) {
      // the edge on the line
      bool on = SameLoc(polys[k].vertex(e), At(b, sp[k].pos ? sp[k].lo : sp[k].hi, 0, 0, u, 1));
      if (on) n = e;
    }
    edges.emplace_back(&polys[k].edge(n));
  }
  bool error = false;
  EdgeLineConnector<> connector;
  // A coordinate plane's normal that is at right angles to the line, if there
  // is one, or else a plane through it.
  int drop = -1;
  for (int i = 0; i < 3 && drop < 0; ++i) if (b.a[(i + 1) % 3] != 0 || b.a[(i + 2) % 3] != 0) drop = i;
  PrintOnly();
  connector.ConnectUnsorted(edges.begin(), edges.end(), drop, [&](const std::string& m) { error = true; if (getenv("VERBOSE")) fprintf(stderr, "%s\n", m.c_str()); });
  // Reference: the faces that are present on each part of the line.
  std::vector<BigInt> z;
  for (const Span& s : sp) for (const BigInt* v : {&s.lo, &s.hi}) {
    size_t k = 0;
    bool dup = false;
    for (; k < z.size(); ++k) { int c = Sg(*v - z[k]); if (c == 0) dup = true; if (c <= 0) break; }
    if (!dup) z.insert(z.begin() + k, *v);
  }
  // A basis may turn the other way around the line.
  // Faces that alternate are the boundary of solids beside each other.  If only
  // the numbers of both orientations agree, solids overlap: nothing is claimed.
  bool closed = true, balanced = true;
  for (size_t k = 0; k + 1 < z.size(); ++k) {
    std::vector<std::pair<int, bool>> act;
    for (const Span& s : sp) if (Sg(s.lo - z[k]) <= 0 && Sg(s.hi - z[k + 1]) >= 0) act.emplace_back(Angle(s.dir), s.pos);
    std::sort(act.begin(), act.end());
    for (size_t i = 0; i < act.size(); ++i) closed &= act[i].second != act[(i + 1) % act.size()].second;
    int sum = 0;
    for (auto& x : act) sum += x.second ? 1 : -1;
    balanced &= sum == 0;
  }
  if (closed) Check(!error, "faces that close are connected without an error");
  if (!balanced) Check(error, "faces around the line that do not close are reported");
  CheckLinks(polys, closed, !closed, [&](const EdgeAt<LP>& e) {
    Vector3 ax(BigInt(b.a[0]), BigInt(b.a[1]), BigInt(b.a[2]));
    return IsZeroR(CrossR(ax, e.a().vector_from_origin())) && IsZeroR(CrossR(ax, e.b().vector_from_origin()));
  });
  Reach(closed ? "closed" : balanced ? "overlapping" : "open");
}
// Pairs of faces above and below a plane, on lines that may coincide.
void Lines(int frames) {
  BigInt u = V("u"), t = V("t"), s = V("s");
  AssumePos(u);
  static const int kPerm[3][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}};
  const int* pm = kPerm[Choose(frames, "axes")];
  int slope = Choose(3, "slope"), order = Choose(3, "order"), weird = Choose(2, "weird");
  int sx = slope == 2 ? 0 : 1, sy = slope == 0 ? 0 : slope == 1 ? -2 : 1;
  std::vector<LP> polys;
  polys.reserve(6);
  auto point = [&](const BigInt& x, const BigInt& y, const BigInt& z, int w) {
    BigInt c[3];
    c[pm[0]] = x * BigInt(w); c[pm[1]] = y * BigInt(w); c[pm[2]] = z * BigInt(w);
    return HomoPoint3(c[0], c[1], c[2], BigInt(w));
  };
  auto add = [&](const BigInt& x0, const BigInt& y0, const BigInt& x1, const BigInt& y1, int ox, int oy, int up, int w) {
    HomoPoint3 a = point(x0, y0, BigInt(0), w), c = point(x1, y1, BigInt(0), 1), far = point(x0 + u * BigInt(ox), y0 + u * BigInt(oy), u * BigInt(up), 1);
    std::vector<HomoPoint3> v{a, c, far};
    HalfSpace3 plane(v[0], v[1], v[2]);
    polys.push_back(LP(plane, plane.normal().GetFirstNonzeroDimension(), RotateLeft(v)));
  };
  BigInt zero(0), l = u * BigInt(4), x1 = u * BigInt(4 * sx), y1 = u * BigInt(4 * sy);
  int w = weird ? -3 : 1;
  // A wedge on the line through 0, another on the line through (s, t), both in
  // direction (sx, sy), and one along the first axis or across it.
  // The insides of the wedges do not overlap.
  add(x1, y1, zero, zero, 0, 0, 1, w);
  add(zero, zero, x1, y1, sy, -sx, 1, 1);
  BigInt ex = s + x1, ey = t + y1;
  add(s, t, ex, ey, 0, 0, -1, 1);
  add(ex, ey, s, t, sy, -sx, -1, w);
  BigInt n = -u;
  add(n, zero, l, zero, 1, 3, 2, 1);
  add(l, zero, n, zero, 1, 3, 1, w);
  std::vector<Deed<LEdge>> edges;
  for (size_t i = 0; i < 6; ++i) {
    size_t k = order == 0 ? i : order == 1 ? 5 - i : (i * 5 + 2) % 6;
    for (size_t e = 0; e < 3; ++e) {
      size_t e2 = (e + 1) % 3;
      if (Sg(Comp(polys[k].vertex(e).vector_from_origin(), pm[2])) == 0 && Sg(Comp(polys[k].vertex(e2).vector_from_origin(), pm[2])) == 0) { edges.emplace_back(&polys[k].edge(e)); break; }
    }
  }
  Check(edges.size() == 6, "harness");
  bool error = false;
  EdgeLineConnector<> connector;
  PrintOnly();
  connector.ConnectUnsorted(edges.begin(), edges.end(), pm[2], [&](const std::string& m) { error = true; if (getenv("VERBOSE")) fprintf(stderr, "%s\n", m.c_str()); });
  Check(!error, "separate wedges are connected without an error");
  CheckLinks(polys, true, false, [&](const EdgeAt<LP>& e) { return Sg(Comp(e.a().vector_from_origin(), pm[2])) == 0 && Sg(Comp(e.b().vector_from_origin(), pm[2])) == 0; });
  Reach("end");
}
}  // namespace
HARNESS(boxes_intersection, 0, "two boxes, the second anywhere, connected; 2 widths, 2 k-d bounds") { Boxes(0, 3); }
HARNESS(boxes_union, 0, "two boxes, the second anywhere in a plane (thorough: anywhere), connected; 2 widths, 2 k-d bounds") { Boxes(1, Thorough() ? 3 : 2); }
HARNESS(boxes_difference, 0, "two boxes, the second anywhere in a plane (thorough: anywhere), connected; 2 widths, 2 k-d bounds") { Boxes(2, Thorough() ? 3 : 2); }
HARNESS(convex_intersection, 0, "3x3 (thorough: 6x6) convex polyhedra, the second anywhere along 1 (4) lines, connected") { if (Thorough()) Convex(0, 6, 4); else Convex(0, 3, 1); }
HARNESS(convex_union, 0, "3x3 (thorough: 6x6) convex polyhedra, the second anywhere along 1 (4) lines, connected") { if (Thorough()) Convex(1, 6, 4); else Convex(1, 3, 1); }
HARNESS(convex_difference, 0, "3x3 (thorough: 6x6) convex polyhedra, the second anywhere along 1 (4) lines, connected") { if (Thorough()) Convex(2, 6, 4); else Convex(2, 3, 1); }
HARNESS(around_three, 0, "3 faces around a line in 8 directions, 2 of one extent, one of any other, either orientation, 2 (thorough: 4) line directions, 2 (3) point scales, thorough: either insertion order") { if (Thorough()) Around(3, 8, 4, true); else Around(3, 8, 2, false); }
HARNESS(around_four, 0, "4 faces around a line in 5 (thorough: 8) directions, two of one extent and two of any others, either orientation, 1 (4) line directions") { if (Thorough()) Around(4, 8, 4, true); else Around(4, 5, 1, false); }
HARNESS(lines, 0, "three wedges on lines of one plane that cross or coincide, two of them displaced by any amount, 3 axis orders, 3 slopes, 3 insertion orders") { Lines(3); }
