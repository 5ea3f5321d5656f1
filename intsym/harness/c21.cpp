#include "boolean.h"
using namespace geo;

namespace {
const int kOff[5][2] = {{0, 4}, {4, 6}, {1, 3}, {-2, 2}, {0, 2}};
void Line(int op) {
  BigInt u = V("u"), t = V("t");
  AssumePos(u);
  int i = Choose(5, "y"), j = Choose(5, "z"), w = 2 + 2 * Choose(3, "w");
  SBoxSolid a = MakeBox(BigInt(0), BigInt(0), BigInt(0), u * BigInt(4), u * BigInt(4), u * BigInt(4));
  SBoxSolid b = MakeBox(t, u * BigInt(kOff[i][0]), u * BigInt(kOff[j][0]), t + u * BigInt(w), u * BigInt(kOff[i][1]), u * BigInt(kOff[j][1]));
  Boolean(a, b, op, 6);
}
void Anywhere(int op) {
  BigInt u = V("u"), x = V("x"), y = V("y"), z = V("z");
  AssumePos(u);
  int w = 2 + 2 * Choose(3, "w");
  SBoxSolid a = MakeBox(BigInt(0), BigInt(0), BigInt(0), u * BigInt(4), u * BigInt(4), u * BigInt(4));
  SBoxSolid b = MakeBox(x, y, z, x + u * BigInt(w), y + u * BigInt(4), z + u * BigInt(2));
  Boolean(a, b, op, 6);
}
// A solid of three boxes, each a mesh of its own.
void Three() {
  BigInt u = V("u"), x = V("x"), y = V("y");
  AssumePos(u);
  int op = Choose(5, "op");
  SBoxSolid s[3];
  s[0] = MakeBox(BigInt(0), BigInt(0), BigInt(0), u * BigInt(4), u * BigInt(4), u * BigInt(4));
  s[1] = MakeBox(u * BigInt(2), BigInt(0), u * BigInt(-1), u * BigInt(6), u * BigInt(4), u * BigInt(3));
  s[2] = MakeBox(x, y, u, x + u * BigInt(2), y + u * BigInt(3), u * BigInt(3));
  Tree tree;
  std::vector<BSPContentId> ids;
  for (int i = 0; i < 3; ++i) {
    ids.push_back(tree.AllocateId());
    tree.AddContents(ids[i], BoxMesh(s[i], op == 2 && i > 0));
  }
  std::vector<Out> out;
  switch (op) {
    case 0: out = Combine(tree, MakeIntersectionFilter(MakeIntersectionFilter(PolygonFilter(ids[0]), PolygonFilter(ids[1])), PolygonFilter(ids[2])), 6); break;
    case 1: out = Combine(tree, MakeUnionFilter(MakeUnionFilter(PolygonFilter(ids[0]), PolygonFilter(ids[1])), PolygonFilter(ids[2])), 6); break;
    case 2: out = Combine(tree, MakeSubtractionFilter(PolygonFilter(ids[0]), MakeIntersectionFilter(InvertedPolygonFilter(ids[1]), InvertedPolygonFilter(ids[2]))), 6); break;
    case 3: out = Combine(tree, MakeUnionFilter(PolygonFilter(ids[0]), MakeIntersectionFilter(PolygonFilter(ids[1]), PolygonFilter(ids[2]))), 6); break;
    default: out = Combine(tree, MakeXORFilter(MakeXORFilter(PolygonFilter(ids[0]), PolygonFilter(ids[1])), PolygonFilter(ids[2])), 6); break;
  }
  Grid g;
  for (auto& b : s) g.Add(b);
  CheckSurface(g, out, [&](const int* c) {
    bool x = g.Inside(s[0], c), y = g.Inside(s[1], c), z = g.Inside(s[2], c);
    return op == 0 ? x && y && z : op == 1 ? x || y || z : op == 2 ? x && !(y || z) : op == 3 ? x || (y && z) : x != y != z;
  }, [&](const int* lo, const int* hi) {
    if (op == 0) return false;
    bool up = false, down = false;
    for (auto& b : s) {
      if (op == 2 && &b == &s[0]) continue;
      bool l = g.Inside(b, lo), h = g.Inside(b, hi); up |= l && !h; down |= h && !l; }
    return up && down;
  }, op != 4);
  Reach("end");
}
// A box with a cavity as the first solid.
void Cavity() {
  BigInt u = V("u"), x = V("x"), y = V("y");
  AssumePos(u);
  int op = Choose(4, "op");
  SBoxSolid o = MakeBox(BigInt(0), BigInt(0), BigInt(0), u * BigInt(6), u * BigInt(6), u * BigInt(6));
  SBoxSolid c = MakeBox(u * BigInt(2), u * BigInt(2), u * BigInt(2), u * BigInt(4), u * BigInt(4), u * BigInt(4));
  SBoxSolid b = MakeBox(x, y, u, x + u * BigInt(2), y + u * BigInt(4), u * BigInt(5));
  Tree tree;
  BSPContentId ia = tree.AllocateId(), ib = tree.AllocateId();
  tree.AddContents(ia, BoxMesh(o));
  tree.AddContents(ia, BoxMesh(c, true));
  tree.AddContents(ib, BoxMesh(b, op == 2));
  std::vector<Out> out = CombineOp(tree, ia, ib, op, 6);
  Grid g;
  g.Add(o); g.Add(c); g.Add(b);
  auto inA = [&](const int* k) { return g.Inside(o, k) && !g.Inside(c, k); };
  CheckSurface(g, out, [&](const int* k) {
    bool x = inA(k), y = g.Inside(b, k);
    return op == 0 ? x && y : op == 1 ? x || y : op == 2 ? x && !y : x != y;
  }, [&](const int* lo, const int* hi) {
    bool al = inA(lo), ah = inA(hi), bl = g.Inside(b, lo), bh = g.Inside(b, hi);
    return op == 1 && al != ah && bl != bh && al == bh;
  }, op != 3);
  Reach("end");
}
const int kDir[7][3] = {{1, 0, 0}, {1, 1, 1}, {0, 0, 1}, {1, 1, 0}, {-1, 1, 0}, {1, -2, 1}, {1, 0, 0}};
const int kPlace[4][3] = {{0, 0, 0}, {1, 0, -1}, {2, 2, 0}, {0, -1, 2}};
// The second solid moves along a line.
void Convex(int op, int kinds, int dirs, int places, bool anywhere = false) {
  AssumeScaled();
  BigInt u = V("u") * BigInt(kUnit), t = V("t") * BigInt(kUnit), r = anywhere ? V("r") * BigInt(kUnit) : BigInt(0);
  AssumePos(u);
  int ka = Choose(anywhere && !Thorough() ? 1 : kinds, "a"), kb = Choose(kinds, "b"), d = Choose(dirs, "dir"), p = Choose(places, "place");
  Solid a = MakeSolid(ka), b = MakeSolid(kb);
  a.scale = b.scale = u;
  for (int i = 0; i < 3; ++i) b.off[i] = t * BigInt(kDir[d][i]) + r * BigInt(kDir[d + 1][i]) + u * BigInt(kPlace[p][i]);
  a.Finish(); b.Finish();
  Tree tree;
  BSPContentId ia = tree.AllocateId(), ib = tree.AllocateId();
  tree.AddContents(ia, a.Mesh());
  tree.AddContents(ib, b.Mesh(op == 2));
  std::vector<Out> out = CombineOp(tree, ia, ib, op, 3);
  CheckCombination(a, b, out, op);
  Reach("end");
}
}  // namespace
HARNESS(boxes_line_intersection, 0, "two boxes, the second of width 2, 4 or 6 placed anywhere along an axis, at 5x5 offsets across it") { Line(0); }
HARNESS(boxes_any_intersection, 0, "two boxes, 4x4x4 and 2|4|6x4x2 units, the second placed anywhere") { Anywhere(0); }
HARNESS(boxes_line_union, 0, "two boxes, the second of width 2, 4 or 6 placed anywhere along an axis, at 5x5 offsets across it") { Line(1); }
HARNESS(boxes_any_union, 0, "two boxes, 4x4x4 and 2|4|6x4x2 units, the second placed anywhere") { Anywhere(1); }
HARNESS(boxes_line_difference, 0, "two boxes, the second of width 2, 4 or 6 placed anywhere along an axis, at 5x5 offsets across it") { Line(2); }
HARNESS(boxes_any_difference, 0, "two boxes, 4x4x4 and 2|4|6x4x2 units, the second placed anywhere") { Anywhere(2); }
HARNESS(boxes_line_xor, 0, "two boxes, the second of width 2, 4 or 6 placed anywhere along an axis, at 5x5 offsets across it") { Line(3); }
HARNESS(boxes_any_xor, 0, "two boxes, 4x4x4 and 2|4|6x4x2 units, the second placed anywhere") { Anywhere(3); }
HARNESS(boxes_three, 0, "five combinations of three boxes, the third placed anywhere in a plane") { Three(); }
HARNESS(boxes_cavity, 0, "a box with a cavity and a second box placed anywhere in a plane, 4 operations") { Cavity(); }
HARNESS(convex_intersection, 0, "5x5 (thorough: 6x6) convex polyhedra, the second placed anywhere along a line (2 (6) directions, 2 (4) places)") { if (Thorough()) Convex(0, 6, 6, 4); else Convex(0, 5, 2, 2); }
HARNESS(convex_union, 0, "5x5 (thorough: 6x6) convex polyhedra, the second placed anywhere along a line (2 (6) directions, 2 (4) places)") { if (Thorough()) Convex(1, 6, 6, 4); else Convex(1, 5, 2, 2); }
HARNESS(convex_difference, 0, "5x5 (thorough: 6x6) convex polyhedra, the second placed anywhere along a line (2 (6) directions, 2 (4) places)") { if (Thorough()) Convex(2, 6, 6, 4); else Convex(2, 5, 2, 2); }
HARNESS(convex_plane_intersection, 0, "1x2 (thorough: 4x4) convex polyhedra, the second placed anywhere in a plane (1 (3))") { if (Thorough()) Convex(0, 4, 3, 1, true); else Convex(0, 2, 1, 1, true); }
HARNESS(convex_plane_union, 0, "1x2 (thorough: 4x4) convex polyhedra, the second placed anywhere in a plane (1 (3))") { if (Thorough()) Convex(1, 4, 3, 1, true); else Convex(1, 2, 1, 1, true); }
HARNESS(convex_plane_difference, 0, "1x2 (thorough: 4x4) convex polyhedra, the second placed anywhere in a plane (1 (3))") { if (Thorough()) Convex(2, 4, 3, 1, true); else Convex(2, 2, 1, 1, true); }
