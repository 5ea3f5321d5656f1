#include "boolean.h"
#include "walnut/polygon_event_point.h"
using namespace geo;

namespace {
const size_t kBounds[5] = {0, 1, 3, 11, static_cast<size_t>(-1)};
size_t PickBound() { return kBounds[Choose(5, "kd_bound")]; }

void Boxes() {
  BigInt u = V("u"), x = V("x"), y = V("y"), z = V("z");
  AssumePos(u);
  int op = Choose(4, "op");
  size_t bound = PickBound();
  SBoxSolid a = MakeBox(BigInt(0), BigInt(0), BigInt(0), u * BigInt(4), u * BigInt(4), u * BigInt(4));
  SBoxSolid b = MakeBox(x, y, z, x + u * BigInt(4), y + u * BigInt(6), z + u * BigInt(2));
  Boolean(a, b, op, bound);
}
// Two boxes in one mesh, which may overlap nothing of each other, with a third.
void Parts() {
  BigInt u = V("u"), x = V("x"), y = V("y");
  AssumePos(u);
  int op = Choose(3, "op");
  size_t bound = PickBound();
  SBoxSolid p = MakeBox(BigInt(0), BigInt(0), BigInt(0), u * BigInt(2), u * BigInt(4), u * BigInt(4));
  SBoxSolid q = MakeBox(u * BigInt(3), BigInt(0), u, u * BigInt(5), u * BigInt(4), u * BigInt(3));
  SBoxSolid b = MakeBox(x, y, u * BigInt(2), x + u * BigInt(2), y + u * BigInt(2), u * BigInt(5));
  Tree tree;
  BSPContentId ia = tree.AllocateId(), ib = tree.AllocateId();
  tree.AddContents(ia, BoxMesh(p));
  tree.AddContents(ib, BoxMesh(b, op == 2));
  tree.AddContents(ia, BoxMesh(q));
  std::vector<Out> out = CombineOp(tree, ia, ib, op, bound);
  Grid g;
  g.Add(p); g.Add(q); g.Add(b);
  auto in_a = [&](const int* k) { return g.Inside(p, k) || g.Inside(q, k); };
  CheckSurface(g, out, [&](const int* k) {
    bool x = in_a(k), y = g.Inside(b, k);
    return op == 0 ? x && y : op == 1 ? x || y : x && !y;
  }, [&](const int* lo, const int* hi) {
    bool al = in_a(lo), ah = in_a(hi), bl = g.Inside(b, lo), bh = g.Inside(b, hi);
    return op == 1 && al != ah && bl != bh && al == bh;
  });
  Reach("end");
}
// The tree is split beforehand by an axis aligned plane anywhere.
void Presplit() {
  BigInt u = V("u"), x = V("x"), s = V("s");
  AssumePos(u);
  int op = Choose(4, "op"), dim = Choose(3, "dim"), when = Choose(3, "when"), flip = Choose(2, "flip");
  size_t bound = kBounds[Choose(2, "kd_bound") * 3];
  SBoxSolid a = MakeBox(BigInt(0), BigInt(0), BigInt(0), u * BigInt(4), u * BigInt(4), u * BigInt(4));
  SBoxSolid b = MakeBox(x, u, u * BigInt(2), x + u * BigInt(4), u * BigInt(3), u * BigInt(6));
  BigInt n[3] = {BigInt(0), BigInt(0), BigInt(0)}, d = flip ? -s : s;
  n[dim] = BigInt(flip ? -1 : 1);
  HalfSpace3 h(n[0], n[1], n[2], d);
  Tree tree;
  BSPContentId ia = tree.AllocateId(), ib = tree.AllocateId();
  if (when == 0) tree.root.Split(h);
  tree.AddContents(ia, BoxMesh(a));
  if (when == 1) tree.root.Split(h);
  tree.AddContents(ib, BoxMesh(b, op == 2));
  if (when == 2) tree.root.Split(h);
  std::vector<Out> out = CombineOp(tree, ia, ib, op, bound);
  Grid g;
  g.Add(a); g.Add(b); g.Insert(dim, s);
  CheckBoxes(g, a, b, out, op);
  Reach("end");
}
// Convex solids under every bound, the tree split beforehand in some planes.
void Convex(int kinds, int dirs) {
  AssumeScaled();
  BigInt u = V("u") * BigInt(kUnit), t = V("t") * BigInt(kUnit);
  AssumePos(u);
  static const int kDir[4][3] = {{1, 0, 0}, {1, 1, 1}, {0, 1, -1}, {1, -2, 1}};
  int op = Choose(3, "op"), ka = 1 + Choose(kinds, "a"), kb = Choose(kinds, "b"), d = Choose(dirs, "dir");
  size_t bound = kBounds[Choose(3, "kd_bound") * 2];
  if (bound == 3) bound = 1;
  Solid a = MakeSolid(ka), b = MakeSolid(kb);
  a.scale = b.scale = u;
  for (int i = 0; i < 3; ++i) b.off[i] = t * BigInt(kDir[d][i]);
  a.Finish(); b.Finish();
  Tree tree;
  BSPContentId ia = tree.AllocateId(), ib = tree.AllocateId();
  tree.AddContents(ia, a.Mesh());
  tree.AddContents(ib, b.Mesh(op == 2));
  CheckCombination(a, b, CombineOp(tree, ia, ib, op, bound), op);
  Reach("end");
}
// Split beforehand four times.
void ConvexDeep(int kinds, int triples) {
  AssumeScaled();
  BigInt u = V("u") * BigInt(kUnit), s = V("s") * BigInt(kUnit);
  AssumePos(u);
  static const int kN[4][9] = {{0, 0, 1, 1, 0, 0, 0, 1, 0}, {1, 1, 0, 0, 1, -1, 1, 0, 0}, {-1, 1, 1, 1, 0, 0, 0, -1, 0}, {2, 1, -1, 0, 0, 1, 0, 1, 0}};
  int op = Choose(3, "op"), ka = Choose(kinds, "a"), kb = Choose(Thorough() ? kinds : 2, "b"), pr = Choose(triples, "planes"), when = Choose(2, "when"), at = Choose(4, "at");
  Solid a = MakeSolid(ka), b = MakeSolid(kb);
  a.scale = b.scale = u;
  b.off[0] = u; b.off[1] = BigInt(0); b.off[2] = -u;
  a.Finish(); b.Finish();
  Tree tree;
  BSPContentId ia = tree.AllocateId(), ib = tree.AllocateId();
  auto split = [&]() {
    const int* n = kN[pr];
    HalfSpace3 h1(BigInt(n[0]), BigInt(n[1]), BigInt(n[2]), s);
    HalfSpace3 h2(BigInt(n[3]), BigInt(n[4]), BigInt(n[5]), u * BigInt(at & 1));
    HalfSpace3 h3(BigInt(n[6]), BigInt(n[7]), BigInt(n[8]), u * BigInt(at >> 1));
    HalfSpace3 h4(BigInt(1), BigInt(1), BigInt(1), u * BigInt(2));
    tree.root.Split(h1);
    for (auto* c : {tree.root.negative_child(), tree.root.positive_child()}) {
      c->Split(h2);
      c->negative_child()->Split(h3);
      c->positive_child()->Split(h3);
      for (auto* g : {c->negative_child(), c->positive_child()})
        for (auto* k : {g->negative_child(), g->positive_child()}) k->Split(h4);
    }
  };
  if (when == 0) split();
  tree.AddContents(ia, a.Mesh());
  tree.AddContents(ib, b.Mesh(op == 2));
  if (when == 1) split();
  CheckCombination(a, b, CombineOp(tree, ia, ib, op, 1), op);
  Reach("end");
}
void ConvexPresplit(int kinds, int planes) {
  AssumeScaled();
  BigInt u = V("u") * BigInt(kUnit), s = V("s") * BigInt(kUnit);
  AssumePos(u);
  static const int kN[6][3] = {{1, 1, 0}, {1, -1, 1}, {0, 0, -1}, {2, 1, -1}, {-1, 0, 0}, {-1, -1, -1}};
  static const int kPlace[4][3] = {{1, 0, -1}, {0, 0, 0}, {2, 2, 0}, {0, -1, 2}};
  int op = Choose(3, "op"), ka = Choose(kinds, "a"), kb = Choose(kinds, "b"), pl = Choose(planes, "plane"), when = Choose(2, "when");
  int place = Choose(Thorough() ? 4 : 1, "place");
  Solid a = MakeSolid(ka), b = MakeSolid(kb);
  a.scale = b.scale = u;
  for (int i = 0; i < 3; ++i) b.off[i] = u * BigInt(kPlace[place][i]);
  a.Finish(); b.Finish();
  Tree tree;
  BSPContentId ia = tree.AllocateId(), ib = tree.AllocateId();
  HalfSpace3 h(BigInt(kN[pl][0]), BigInt(kN[pl][1]), BigInt(kN[pl][2]), s);
  if (when == 0) tree.root.Split(h);
  tree.AddContents(ia, a.Mesh());
  tree.AddContents(ib, b.Mesh(op == 2));
  if (when == 1) tree.root.Split(h);
  CheckCombination(a, b, CombineOp(tree, ia, ib, op, 1), op);
  Reach("end");
}

// ---- The event point partition alone ----
using PP = BSPPolygon<AABBConvexPolygon<>>;
struct Tmpl { std::vector<std::vector<int>> v; };
const std::vector<Tmpl>& Tmpls() {
  static const std::vector<Tmpl> t = {
      {{{0, 0, 0}, {0, 2, 0}, {0, 2, 2}, {0, 0, 2}}},    // flat in x, normal +x
      {{{0, 0, 0}, {0, 0, 2}, {0, 2, 2}, {0, 2, 0}}},    // flat in x, normal -x
      {{{0, 0, 0}, {2, 0, 0}, {2, 2, 0}, {0, 2, 0}}},    // flat in z
      {{{0, 0, 0}, {4, 2, 0}, {2, 4, 2}}},               // slanted
      {{{0, 0, 0}, {0, 2, 1}, {4, 2, 3}, {4, 0, 2}}},    // slanted, edges flat in x
      {{{0, 3, 0}, {2, 0, 0}, {2, 0, 4}, {0, 3, 4}}},    // along z
  };
  return t;
}
struct In { std::vector<HomoPoint3> v; HalfSpace3 plane; int drop; };
In MakeIn(int kind, const BigInt& u, const BigInt* off) {
  const Tmpl& t = Tmpls()[kind];
  In r;
  int a[3], b[3], n[3];
  for (int i = 0; i < 3; ++i) { a[i] = t.v[1][i] - t.v[0][i]; b[i] = t.v[2][i] - t.v[1][i]; }
  for (int i = 0; i < 3; ++i) n[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3];
  for (const auto& p : t.v) {
    BigInt x = u * BigInt(p[0]) + off[0], y = u * BigInt(p[1]) + off[1], z = u * BigInt(p[2]) + off[2];
    r.v.emplace_back(x, y, z, BigInt(1));
  }
  BigInt d(0);
  for (int i = 0; i < 3; ++i) d = d + BigInt(n[i]) * (u * BigInt(t.v[0][i]) + off[i]);
  r.plane = HalfSpace3(BigInt(n[0]), BigInt(n[1]), BigInt(n[2]), d);
  r.drop = 0;
  while (n[r.drop] == 0) ++r.drop;
  return r;
}
// p - s along dim, where s = sn / sd with sd > 0
int Beside(const HomoPoint3& p, int dim, const BigInt& sn, const BigInt& sd) {
  return Sg(Comp(p.vector_from_origin(), dim) * sd - sn * p.w()) * Sg(p.w());
}
// The part of the polygon on one side (sign) of the plane.
std::vector<HomoPoint3> Half(const std::vector<HomoPoint3>& v, const HalfSpace3& h, int dim, const BigInt& sn, const BigInt& sd, int sign) {
  std::vector<HomoPoint3> r;
  for (size_t i = 0; i < v.size(); ++i) {
    const HomoPoint3 &a = v[i], &b = v[(i + 1) % v.size()];
    int sa = Beside(a, dim, sn, sd) * sign, sb = Beside(b, dim, sn, sd) * sign;
    if (sa >= 0) r.push_back(a);
    if (sa * sb < 0) r.push_back(CrossPoint(h, a, b));
  }
  return r;
}
int CmpC(const HomoPoint3& a, const HomoPoint3& b, int dim) {
  return Sg(Comp(a.vector_from_origin(), dim) * b.w() - Comp(b.vector_from_origin(), dim) * a.w()) * Sg(a.w()) * Sg(b.w());
}
void CheckEvents(int dim, const PolygonEventPoint* e, size_t count, const std::vector<PP>& polys) {
  Check(count == polys.size() * 2, "there are two events for each polygon");
  std::vector<int> start(polys.size(), -1), end(polys.size(), -1);
  std::vector<const HomoPoint3*> at(count);
  for (size_t i = 0; i < count; ++i) {
    if (e[i].start) {
      Check(e[i].index.partner < count && !e[e[i].index.partner].start, "a start event refers to an end event");
      Check(e[i].index.partner > i, "the end event of a polygon comes after its start event");
      size_t c = e[e[i].index.partner].index.content;
      Check(c < polys.size() && start[c] < 0, "every polygon has one start event");
      start[c] = (int)i;
      for (size_t k = 0; k < polys[c].vertex_count(); ++k) {
        if (k == 0 || CmpC(polys[c].vertex(k), *at[i], dim) < 0) at[i] = &polys[c].vertex(k);
      }
    } else {
      size_t c = e[i].index.content;
      Check(c < polys.size() && end[c] < 0, "every polygon has one end event");
      end[c] = (int)i;
      for (size_t k = 0; k < polys[c].vertex_count(); ++k) {
        if (k == 0 || CmpC(polys[c].vertex(k), *at[i], dim) > 0) at[i] = &polys[c].vertex(k);
      }
    }
    if (i == 0) Check(e[i].new_location, "the first event is at a new location");
    else {
      int c = CmpC(*at[i - 1], *at[i], dim);
      Check(c <= 0, "events are in the order of their locations");
      Check(e[i].new_location == (c < 0), "new_location marks the first event of a location");
    }
  }
  for (size_t c = 0; c < polys.size(); ++c) Check(start[c] >= 0 && end[c] >= 0, "every polygon has both events");
}
bool OnPlane(const HomoPoint3& p, const HalfSpace3& h) { return SideR(h, p) == 0; }

// One split of polys (with events for the 3 dimensions) the way the traversal
// does it.  Returns false if there is nothing to split.
struct State { std::vector<PP> polys; std::vector<PolygonEventPoint> ev[3]; };
bool SplitOnce(State& s, int dim, HalfSpace3& plane, State* child, const char* name) {
  size_t n = s.polys.size();
  if (n == 0) return false;
  // Every split that the cost search may select: an end event that is the last
  // one or followed by a start event.
  std::vector<size_t> cand;
  for (size_t i = 0; i < 2 * n; ++i)
    if (!s.ev[dim][i].start && (i + 1 == 2 * n || s.ev[dim][i + 1].start)) cand.push_back(i);
  PolygonEventPointPartition low = GetLowestCost(static_cast<size_t>(-1), 0, s.polys, s.ev[dim].data());
  Check(std::count(cand.begin(), cand.end(), low.split_index) == 1, "the cheapest split is at an end event");
  PolygonEventPointPartition part;
  part.split_index = cand[Choose((int)cand.size(), name)];
  part.cost = part.neg_cost = part.pos_cost = 0;
  part.neg_poly_count = 0; part.pos_poly_count = n;
  for (size_t i = 0; i <= part.split_index; ++i) { if (s.ev[dim][i].start) ++part.neg_poly_count; else --part.pos_poly_count; }
  if (low.split_index == part.split_index)
    Check(low.neg_poly_count == part.neg_poly_count && low.pos_poly_count == part.pos_poly_count, "the cost search counts the polygons of both sides");
  // Reference: split coordinate.
  const HomoPoint3 loc = s.ev[dim][part.split_index].GetLocation(dim, s.ev[dim].data(), s.polys);
  BigInt sn = Comp(loc.vector_from_origin(), dim) * BigInt(Sg(loc.w())), sd = loc.w() * BigInt(Sg(loc.w()));
  std::vector<PP> before = s.polys;
  part.DiscountBorderPolygons(s.ev[dim].data(), n);
  plane = part.GetSplitPlane(dim, s.ev[dim].data(), s.polys);
  {
    BigInt nn[3] = {BigInt(0), BigInt(0), BigInt(0)};
    nn[dim] = sd;
    Check(SamePlaneR(plane, HalfSpace3(nn[0], nn[1], nn[2], sn)), "the split plane is at the event, facing up the axis");
  }
  std::vector<size_t> map(n);
  child[0].ev[dim].resize(part.GetNegEventPointCount());
  std::vector<PP> nb, pb;
  part.ApplyPrimary(dim, s.ev[dim].data(), &plane, s.polys, map.data(), child[0].ev[dim].data(), child[0].polys, child[1].polys, nb, pb);
  child[1].ev[dim] = s.ev[dim];
  child[1].ev[dim].resize(part.GetPosEventPointCount());
  std::vector<PolygonMergeEvent> heap;
  for (int k = 1; k < 3; ++k) {
    int d2 = (dim + k) % 3;
    child[0].ev[d2].resize(part.GetNegEventPointCount());
    child[1].ev[d2].resize(part.GetPosEventPointCount());
    part.ApplySecondary(d2, n, child[0].polys, child[1].polys, map.data(), s.ev[d2].data(), child[0].ev[d2].data(), child[1].ev[d2].data(), heap);
  }
  Check(part.neg_poly_count == child[0].polys.size() && part.pos_poly_count == child[1].polys.size(), "the polygons of each side are counted");
  Check(part.border_poly_count == nb.size() + pb.size(), "the border polygons are counted");
  for (size_t i = 0; i < n; ++i) {
    const PP& o = before[i];
    std::vector<HomoPoint3> v = VertsOf(o);
    bool neg = false, pos = false;
    for (const auto& q : v) { int b = Beside(q, dim, sn, sd); neg |= b < 0; pos |= b > 0; }
    const PP* in[4] = {nullptr, nullptr, nullptr, nullptr};
    const std::vector<PP>* l[4] = {&child[0].polys, &child[1].polys, &nb, &pb};
    for (int k = 0; k < 4; ++k) for (const PP& c : *l[k]) if (c.id == o.id) {
      Check(!in[k], "a polygon is in one list at most once");
      in[k] = &c;
    }
    Check((in[0] != nullptr) == neg, "a polygon is in the negative child if it reaches below the plane, and only then");
    Check((in[1] != nullptr) == pos, "a polygon is in the positive child if it reaches above the plane, and only then");
    bool flat = !neg && !pos, up = Sg(Comp(o.plane().normal(), dim)) > 0;
    Check((in[2] != nullptr) == (flat && up), "a polygon in the plane with the same normal borders the negative child");
    Check((in[3] != nullptr) == (flat && !up), "a polygon in the plane with the opposite normal borders the positive child");
    for (int k = 0; k < 4; ++k) if (in[k]) {
      Check(SamePlaneR(in[k]->plane(), o.plane()), "pieces keep the plane");
      std::vector<HomoPoint3> want = k < 2 && neg && pos ? Half(v, plane, dim, sn, sd, k ? 1 : -1) : v;
      Check(CyclicMatch(*in[k], want) >= 0, "pieces are the exact parts of the polygon");
      if (k >= 2) Check(in[k]->on_node_plane.split == &plane && in[k]->on_node_plane.pos_side == (k == 3), "border polygons record the plane");
      for (size_t e = 0; e < in[k]->vertex_count(); ++e) {
        bool va = OnPlane(in[k]->vertex(e), plane), vb = OnPlane(in[k]->vertex((e + 1) % in[k]->vertex_count()), plane);
        const auto& info = in[k]->const_edge(e);
        bool side = k == 1 || k == 3;
        Check((info.vertex_last_coincident.split == &plane) == va, "vertices on the plane record it");
        if (va) Check(info.vertex_last_coincident.pos_side == side, "vertices on the plane record the side");
        Check((info.edge_last_coincident.split == &plane) == (va && vb), "edges on the plane record it");
        if (va && vb) {
          Check(info.edge_last_coincident.pos_side == side, "edges on the plane record the side");
          Check(info.edge_first_coincident.split != nullptr, "edges on the plane record the first plane");
        }
      }
    }
  }
  for (int k = 0; k < 2; ++k) for (int d = 0; d < 3; ++d) CheckEvents(d, child[k].ev[d].data(), child[k].ev[d].size(), child[k].polys);
  return true;
}
const int kAlong[3][3] = {{1, 0, 0}, {1, 2, -1}, {-1, 1, 1}};
void Partition(int count, int kinds, int along, int levels) {
  AssumeScaled();
  BigInt u = V("u") * BigInt(kUnit);
  AssumePos(u);
  static const char* kNames[4] = {"a", "b", "c", "d"};
  static const char* kKinds[4] = {"kind0", "kind1", "kind2", "kind3"};
  State s;
  int dir = Choose(along, "along");
  for (int i = 0; i < count; ++i) {
    BigInt t = i == 0 ? BigInt(0) : V(kNames[i]) * BigInt(kUnit);
    BigInt off[3];
    for (int k = 0; k < 3; ++k) off[k] = t * BigInt(kAlong[dir][k]);
    In in = MakeIn(Choose(kinds, kKinds[i]), u, off);
    s.polys.emplace_back(BSPContentId(i), nullptr, false, AABBConvexPolygon<>(in.plane, in.drop, in.v));
  }
  for (int d = 0; d < 3; ++d) {
    s.ev[d].resize(2 * s.polys.size());
    MakeEventPoints(d, s.polys, s.ev[d].data());
    CheckEvents(d, s.ev[d].data(), s.ev[d].size(), s.polys);
  }
  HalfSpace3 p1, p2;
  State c1[2], c2[2];
  int d1 = Choose(3, "dim1");
  SplitOnce(s, d1, p1, c1, "at1");
  if (levels > 1) {
    int side = Choose(2, "side");
    int d2 = Choose(3, "dim2");
    SplitOnce(c1[side], d2, p2, c2, "at2");
  }
  Reach("end");
}
}  // namespace
HARNESS(boxes, 0, "two boxes, the second anywhere, 4 operations, k-d lower bounds 0, 1, 3, 11 and none") { Boxes(); }
HARNESS(boxes_parts, 0, "a mesh of two boxes and a third box anywhere in a plane, 3 operations, 5 k-d lower bounds") { Parts(); }
HARNESS(boxes_presplit, 0, "two boxes, the second anywhere along x, in a tree split beforehand by any axis aligned plane, before, between or after adding them") { Presplit(); }
HARNESS(convex, 0, "3x3 (thorough: 6x6) convex polyhedra, the second anywhere along 1 (4) lines, 3 operations, 3 k-d lower bounds") { if (Thorough()) Convex(6, 4); else Convex(3, 1); }
HARNESS(convex_presplit, 0, "2x2 (thorough: 6x6) convex polyhedra, the tree split beforehand by a plane with 2 (6) normals anywhere") { if (Thorough()) ConvexPresplit(6, 6); else ConvexPresplit(2, 2); }
HARNESS(convex_deep, 0, "1x2 (thorough: 6x6) convex polyhedra, the tree split beforehand four times with 2 (4) combinations of planes, the first anywhere") { if (Thorough()) ConvexDeep(6, 4); else ConvexDeep(1, 2); }
HARNESS(partition_two, 0, "2 polygons of 6 kinds, the second anywhere along 3 lines, every split event of every dimension, two levels") { Partition(2, 6, 3, 2); }
HARNESS(partition_three, 0, "3 polygons of 5 kinds, anywhere along a line, every split event of every dimension, one level") { Partition(3, 5, 1, 1); }
HARNESS(partition_deep, 1, "3 polygons of 6 kinds, anywhere along 3 lines, every split event of every dimension, two levels") { Partition(3, 6, 3, 2); }
