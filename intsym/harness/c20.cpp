#include "boolean.h"
using namespace geo;

namespace {
using Node = Tree::BSPNodeRep;
struct Anc { const Node* node; bool pos; };
struct Leaf { Node* node; std::vector<Anc> anc; };
void Leaves(Node* n, std::vector<Anc>* anc, std::vector<Leaf>* out) {
  if (n->IsLeaf()) { out->push_back({n, *anc}); return; }
  Check(n->contents().empty() && n->border_contents().empty(), "interior nodes keep no polygons");
  for (bool pos : {false, true}) {
    anc->push_back({n, pos});
    Leaves(pos ? n->positive_child() : n->negative_child(), anc, out);
    anc->pop_back();
  }
}
std::vector<Leaf> AllLeaves(Tree& t) { std::vector<Leaf> r; std::vector<Anc> a; Leaves(&t.root, &a, &r); return r; }

struct Part { const Solid* s; BSPContentId id; bool flip; };
struct Piece { const Leaf* l; const Node::PolygonRep* p; bool border; };

// Is the edge from vertex i on an edge of face k of the solid?
template <class P>
bool OnInputEdge(const P& p, size_t i, const Solid& s, size_t k) {
  for (size_t m = 0; m < s.planes.size(); ++m) {
    if (m == k) continue;
    if (SideR(s.planes[m], p.vertex(i)) == 0 && SideR(s.planes[m], p.vertex((i + 1) % p.vertex_count())) == 0) return true;
  }
  return false;
}
void CheckPiece(const Piece& c, const Solid& s, size_t k) {
  const auto& p = *c.p;
  CheckValid(p, "fragments are valid");
  size_t n = p.vertex_count(), na = c.l->anc.size();
  // on[v][a]: vertex v is on the plane of ancestor a
  std::vector<std::vector<bool>> on(n, std::vector<bool>(na, false));
  const HalfSpace3* home = nullptr;
  bool home_pos = false;
  for (size_t a = 0; a < na; ++a) {
    const HalfSpace3& h = c.l->anc[a].node->split();
    bool all = true;
    for (size_t v = 0; v < n; ++v) {
      int sd = SideR(h, p.vertex(v));
      Check(c.l->anc[a].pos ? sd >= 0 : sd <= 0, "every polygon is on the correct side of all ancestors");
      on[v][a] = sd == 0;
      all = all && sd == 0;
    }
    if (all) {
      Check(home == nullptr, "only one ancestor has the plane of a polygon");
      home = &h; home_pos = c.l->anc[a].pos;
      // The inside of the split plane's half-space is the negative child.
      Check(c.l->anc[a].pos == (Sg(DotR(h.normal(), p.plane().normal())) < 0), "polygons on a split plane go to the child that they are the boundary of");
    }
  }
  Check((home != nullptr) == c.border, "polygons on a plane of an ancestor are border polygons");
  Check(p.on_node_plane.split == home, "border polygons refer to the split plane they are on");
  if (home) Check(p.on_node_plane.pos_side == home_pos, "border polygons know the side of their plane");
  auto is = [&](const SplitSide& x, int a, const char* what) {
    if (a < 0) { Check(x.split == nullptr, what); return; }
    Check(x.split == &c.l->anc[a].node->split(), what);
    Check(x.pos_side == c.l->anc[a].pos, what);
  };
  for (size_t v = 0; v < n; ++v) {
    const auto& e = p.const_edge(v);
    int first = -1, last = -1, vlast = -1;
    for (size_t a = 0; a < na; ++a) {
      if (on[v][a]) vlast = (int)a;
      if (on[v][a] && on[(v + 1) % n][a]) { last = (int)a; if (first < 0) first = (int)a; }
    }
    is(e.edge_first_coincident, first, "first ancestor that has an edge on its plane");
    is(e.edge_last_coincident, last, "last ancestor that has an edge on its plane");
    is(e.vertex_last_coincident, vlast, "last ancestor that has a vertex on its plane");
    if (OnInputEdge(p, v, s, k)) is(e.edge_created_by, -1, "edges of the input are not created by a split");
    else {
      int by = -1;
      for (size_t a = 0; a < na; ++a)
        if (&c.l->anc[a].node->split() != home && on[v][a] && on[(v + 1) % n][a]) { by = (int)a; break; }
      Check(by >= 0, "other edges are on a split plane");
      is(e.edge_created_by, by, "the split that created an edge");
    }
  }
}
// Everything except the winding numbers.
void CheckPolygons(const std::vector<Leaf>& leaves, const std::vector<Part>& parts) {
  size_t ids = 0;
  for (const Part& p : parts) ids = std::max(ids, (size_t)p.id + 1);
  std::vector<Piece> all;
  for (const Leaf& l : leaves) {
    std::vector<size_t> in(ids, 0), bd(ids, 0);
    for (const auto& p : l.node->contents()) { Check(p.id < ids, "fragments keep their id"); ++in[p.id]; all.push_back({&l, &p, false}); }
    for (const auto& p : l.node->border_contents()) { Check(p.id < ids, "fragments keep their id"); ++bd[p.id]; all.push_back({&l, &p, true}); }
    for (size_t i = 0; i < ids; ++i) {
      BSPContentInfo ci = l.node->GetContentInfoForId(i);
      Check(ci.has_interior_polygons == in[i] && ci.has_border_polygons == bd[i], "polygon counts of a leaf");
    }
  }
  std::vector<bool> used(all.size(), false);
  for (const Part& pt : parts) {
    for (size_t k = 0; k < pt.s->faces.size(); ++k) {
      HalfSpace3 plane = pt.flip ? -pt.s->planes[k] : pt.s->planes[k];
      RefPoly f = FaceRef(*pt.s, k);
      Frac got{BigInt(0), BigInt(1)};
      for (size_t i = 0; i < all.size(); ++i) {
        if (used[i] || all[i].p->id != pt.id || !SamePlaneR(all[i].p->plane(), plane)) continue;
        used[i] = true;
        CheckPiece(all[i], *pt.s, k);
        Check(AllInside(*all[i].p, *pt.s), "fragments are parts of the input polygon");
        got = AddF(got, Area2(VertsOf(*all[i].p), pt.s->drop[k]));
      }
      Frac want = Area2(f.v, pt.s->drop[k]);
      if (pt.flip) want.n = -want.n;
      Frac d = AddF(got, Frac{-want.n, want.d});
      Check(Sg(d.n) == 0, "the fragments have the area of the input polygon");
    }
  }
  for (size_t i = 0; i < all.size(); ++i) Check(used[i], "every fragment belongs to an input polygon");
}
// The winding numbers of all leaves, around any point strictly inside them.
void CheckWinding(const std::vector<Leaf>& leaves, const std::vector<Part>& parts) {
  size_t ids = 0;
  for (const Part& p : parts) ids = std::max(ids, (size_t)p.id + 1);
  BigInt x = V("px"), y = V("py"), z = V("pz");
  HomoPoint3 p(x, y, z, BigInt(1));
  auto side = [&](const HalfSpace3& h, bool pos) {
    BigInt v = DotR(h.normal(), p.vector_from_origin()) - h.d();
    return pos ? v : -v;
  };
  for (const Leaf& l : leaves) {
    std::vector<BigInt> in;
    for (const Anc& a : l.anc) in.push_back(side(a.node->split(), a.pos));
    for (size_t i = 0; i < ids; ++i) {
      if (l.node->GetContentInfoForId(i).has_interior_polygons) { Reach("leaf with polygons"); continue; }
      int64_t got = l.node->GetPWNForId(i);
      std::vector<const Part*> mine;
      for (const Part& pt : parts) if (pt.id == i) mine.push_back(&pt);
      // For every solid the point is inside, or beyond one of the faces.
      std::vector<size_t> place(mine.size(), 0);
      for (;;) {
        int64_t w = 0;
        for (size_t k = 0; k < mine.size(); ++k) if (place[k] == 0) w += mine[k]->flip ? -1 : 1;
        if (w != got) {
          std::vector<BigInt> all = in;
          for (size_t k = 0; k < mine.size(); ++k) {
            if (place[k] > 0) all.push_back(side(mine[k]->s->planes[place[k] - 1], true));
            else for (const HalfSpace3& h : mine[k]->s->planes) all.push_back(side(h, false));
          }
          CheckNone(all, "the winding number of a leaf is that around its points");
        }
        size_t k = 0;
        while (k < mine.size() && ++place[k] > mine[k]->s->planes.size()) place[k++] = 0;
        if (k == mine.size()) break;
      }
      Reach(got == 0 ? "outside" : got == 1 ? "inside" : got == -1 ? "inside of an inverted solid" : "inside of two");
    }
  }
}
const int kN[9][3] = {{1, 0, 0}, {0, 1, 0}, {1, 1, 1}, {0, -1, 1}, {1, -2, 1}, {-1, 0, 0}, {0, 0, -1}, {-1, -1, -1}, {2, 1, -3}};
struct Planes {
  std::vector<int> n;
  std::vector<BigInt> d;
  void Add(int normal, const BigInt& off) {
    for (size_t i = 0; i < n.size(); ++i) {
      // different from all others
      Vector3 a(kN[n[i]][0], kN[n[i]][1], kN[n[i]][2]), b(kN[normal][0], kN[normal][1], kN[normal][2]);
      if (IsZeroR(CrossR(a, b))) AssumeNonZero(Sg(DotR(a, b)) > 0 ? d[i] - off : d[i] + off);
    }
    n.push_back(normal); d.push_back(off);
  }
  HalfSpace3 At(size_t i) const { return HalfSpace3(BigInt(kN[n[i]][0]), BigInt(kN[n[i]][1]), BigInt(kN[n[i]][2]), d[i]); }
};
// Splits leaves at depth level; mode 0: all, 1: only the negative child of the
// last split, 2: only the positive one.
void SplitLevel(Node* n, size_t level, size_t depth, int mode, const HalfSpace3& h) {
  if (n->IsLeaf()) { if (depth == level) n->Split(h); return; }
  if (mode != 2 || depth + 1 != level) SplitLevel(n->negative_child(), level, depth + 1, mode, h);
  if (mode != 1 || depth + 1 != level) SplitLevel(n->positive_child(), level, depth + 1, mode, h);
}
BigInt Unit() { AssumeScaled(); BigInt u = V("u") * BigInt(kUnit); AssumePos(u); return u; }
// Builds the tree; the parts are added before the split number when[i].
void Build(Tree& tree, const Planes& pl, std::vector<Part>& parts, const std::vector<size_t>& when, int mode) {
  for (size_t i = 0; i <= pl.n.size(); ++i) {
    for (size_t k = 0; k < parts.size(); ++k) if (when[k] == i) tree.AddContents(parts[k].id, parts[k].s->Mesh(parts[k].flip));
    if (i < pl.n.size()) SplitLevel(&tree.root, i, 0, mode, pl.At(i));
  }
}
void One(const std::vector<int>& kinds, int levels, const std::vector<std::vector<int>>& normals, int modes, bool winding, bool flips, int whens) {
  BigInt u = Unit();
  Solid s = MakeSolid(kinds[Choose(kinds.size(), "kind")]);
  s.scale = u;
  s.Finish();
  Planes pl;
  static const char* kNames[5] = {"n0", "n1", "n2", "n3", "n4"};
  int set = normals.size() > 1 ? Choose(normals.size(), "normals") : 0;
  for (int i = 0; i < levels; ++i) {
    int n = normals.size() > 1 ? normals[set][i] : normals[0][Choose(normals[0].size(), kNames[i])];
    BigInt d = V("d" + std::to_string(i)) * BigInt(kUnit);
    pl.Add(n, d);
  }
  int mode = Choose(modes, "mode");
  size_t when = whens == 1 ? 0 : whens == 2 ? Choose(2, "when") * levels : Choose(levels + 1, "when");
  bool flip = flips ? Choose(2, "flip") : false;
  Tree tree;
  std::vector<Part> parts{{&s, tree.AllocateId(), flip}};
  Build(tree, pl, parts, {when}, mode);
  std::vector<Leaf> leaves = AllLeaves(tree);
  if (winding) CheckWinding(leaves, parts);
  else CheckPolygons(leaves, parts);
  Reach("end");
}
// The second solid is anywhere along a line.
void Two(int levels, const std::vector<std::vector<int>>& normals, bool same_id, bool winding, int kinds, int whens) {
  BigInt u = Unit(), t = V("t") * BigInt(kUnit);
  static const int kK[3][2] = {{0, 5}, {6, 0}, {2, 1}};
  static const int kDir[3][3] = {{1, 1, 1}, {1, 0, 0}, {0, -1, 1}};
  int k = Choose(kinds, "kinds"), dir = Choose(kinds, "dir");
  Solid a = MakeSolid(kK[k][0]), b = MakeSolid(kK[k][1]);
  a.scale = b.scale = u;
  for (int i = 0; i < 3; ++i) b.off[i] = t * BigInt(kDir[dir][i]);
  a.Finish(); b.Finish();
  Planes pl;
  int set = Choose(normals.size(), "normals");
  for (int i = 0; i < levels; ++i) {
    BigInt d = V("d" + std::to_string(i)) * BigInt(kUnit);
    pl.Add(normals[set][i], d);
  }
  size_t wa = Choose(whens, "when_a") * levels / 2, wb = Choose(whens, "when_b") * levels / 2;
  bool flip = same_id ? Choose(2, "flip_b") : false;
  Tree tree;
  BSPContentId ia = tree.AllocateId(), ib = same_id ? ia : tree.AllocateId();
  std::vector<Part> parts{{&a, ia, false}, {&b, ib, flip}};
  Build(tree, pl, parts, {wa, wb}, 0);
  std::vector<Leaf> leaves = AllLeaves(tree);
  if (winding) CheckWinding(leaves, parts);
  else CheckPolygons(leaves, parts);
  Reach("end");
}
// Splits at the planes of all faces, with one more split anywhere between them.
void Carve(int kinds, int orders, int normals, int whens, bool winding) {
  BigInt u = Unit();
  Solid s = MakeSolid(Choose(kinds, "kind"));
  s.scale = u;
  s.Finish();
  int nf = s.planes.size(), order = Choose(orders, "order"), neg = Choose(2, "reverse");
  int at = Choose(nf + 1, "at"), n = Choose(normals, "normal"), when = Choose(whens, "when") * (nf + 1) / (whens > 1 ? whens - 1 : 1);
  BigInt d = V("d") * BigInt(kUnit);
  HalfSpace3 extra(BigInt(kN[n][0]), BigInt(kN[n][1]), BigInt(kN[n][2]), d);
  Tree tree;
  std::vector<Part> parts{{&s, tree.AllocateId(), false}};
  static const int kStep[3] = {1, 3, 5};
  for (int i = 0; i <= nf + 1; ++i) {
    if (when == i) tree.AddContents(parts[0].id, s.Mesh());
    if (i > nf) break;
    HalfSpace3 h = extra;
    if (i != at) {
      int k = (order + (i - (i > at)) * kStep[order % 3]) % nf;
      h = s.planes[k];
      if (i > at && SamePlaneR(h, extra)) continue;
      if (i > at && SamePlaneR(-h, extra)) continue;
      if (neg) h.Negate();
    } else {
      bool used = false;
      for (const HalfSpace3& g : s.planes) used = used || SamePlaneR(g, h) || SamePlaneR(-g, h);
      if (used && i > 0) continue;
    }
    // Only where a child is not yet beyond a face, to keep the tree small.
    std::vector<Leaf> leaves = AllLeaves(tree);
    for (const Leaf& l : leaves) {
      bool beyond = false;
      for (size_t a = 0; a < l.anc.size(); ++a) for (const HalfSpace3& g : s.planes) {
        const HalfSpace3& x = l.anc[a].node->split();
        if (l.anc[a].pos ? SamePlaneR(x, g) : SamePlaneR(-x, g)) beyond = true;
      }
      if (!beyond) l.node->Split(h);
    }
  }
  std::vector<Leaf> leaves = AllLeaves(tree);
  if (winding) CheckWinding(leaves, parts); else CheckPolygons(leaves, parts);
  Reach("end");
}
// Splits at the planes of all faces of two solids that may overlap, in turn.
void CarveTwo(int kinds, int dirs, int orders, int whens, bool same_id, bool winding) {
  BigInt u = Unit(), t = V("t") * BigInt(kUnit);
  static const int kK[3][2] = {{0, 0}, {0, 5}, {1, 0}};
  static const int kDir[3][3] = {{1, 1, 1}, {1, 0, 0}, {-1, 2, 0}};
  int k = Choose(kinds, "kinds"), dir = Choose(dirs, "dir"), order = Choose(orders, "order");
  bool flip = Choose(2, "flip_b"), neg = Choose(2, "reverse");
  Solid a = MakeSolid(kK[k][0]), b = MakeSolid(kK[k][1]);
  a.scale = b.scale = u;
  for (int i = 0; i < 3; ++i) b.off[i] = t * BigInt(kDir[dir][i]);
  a.Finish(); b.Finish();
  int na = a.planes.size(), n = na + b.planes.size();
  int wa = Choose(whens, "when_a") * n / (whens > 1 ? whens - 1 : 1), wb = Choose(whens, "when_b") * n / (whens > 1 ? whens - 1 : 1);
  Tree tree;
  BSPContentId ia = tree.AllocateId(), ib = same_id ? ia : tree.AllocateId();
  std::vector<Part> parts{{&a, ia, false}, {&b, ib, flip}};
  for (int i = 0; i <= n; ++i) {
    if (wa == i) tree.AddContents(ia, a.Mesh());
    if (wb == i) tree.AddContents(ib, b.Mesh(flip));
    if (i == n) break;
    int j = order == 0 ? i : order == 1 ? n - 1 - i : (i * 3 + 1) % n;
    HalfSpace3 h = j < na ? a.planes[j] : b.planes[j - na];
    if (neg) h.Negate();
    std::vector<Leaf> leaves = AllLeaves(tree);
    for (const Leaf& l : leaves) {
      int beyond = 0;
      bool used = false;
      for (const Solid* s : {&a, &b}) {
        bool by = false;
        for (const Anc& c : l.anc) for (const HalfSpace3& g : s->planes)
          if (c.pos ? SamePlaneR(c.node->split(), g) : SamePlaneR(-c.node->split(), g)) by = true;
        beyond += by;
      }
      for (const Anc& c : l.anc) used = used || SamePlaneR(c.node->split(), h) || SamePlaneR(-c.node->split(), h);
      if (beyond < 2 && !used) l.node->Split(h);
    }
  }
  std::vector<Leaf> leaves = AllLeaves(tree);
  if (winding) CheckWinding(leaves, parts); else CheckPolygons(leaves, parts);
  Reach("end");
}
const std::vector<std::vector<int>> kPairs{{0, 1}, {2, 3}, {0, 5}, {4, 7}, {6, 2}, {3, 4}, {1, 7}, {2, 2}}, kFew{{0, 1}, {2, 3}, {0, 5}}, kMany{{0, 1}, {2, 3}, {0, 5}, {4, 7}, {6, 2}, {3, 4}, {1, 7}, {2, 2}, {8, 3}, {1, 0}, {3, 2}, {7, 6}, {6, 6}, {5, 8}};
const std::vector<std::vector<int>> kTriples{{0, 1, 6}, {2, 0, 3}, {0, 5, 0}, {7, 4, 1}, {3, 8, 2}, {2, 2, 1}}, kTriples3{{0, 1, 6}, {2, 3, 0}, {4, 7, 1}}, kQuads{{0, 1, 6, 2}, {2, 0, 3, 1}, {0, 0, 5, 1}, {7, 4, 1, 6}, {3, 8, 2, 0}}, kQuads2{{0, 2, 1, 6}, {3, 1, 7, 5}};
bool T() { return Thorough(); }
}  // namespace
HARNESS(fragments_two, 0, "3 polyhedra (thorough: of either orientation), two splits anywhere, 8 (14) pairs of directions, before and after adding") { One({0, 1, 2}, 2, T() ? kMany : kPairs, 1, false, T(), 2); }
HARNESS(winding_two, 0, "3 polyhedra (thorough: of either orientation), two splits anywhere, 8 (14) pairs of directions, before and after adding, any point") { One({0, 1, 2}, 2, T() ? kMany : kPairs, 1, true, T(), 2); }
HARNESS(fragments_three, 0, "corner tetrahedron (thorough: also box, octahedron, either orientation), three splits anywhere, 3 (6) triples of directions, before and after (at any time)") { if (T()) One({0, 6, 2}, 3, kTriples, 3, false, true, 4); else One({0}, 3, kTriples3, 1, false, false, 2); }
HARNESS(winding_three, 0, "corner tetrahedron (thorough: also box, octahedron, either orientation), three splits anywhere, 3 (6) triples of directions, before and after (at any time), any point") { if (T()) One({0, 6, 2}, 3, kTriples, 3, true, true, 4); else One({0}, 3, kTriples3, 1, true, false, 2); }
HARNESS(carve_fragments, 0, "corner and skew tetrahedron (thorough: also octahedron), splits at all faces and one anywhere between them in 2 (6) directions, 2 (8) orders, either plane direction, before, during and after adding") { if (T()) Carve(3, 8, 6, 5, false); else Carve(2, 2, 2, 3, false); }
HARNESS(carve_winding, 0, "corner and skew tetrahedron (thorough: also octahedron), splits at all faces and one anywhere between them in 2 (6) directions, 2 (8) orders, either plane direction, before, during and after adding, any point") { if (T()) Carve(3, 8, 6, 5, true); else Carve(2, 2, 2, 3, true); }
HARNESS(winding_overlapping, 0, "two polyhedra of one id, the second anywhere on a line and of either orientation, 3 (thorough: 8) pairs of splits anywhere, added before and after (at any time), any point") { if (T()) Two(2, kPairs, true, true, 3, 3); else Two(1, kFew, true, true, 2, 3); }
HARNESS(winding_two_ids, 0, "two polyhedra, the second anywhere on a line, 3 (thorough: 8) pairs of splits anywhere, added at any time, any point") { if (T()) Two(2, kPairs, false, true, 3, 3); else Two(1, kFew, false, true, 2, 3); }
HARNESS(fragments_two_ids, 0, "two polyhedra, the second anywhere on a line, 3 (thorough: 8) pairs of splits anywhere, added at any time") { if (T()) Two(2, kPairs, false, false, 3, 3); else Two(1, kFew, false, false, 1, 3); }
HARNESS(carve_two_winding, 0, "two tetrahedra of one id, the second anywhere on 1 (thorough: 3) lines and of either orientation, splits at all faces in 1 (3) orders, either plane direction, each before and after adding, any point") { if (T()) CarveTwo(3, 3, 3, 4, true, true); else CarveTwo(2, 1, 1, 2, true, true); }
HARNESS(carve_two_fragments, 0, "two tetrahedra, the second anywhere on 1 (thorough: 3) lines and of either orientation, splits at all faces in 1 (3) orders, either plane direction, each before and after adding") { if (T()) CarveTwo(3, 3, 3, 4, false, false); else CarveTwo(2, 1, 1, 2, false, false); }
HARNESS(winding_four, 1, "corner tetrahedron, octahedron, four splits anywhere, 5 sets of directions, only one child split at the last level, added before or after, any point") { One({0, 2}, 4, kQuads, 3, true, false, 2); }
HARNESS(fragments_four, 1, "corner tetrahedron, octahedron, four splits anywhere, 5 sets of directions, only one child split at the last level, added before or after") { One({0, 2}, 4, kQuads, 3, false, false, 2); }
