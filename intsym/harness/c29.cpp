#include "decomp.h"
#include "boolean.h"
#include "walnut/mesh_plane_repairer.h"
#include "walnut/nudging_plane_builder.h"
using namespace geo;

namespace {
typedef std::vector<const HomoPoint3*> Points;
bool Collinear(const HomoPoint3& a, const HomoPoint3& b, const HomoPoint3& c) { return IsZeroR(CrossR(DirR(a, b), DirR(a, c))); }
bool AllCollinear(const Points& p) {
  for (size_t i = 0; i < p.size(); ++i)
    for (size_t j = i + 1; j < p.size(); ++j)
      for (size_t k = j + 1; k < p.size(); ++k)
        if (!Collinear(*p[i], *p[j], *p[k])) return false;
  return true;
}
BigInt Unit() { AssumeScaled(); BigInt u = V("u") * BigInt(kUnit); AssumePos(u); return u; }

// ------------------------------------------------------------------ the plane
const int kSets[3][6][3] = {
    {{0, 0, 0}, {4, 1, 0}, {1, 5, 2}, {-2, 3, 6}, {7, -3, 1}, {2, 2, 9}},   // general
    {{0, 0, 1}, {2, 0, 1}, {4, 0, 1}, {0, 3, 1}, {4, 4, 1}, {2, 6, 1}},     // in a plane, with collinear ones
    {{0, 0, 0}, {1, 1, 1}, {2, 2, 2}, {0, 0, 0}, {3, 3, 3}, {5, 0, 1}},     // on a line, repeated
};
const int kW[6] = {1, -2, 3, 1, 5, -1};
void Builder(int n, int sets) {
  int set = Choose(sets, "set"), s = Thorough() ? Choose(n, "symbolic") : 1 + 2 * Choose(2, "symbolic"), large = Thorough() ? 0 : 2 + Choose(n - 2, "large");
  BigInt u = Unit();
  std::vector<HomoPoint3> v;
  for (int i = 0; i < n; ++i) {
    BigInt c[3], w(kW[i]);
    for (int k = 0; k < 3; ++k) c[k] = i == s ? V("p" + std::to_string(k)) * BigInt(kUnit) : u * BigInt(kSets[set][i][k]) * w;
    if (i == s) w = BigInt(1);
    v.emplace_back(c[0], c[1], c[2], w);
  }
  NudgingPlaneBuilder b;
  Points fixed, free, all;
  bool rejected = false;
  for (int i = 0; i < n; ++i) {
    std::string id = std::to_string(i);
    if (Choose(2, ("constrained" + id).c_str())) {
      bool full = fixed.size() >= 3 && !AllCollinear(fixed);
      if (b.TryAddConstrained(&v[i])) {
        fixed.push_back(&v[i]);
        all.push_back(&v[i]);
      } else {
        Check(full, "only a plane through three fixed vertices rejects");
        HalfSpace3 h(*fixed[0], *fixed[1], *fixed[2]);
        for (size_t a = 0; a < fixed.size(); ++a)
          for (size_t c = a + 1; c < fixed.size(); ++c)
            for (size_t d = c + 1; d < fixed.size(); ++d)
              if (IsZeroR(h.normal())) h = HalfSpace3(*fixed[a], *fixed[c], *fixed[d]);
        Check(SideR(h, v[i]) != 0, "a vertex on the plane is accepted");
        rejected = true;
      }
    } else {
      b.AddUnconstrained(&v[i]);
      free.push_back(&v[i]);
      all.push_back(&v[i]);
    }
    if (Thorough() ? i >= 2 && i + 1 < n && Choose(2, ("large" + id).c_str()) : i == large && i + 1 < n) b.HasLargePlane();
  }
  if (all.size() < 3 || AllCollinear(all)) { Reach("collinear"); return; }
  HalfSpace3 plane = Choose(2, "move") ? std::move(b).Build() : b.Build();
  Check(!IsZeroR(plane.normal()), "the plane is valid");
  Points on;
  for (const HomoPoint3* p : fixed) Check(SideR(plane, *p) == 0, "the plane goes through the fixed vertices");
  for (const HomoPoint3* p : all) if (SideR(plane, *p) == 0) on.push_back(p);
  Check(on.size() >= 3 && !AllCollinear(on), "the plane is one through vertices");
  Reach(rejected ? "rejected" : fixed.empty() ? "free" : fixed.size() >= 3 ? "fixed" : "mixed");
}

// ------------------------------------------------------------------ the meshes
struct Repairer : public MeshPlaneRepairer<int> {
  using MeshPlaneRepairerBase::AddVertexInfo;
};
struct Mesh {
  std::vector<std::array<int, 3>> v;
  std::vector<std::vector<int>> f;
};
// 0 tetrahedron, 1 cube, 2 pyramid over a square, 3 prism over a pentagon, 4 cube with a cut corner
Mesh MakeMesh(int k) {
  switch (k) {
    case 0: return {{{0, 0, 0}, {6, 0, 0}, {0, 6, 0}, {0, 0, 6}}, {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}}};
    case 1: return {{{0, 0, 0}, {6, 0, 0}, {6, 6, 0}, {0, 6, 0}, {0, 0, 6}, {6, 0, 6}, {6, 6, 6}, {0, 6, 6}},
                    {{3, 2, 1, 0}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}, {4, 5, 6, 7}}};
    case 2: return {{{0, 0, 0}, {6, 0, 0}, {6, 6, 0}, {0, 6, 0}, {3, 3, 5}}, {{3, 2, 1, 0}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}};
    case 3: return {{{0, 0, 0}, {6, 1, 0}, {7, 5, 0}, {3, 8, 0}, {-1, 4, 0}, {0, 0, 5}, {6, 1, 5}, {7, 5, 5}, {3, 8, 5}, {-1, 4, 5}},
                    {{4, 3, 2, 1, 0}, {0, 1, 6, 5}, {1, 2, 7, 6}, {2, 3, 8, 7}, {3, 4, 9, 8}, {4, 0, 5, 9}, {5, 6, 7, 8, 9}}};
    default: return {{{0, 0, 0}, {6, 0, 0}, {6, 6, 0}, {0, 6, 0}, {0, 0, 6}, {6, 0, 6}, {0, 6, 6}, {6, 6, 3}, {6, 3, 6}, {3, 6, 6}},
                     {{3, 2, 1, 0}, {0, 1, 5, 4}, {3, 0, 4, 6}, {1, 2, 7, 8, 5}, {2, 3, 6, 9, 7}, {4, 5, 8, 9, 6}, {7, 9, 8}}};
  }
}
// n-gon caps; the vertices of the upper one are those of a ring of triangles,
// so that up to three planes are known at them before the cap is added.
Mesh Antiprism(int n) {
  static const int kRing[6][2] = {{6, 0}, {3, 5}, {-3, 5}, {-6, 0}, {-3, -5}, {3, -5}};
  static const int kRing5[5][2] = {{6, 0}, {2, 6}, {-5, 4}, {-5, -4}, {2, -6}};
  Mesh m;
  auto at = [&](int i) { return n == 5 ? kRing5[i] : kRing[i]; };
  for (int i = 0; i < n; ++i) m.v.push_back({at(i)[0], at(i)[1], 0});  // a plane with small coefficients
  for (int i = 0; i < n; ++i) {
    int j = (i + 1) % n;
    m.v.push_back({at(i)[0] + at(j)[0], at(i)[1] + at(j)[1], -6});
  }
  for (int i = 0; i < n; ++i) {
    int j = (i + 1) % n;
    m.f.push_back({j, i, n + i});
    m.f.push_back({n + i, n + j, j});
  }
  std::vector<int> up;
  for (int i = 0; i < n; ++i) up.push_back(i);
  m.f.push_back(up);
  return m;
}

void Run(const Mesh& m, const std::vector<HomoPoint3>& in, const std::vector<int>& order, int start) {
  static const int kMult[4] = {1, -2, 3, -1};
  Repairer r;
  int visit = 0;
  auto multiple = [&](int i) {
    BigInt k(kMult[visit++ % 4]);
    return HomoPoint3(in[i].x() * k, in[i].y() * k, in[i].z() * k, in[i].w() * k);
  };
  for (int f : order) {
    const std::vector<int>& loop = m.f[f];
    for (size_t i = 0; i < loop.size(); ++i) r.AddVertex(multiple(loop[(i + start) % loop.size()]));
    r.FinishFacet(f);
  }
  Check(r.IsValidState(), "valid state");
  std::map<const HomoPoint3*, int> id;
  std::vector<const HomoPoint3*> out(in.size(), nullptr);
  for (size_t i = 0; i < in.size(); ++i) {
    out[i] = &r.AddVertexInfo(in[i])->point;
    if (!id.count(out[i])) id[out[i]] = i;
  }
  for (size_t i = 0; i < in.size(); ++i)
    for (size_t j = 0; j < i; ++j) Check((out[i] == out[j]) == SameLoc(in[i], in[j]), "the vertices of the same location are the same vertex");
  bool planar = true;
  for (const auto& loop : m.f) {
    std::vector<const HomoPoint3*> pts;
    for (int i : loop) pts.push_back(&in[i]);
    for (size_t k = 3; k < pts.size(); ++k) {
      HalfSpace3 h(*pts[0], *pts[1], *pts[2]);
      planar = planar && SideR(h, *pts[k]) == 0;
    }
  }
  auto producer = std::move(r).FinalizeMesh();
  struct Piece { HalfSpace3 plane; std::vector<int> v; };
  std::vector<Piece> pieces;
  MeshPlaneRepairerProducer<int>::VertexIterator pos, end;
  bool infinite = false;
  while (producer.HasMorePolygons()) {
    Piece p;
    p.plane = producer.GetNextPolygon(pos, end);
    for (; pos != end; ++pos) {
      auto it = id.find(&*pos);
      Check(it != id.end(), "polygons only have vertices of the input");
      p.v.push_back(it->second);
      infinite = infinite || Sg(pos->w()) == 0;
    }
    pieces.push_back(p);
  }
  if (infinite) {
    // Some vertex cannot be on all of its planes.
    bool parallel = false;
    for (size_t i = 0; i < pieces.size(); ++i)
      for (size_t j = 0; j < i; ++j) {
        Vector3 c = CrossR(pieces[i].plane.normal(), pieces[j].plane.normal());
        parallel = parallel || (IsZeroR(c) && !SamePlaneR(pieces[i].plane, pieces[j].plane));
        for (size_t k = 0; k < j; ++k) parallel = parallel || Sg(DotR(c, pieces[k].plane.normal())) == 0;
      }
    Check(parallel, "vertices are finite unless planes are dependent");
    Reach("dependent planes");
    return;
  }
  size_t next = 0;
  bool split = false;
  for (int f : order) {
    std::vector<int> loop;
    for (int i : m.f[f]) loop.push_back(id[out[i]]);
    Chain chain(in);
    for (size_t i = 0; i < loop.size(); ++i) chain.Add(loop[i], loop[(i + 1) % loop.size()], 1);
    bool first = true;
    size_t count = 0;  // of vertices, counting the two shared with the piece before once
    do {
      Check(next < pieces.size(), "the pieces cover the facets");
      Piece& p = pieces[next++];
      Check(p.v.size() >= 3, "pieces have three vertices or more");
      for (size_t i = 0; i < p.v.size(); ++i) {
        chain.Add(p.v[i], p.v[(i + 1) % p.v.size()], -1);
        Check(SideR(p.plane, *out[p.v[i]]) == 0, "the vertices of a polygon are on its plane");
      }
      // Vertices may have been moved since the plane was fitted.
      Points pts, now;
      for (int i : p.v) { pts.push_back(&in[i]); now.push_back(out[i]); }
      if (IsZeroR(p.plane.normal())) Check(AllCollinear(now) || AllCollinear(pts), "the plane of a polygon is valid");
      count += p.v.size() - (first ? 0 : 2);
      if (!first) split = true;
      first = false;
    } while (count < loop.size());
    Check(count == loop.size() && chain.c.empty(), "the pieces of a facet are bounded by its border");
  }
  Check(next == pieces.size(), "nothing but the facets");
  if (planar) for (size_t i = 0; i < in.size(); ++i) Check(SameLoc(in[i], *out[i]), "vertices of planar facets stay where they are");
  Reach(split ? "split" : planar ? "planar" : "moved");
}
std::vector<HomoPoint3> Vertices(const Mesh& m, const BigInt& u, int s, int t, const int* along = nullptr) {
  std::vector<HomoPoint3> in;
  BigInt r = along ? V("r") * BigInt(kUnit) : BigInt(0);
  for (int i = 0; i < (int)m.v.size(); ++i) {
    BigInt c[3];
    for (int k = 0; k < 3; ++k) c[k] = u * BigInt(m.v[i][k]);
    if (i == s && along) for (int k = 0; k < 3; ++k) c[k] = c[k] + r * BigInt(along[k]);
    else if (i == s) for (int k = 0; k < 3; ++k) c[k] = V("p" + std::to_string(k)) * BigInt(kUnit);
    if (i == t) { BigInt h = V("h") * BigInt(kUnit); c[2] = c[2] + h; c[0] = c[0] + h; }
    in.emplace_back(c[0], c[1], c[2], BigInt(1));
  }
  return in;
}
void Meshes(const std::vector<int>& kinds, bool second) {
  Mesh m = MakeMesh(kinds[Choose(kinds.size(), "mesh")]);
  int n = m.v.size(), s = Choose(n, "moved"), t = second ? Choose(n, "other") : -1, rot = Choose(Thorough() ? m.f.size() : 2, "first"), start = Thorough() ? Choose(3, "start") : (s + rot) % 3;
  if (t == s) { Reach("same"); return; }
  BigInt u = Unit();
  std::vector<int> order;
  for (size_t i = 0; i < m.f.size(); ++i) order.push_back((i + 2 * rot) % m.f.size());
  Run(m, Vertices(m, u, s, t), order, start);
}
void Caps(const std::vector<int>& sizes) {
  int n = sizes[Choose(sizes.size(), "size")];
  Mesh m = Antiprism(n);
  int s = Choose(n, "moved");
  // how many triangles come before the cap, and which
  int before = Choose(n + 1, "before") * 2, start = Thorough() ? Choose(n, "start") : (s + 3 + 2 * before) % n;
  BigInt u = Unit();
  std::vector<int> order;
  for (int i = 0; i < before; ++i) order.push_back(i);
  order.push_back(2 * n);
  for (int i = before; i < 2 * n; ++i) order.push_back(i);
  static const int kAlong[3][3] = {{0, 0, 1}, {1, 0, 0}, {1, 2, -3}};
  Run(m, Vertices(m, u, s, -1, Thorough() ? nullptr : kAlong[Choose(3, "along")]), order, start);
}
}  // namespace

HARNESS(builder, 0, "planes fitted to 5 vertices of which one is anywhere, fixed and free vertices in any order, 2 (thorough: 3) sets of vertices, the size of the plane asked for at any time") { Builder(5, Thorough() ? 3 : 2); }
HARNESS(builder6, 1, "planes fitted to 6 vertices of which one is anywhere") { Builder(6, 2); }
HARNESS(meshes, 0, "tetrahedron, cube, pyramid (thorough: pentagon prism, cut cube) with one vertex anywhere") { Meshes(Thorough() ? std::vector<int>{0, 1, 2, 3, 4} : std::vector<int>{0, 1, 2}, false); }
HARNESS(two, 1, "cube, pyramid with one vertex anywhere and another moved along a line") { Meshes({1, 2}, true); }
HARNESS(caps, 0, "pentagon (thorough: 4- and 6-gon) caps with one vertex anywhere along 3 lines (thorough: anywhere), added after any even number of the triangles of a ring around them") { Caps(Thorough() ? std::vector<int>{4, 5, 6} : std::vector<int>{5}); }
