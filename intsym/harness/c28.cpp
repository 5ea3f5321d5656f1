#include "decomp.h"
#include "walnut/extrude.h"
using namespace geo;

namespace {
// The denominators name the vertices: kW[i] those of the cap, kW[i]*denom
// those of the moved cap.  No two of these agree for the denominators used.
const int kW[12] = {1, -2, 3, -5, 7, -11, 13, -17, 19, -23, 29, -31};
typedef std::array<BigInt, 3> Point;

// The border of the polygons must be that of the cap, its copy in reverse,
// and for each edge the parallelogram between the edge and its copy.  Closed
// surface and the volume it encloses follow from that.
void Run(const std::vector<Point>& cap, const Vector3& dir, int denom, bool planar) {
  int n = cap.size();
  std::vector<HomoPoint3> bottom, all;
  for (int i = 0; i < n; ++i) {
    BigInt w(kW[i]);
    bottom.emplace_back(cap[i][0] * w, cap[i][1] * w, cap[i][2] * w, w);
  }
  all = bottom;
  for (int i = 0; i < n; ++i) {
    BigInt d(denom);
    all.emplace_back(cap[i][0] * d + dir.x(), cap[i][1] * d + dir.y(), cap[i][2] * d + dir.z(), d);
  }
  std::vector<MutableConvexPolygon<>> pieces = Extrude(bottom, dir, BigInt(denom));
  Chain lower(all), upper(all);
  std::vector<Chain> side(n, Chain(all));
  for (int i = 0; i < n; ++i) {
    int j = (i + 1) % n;
    lower.Add(i, j, 1);
    upper.Add(n + j, n + i, 1);
    int q[4] = {j, i, n + i, n + j};
    for (int k = 0; k < 4; ++k) side[i].Add(q[k], q[(k + 1) % 4], 1);
  }
  int sides = 0;
  for (const auto& p : pieces) {
    CheckValid(p, "faces are valid and convex");
    std::vector<int> id;
    int low = 0;
    for (size_t v = 0; v < p.vertex_count(); ++v) {
      int found = -1;
      for (int j = 0; j < 2 * n && found < 0; ++j) {
        BigInt w = BigInt(kW[j % n]) * BigInt(j < n ? 1 : denom);
        if (Sg(p.vertex(v).w() - w) == 0) found = j;
      }
      if (found < 0)  // some other representation of a vertex
        for (int j = 0; j < 2 * n && found < 0; ++j) if (SameLoc(all[j], p.vertex(v))) found = j;
      Check(found >= 0, "faces only have vertices of the cap and its copy");
      Check(SameLoc(all[found], p.vertex(v)), "faces only have vertices of the cap and its copy");
      id.push_back(found);
      low += found < n;
    }
    Chain* c = nullptr;
    if (low == (int)id.size()) c = &lower;
    else if (low == 0) c = &upper;
    else {
      // All vertices belong to one edge.
      for (int i = 0; i < n && !c; ++i) {
        int j = (i + 1) % n;
        bool ok = true;
        for (int k : id) ok = ok && (k % n == i || k % n == j);
        if (ok) c = &side[i];
      }
      Check(c != nullptr, "side faces belong to one edge");
      ++sides;
    }
    for (size_t v = 0; v < id.size(); ++v) c->Add(id[v], id[(v + 1) % id.size()], -1);
  }
  Check(lower.Zero(), "the cap is covered with its orientation");
  Check(upper.Zero(), "the moved cap is covered with the opposite orientation");
  for (int i = 0; i < n; ++i) Check(side[i].Zero(), "the sides close the gap between the caps");
  Check(sides <= n, "one face per edge");
  if (!planar) { Reach("folded"); return; }
  // Outward when the cap faces away from the direction.
  if (pieces.empty()) { Reach("none"); return; }
  Vector3 nm(0, 0, 0);
  for (int i = 1; i + 1 < n; ++i) {
    auto d = [&](int k) { return Vector3(cap[k][0] - cap[0][0], cap[k][1] - cap[0][1], cap[k][2] - cap[0][2]); };
    nm = nm + CrossR(d(i), d(i + 1));
  }
  int s = Sg(DotR(nm, dir)) * (denom < 0 ? -1 : 1);
  Reach(s < 0 ? "outward" : s > 0 ? "inward" : "flat");
}
const std::vector<std::vector<P2>>& Caps() {
  static const std::vector<std::vector<P2>> s = {
      {{0, 0}, {5, 1}, {1, 4}},                                          // 0 triangle
      {{0, 0}, {6, 0}, {6, 6}, {0, 6}},                                  // 1 square
      {{0, 0}, {6, 1}, {7, 5}, {3, 8}, {-1, 4}},                         // 2 convex pentagon
      {{0, 0}, {4, 0}, {4, 2}, {2, 2}, {2, 6}, {0, 6}},                  // 3 L
      {{0, 0}, {5, 1}, {6, 6}, {3, 4}, {1, 7}},                          // 4 reflex pentagon
      {{0, 0}, {3, 0}, {6, 0}, {6, 6}, {6, 6}, {0, 6}},                  // 5 collinear and repeated vertices
      {{0, 0}, {6, 0}, {6, 2}, {2, 2}, {2, 4}, {6, 4}, {6, 6}, {0, 6}},  // 6 C
      {{0, 0}, {4, 4}, {4, 0}, {0, 5}},                                  // 7 bow tie
  };
  return s;
}
const int kDenom[] = {4, -1, -6};
Point Lift(const Frame& f, const BigInt& u, const BigInt& x, const BigInt& y) {
  Point r;
  for (int c = 0; c < 3; ++c) r[c] = u * BigInt(f.o[c]) + x * BigInt(f.u[c]) + y * BigInt(f.v[c]);
  return r;
}
// direction: anywhere, or one of a list
Vector3 Direction(const BigInt& u, bool anywhere, int count) {
  static const int kD[6][3] = {{1, 2, 3}, {0, 0, 5}, {-4, 1, 0}, {2, -3, 1}, {0, -7, 0}, {3, 0, 0}};
  if (anywhere) {
    BigInt x = V("dx"), y = V("dy"), z = V("dz");
    return Vector3(x, y, z);
  }
  const int* d = kD[Choose(count, "direction")];
  return Vector3(u * BigInt(d[0]), u * BigInt(d[1]), u * BigInt(d[2]));
}
void Concrete(const std::vector<int>& caps, int frames, bool reversed) {
  const auto& s = Caps()[caps[Choose(caps.size(), "cap")]];
  const Frame& f = Frames()[Choose(frames, "frame")];
  int denom = kDenom[Choose(3, "denominator")], start = reversed ? Choose(s.size(), "start") : 0, rev = Choose(2, "reversed");
  BigInt u = V("u");
  AssumePos(u);
  std::vector<Point> cap;
  int n = s.size();
  for (int i = 0; i < n; ++i) {
    const P2& p = s[rev ? (start + n - i) % n : (start + i) % n];
    cap.push_back(Lift(f, u, u * BigInt(p.x), u * BigInt(p.y)));
  }
  Run(cap, Direction(u, true, 0), denom, true);
}
// A vertex of the cap anywhere in its plane or in space.
void Moved(const std::vector<int>& caps, int frames, int directions, bool space) {
  const auto& s = Caps()[caps[Choose(caps.size(), "cap")]];
  const Frame& f = Frames()[Choose(frames, "frame")];
  int n = s.size(), moved = Choose(n, "moved");
  int denom = kDenom[Thorough() ? Choose(3, "denominator") : moved % 3];
  BigInt u = V("u");
  AssumePos(u);
  std::vector<Point> cap;
  for (const P2& p : s) cap.push_back(Lift(f, u, u * BigInt(p.x), u * BigInt(p.y)));
  if (space) for (int c = 0; c < 3; ++c) cap[moved][c] = V("p" + std::to_string(c));
  else {
    BigInt x = V("x"), y = V("y");
    cap[moved] = Lift(f, u, x, y);
  }
  Vector3 dir = Direction(u, false, directions);
  if (!space) {
    std::vector<HomoPoint3> loc;
    for (const auto& q : cap) loc.emplace_back(q[0], q[1], q[2], BigInt(1));
    int nm[3];
    for (int i = 0; i < 3; ++i) nm[i] = f.u[(i + 1) % 3] * f.v[(i + 2) % 3] - f.u[(i + 2) % 3] * f.v[(i + 1) % 3];
    if (!IsSimple(loc, Vector3(nm[0], nm[1], nm[2]))) { Reach("not simple"); return; }
  }
  // Folded polygons are decomposed exactly when no three vertices are collinear.
  if (space)
    for (int i = 0; i < n; ++i)
      for (int j = i + 1; j < n; ++j)
        if (i != moved && j != moved) {
          auto d = [&](int k) { return Vector3(cap[k][0] - cap[moved][0], cap[k][1] - cap[moved][1], cap[k][2] - cap[moved][2]); };
          if (IsZeroR(CrossR(d(i), d(j)))) { Reach("collinear"); return; }
        }
  Run(cap, dir, denom, !space);
}
}  // namespace

HARNESS(direction, 0, "5 (thorough: 8) caps in 4 (thorough: 10) plane orientations, both directions, 3 denominators, moved along any vector") {
  Concrete(Thorough() ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7} : std::vector<int>{0, 1, 3, 5, 7}, Thorough() ? 10 : 4, Thorough());
}
HARNESS(moved, 0, "4 caps in 2 (thorough: 10) plane orientations with one vertex anywhere in the plane such that the cap is simple, 3 (thorough: 6) directions") {
  Moved({0, 1, 3, 4}, Thorough() ? 10 : 2, Thorough() ? 6 : 3, false);
}
HARNESS(folded, 0, "3 caps with one vertex anywhere in space such that it is on no line through two others, 2 (thorough: 6) directions") {
  Moved({0, 1, 4}, Thorough() ? 10 : 1, Thorough() ? 6 : 2, true);
}
