// Convex polyhedra translated by symbolic amounts, and the exact check of a
// boolean combination of two of them: every output polygon has to be a part of
// an input face on the correct side of the other solid, and the areas on each
// input face have to add up to the area that the definition gives.
#ifndef VERIF_SOLIDS_H
#define VERIF_SOLIDS_H
#include "boxes.h"

namespace geo {

struct Solid {
  std::vector<std::vector<int>> v;      // concrete vertices
  std::vector<std::vector<int>> faces;  // counter clockwise from outside
  BigInt scale, off[3];                 // v * scale + off
  std::vector<HalfSpace3> planes;       // outward
  std::vector<int> drop;
  void Finish() {
    planes.clear(); drop.clear();
    for (const auto& f : faces) {
      int a[3], b[3], n[3];
      for (int i = 0; i < 3; ++i) { a[i] = v[f[1]][i] - v[f[0]][i]; b[i] = v[f[2]][i] - v[f[1]][i]; }
      for (int i = 0; i < 3; ++i) n[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3];
      int dr = 0;
      while (n[dr] == 0) ++dr;
      BigInt d(0);
      for (int i = 0; i < 3; ++i) d = d + BigInt(n[i]) * (scale * BigInt(v[f[0]][i]) + off[i]);
      planes.emplace_back(BigInt(n[0]), BigInt(n[1]), BigInt(n[2]), d);
      drop.push_back(dr);
    }
  }
  HomoPoint3 Vertex(int i) const {
    BigInt x = scale * BigInt(v[i][0]) + off[0], y = scale * BigInt(v[i][1]) + off[1], z = scale * BigInt(v[i][2]) + off[2];
    return HomoPoint3(x, y, z, BigInt(1));
  }
  template <class Poly = AABBConvexPolygon<>>
  std::vector<Poly> Mesh(bool flip = false) const {
    std::vector<Poly> r;
    for (size_t k = 0; k < faces.size(); ++k) {
      std::vector<HomoPoint3> w;
      for (int i : faces[k]) w.push_back(Vertex(i));
      if (flip) std::reverse(w.begin(), w.end());
      r.emplace_back(flip ? -planes[k] : planes[k], drop[k], w);
    }
    return r;
  }
};

inline Solid MakeSolid(int kind) {
  Solid s;
  switch (kind) {
    case 0:  // corner tetrahedron
      s.v = {{0, 0, 0}, {4, 0, 0}, {0, 4, 0}, {0, 0, 4}};
      s.faces = {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}};
      break;
    case 1:  // skew tetrahedron
      s.v = {{0, 0, 0}, {5, 1, 0}, {1, 4, 1}, {2, 1, 6}};
      s.faces = {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}};
      break;
    case 2:  // octahedron
      s.v = {{2, 0, 0}, {-2, 0, 0}, {0, 2, 0}, {0, -2, 0}, {0, 0, 2}, {0, 0, -2}};
      s.faces = {{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}};
      break;
    case 3:  // square pyramid
      s.v = {{0, 0, 0}, {4, 0, 0}, {4, 4, 0}, {0, 4, 0}, {2, 2, 3}};
      s.faces = {{0, 3, 2, 1}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}};
      break;
    case 4:  // wedge
      s.v = {{0, 0, 0}, {4, 0, 0}, {4, 4, 0}, {0, 4, 0}, {0, 0, 2}, {0, 4, 2}};
      s.faces = {{0, 3, 2, 1}, {0, 4, 5, 3}, {1, 2, 5, 4}, {0, 1, 4}, {3, 5, 2}};
      break;
    case 6:  // box
      s.v = {{0, 0, 0}, {4, 0, 0}, {4, 3, 0}, {0, 3, 0}, {0, 0, 2}, {4, 0, 2}, {4, 3, 2}, {0, 3, 2}};
      s.faces = {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
      break;
    default:  // mirrored corner tetrahedron
      s.v = {{4, 4, 4}, {0, 4, 4}, {4, 0, 4}, {4, 4, 0}};
      s.faces = {{0, 1, 2}, {0, 3, 1}, {0, 2, 3}, {1, 3, 2}};
      break;
  }
  s.scale = BigInt(1);
  for (auto& o : s.off) o = BigInt(0);
  return s;
}

inline BigInt Det3R(const Vector3& a, const Vector3& b, const Vector3& c) { return DotR(a, CrossR(b, c)); }
// The point where three planes meet.
inline HomoPoint3 MeetR(const HalfSpace3& a, const HalfSpace3& b, const HalfSpace3& c) {
  BigInt w = Det3R(a.normal(), b.normal(), c.normal());
  Vector3 bc = CrossR(b.normal(), c.normal()), ca = CrossR(c.normal(), a.normal()), ab = CrossR(a.normal(), b.normal());
  BigInt x = a.d() * bc.x() + b.d() * ca.x() + c.d() * ab.x();
  BigInt y = a.d() * bc.y() + b.d() * ca.y() + c.d() * ab.y();
  BigInt z = a.d() * bc.z() + b.d() * ca.z() + c.d() * ab.z();
  return HomoPoint3(x, y, z, w);
}

// A convex polygon of a plane, bounded by other planes (edge i lies on e[i],
// whose outside is outside the polygon; vertex i starts edge i).
struct RefPoly {
  HalfSpace3 plane;
  std::vector<HalfSpace3> e;
  std::vector<HomoPoint3> v;
};
inline RefPoly FaceRef(const Solid& s, size_t k) {
  RefPoly r;
  r.plane = s.planes[k];
  const auto& f = s.faces[k];
  for (size_t i = 0; i < f.size(); ++i) {
    int a = f[i], b = f[(i + 1) % f.size()];
    for (size_t m = 0; m < s.faces.size(); ++m) {
      if (m == k) continue;
      const auto& g = s.faces[m];
      if (std::count(g.begin(), g.end(), a) && std::count(g.begin(), g.end(), b)) r.e.push_back(s.planes[m]);
    }
    r.v.push_back(s.Vertex(a));
  }
  return r;
}
// The part of p on the inside of h.  Empty if it has no area.
inline RefPoly ClipRef(const RefPoly& p, const HalfSpace3& h) {
  size_t n = p.v.size();
  std::vector<int> s(n);
  bool in = false, out = false;
  for (size_t i = 0; i < n; ++i) { s[i] = SideR(h, p.v[i]); in |= s[i] < 0; out |= s[i] > 0; }
  if (!out) return p;
  RefPoly r;
  r.plane = p.plane;
  if (!in) return r;
  for (size_t i = 0; i < n; ++i) {
    size_t j = (i + 1) % n;
    if (s[i] < 0 && s[j] > 0) {
      r.v.push_back(p.v[i]); r.e.push_back(p.e[i]);
      r.v.push_back(MeetR(p.plane, p.e[i], h)); r.e.push_back(h);
    } else if (s[i] < 0) {
      r.v.push_back(p.v[i]); r.e.push_back(p.e[i]);
    } else if (s[i] == 0) {
      r.v.push_back(p.v[i]); r.e.push_back(s[j] < 0 ? p.e[i] : h);
    } else if (s[j] < 0) {
      r.v.push_back(MeetR(p.plane, p.e[i], h)); r.e.push_back(p.e[i]);
    }
  }
  return r;
}
struct Frac { BigInt n, d; };
inline Frac AddF(const Frac& a, const Frac& b) {
  Frac r;
  r.n = a.n * b.d + b.n * a.d; r.d = a.d * b.d;
  return r;
}
// Twice the area projected along dim, positive if counter clockwise about +dim.
template <class Vs>
Frac Area2(const Vs& v, int dim) {
  Frac r{BigInt(0), BigInt(1)};
  int e = (dim + 1) % 3, f = (dim + 2) % 3;
  for (size_t i = 1; i + 1 < v.size(); ++i) {
    const HomoPoint3 &a = v[0], &b = v[i], &c = v[i + 1];
    BigInt ae = Comp(a.vector_from_origin(), e), af = Comp(a.vector_from_origin(), f), be = Comp(b.vector_from_origin(), e),
           bf = Comp(b.vector_from_origin(), f), ce = Comp(c.vector_from_origin(), e), cf = Comp(c.vector_from_origin(), f);
    Frac t;
    t.n = ae * (bf * c.w() - cf * b.w()) - af * (be * c.w() - ce * b.w()) + a.w() * (be * cf - bf * ce);
    t.d = a.w() * b.w() * c.w();
    r = AddF(r, t);
  }
  return r;
}
template <class P>
std::vector<HomoPoint3> VertsOf(const P& p) {
  std::vector<HomoPoint3> v;
  for (size_t i = 0; i < p.vertex_count(); ++i) v.push_back(p.vertex(i));
  return v;
}
template <class P>
bool AllInside(const P& p, const Solid& s) {
  for (const HalfSpace3& h : s.planes)
    for (size_t i = 0; i < p.vertex_count(); ++i) if (SideR(h, p.vertex(i)) > 0) return false;
  return true;
}
// The plane through edge i of a valid polygon along its normal, outside outwards.
template <class P>
HalfSpace3 EdgePlane(const P& p, size_t i) {
  Vector3 n = CrossR(p.edge(i).line().d(), p.plane().normal());
  const HomoPoint3& v = p.vertex(i);
  BigInt d = DotR(n, v.vector_from_origin());
  int s = Sg(v.w());
  BigInt w = v.w() * BigInt(s), x = n.x() * w, y = n.y() * w, z = n.z() * w;
  d = d * BigInt(s);
  return HalfSpace3(x, y, z, d);
}
template <class P>
RefPoly RefOf(const P& p) {
  RefPoly r;
  r.plane = p.plane();
  r.v = VertsOf(p);
  for (size_t i = 0; i < p.vertex_count(); ++i) r.e.push_back(EdgePlane(p, i));
  return r;
}
// Does no part of the polygon lie strictly inside s?
template <class P>
bool AllOutside(const P& p, const Solid& s) {
  RefPoly r;
  for (const HalfSpace3& h : s.planes) {
    bool in = false;
    for (size_t i = 0; i < p.vertex_count() && !in; ++i) in = SideR(h, p.vertex(i)) < 0;
    if (!in) return true;
  }
  r = RefOf(p);
  for (const HalfSpace3& h : s.planes) {
    r = ClipRef(r, h);
    if (r.v.empty()) return true;
  }
  return false;
}
// Do two polygons of one plane have no common area?
template <class P, class Q>
bool Apart(const P& p, const Q& q) {
  auto sep = [](const auto& a, const auto& b) {
    for (size_t i = 0; i < a.vertex_count(); ++i) {
      HalfSpace3 h = EdgePlane(a, i);
      bool in = false;
      for (size_t k = 0; k < b.vertex_count() && !in; ++k) in = SideR(h, b.vertex(k)) < 0;
      if (!in) return true;
    }
    return false;
  };
  return sep(p, q) || sep(q, p);
}

// op as for boxes: 0 intersection, 1 union, 2 a minus b.
template <class Polys>
void CheckCombination(const Solid& a, const Solid& b, const Polys& polys, int op) {
  struct Tgt { const Solid* s; const Solid* o; size_t k; bool flip; Frac want; Frac got; std::vector<const typename Polys::value_type*> polys; };
  std::vector<Tgt> tg;
  for (int w = 0; w < 2; ++w) {
    const Solid& s = w ? b : a; const Solid& o = w ? a : b;
    bool flip = op == 2 && w == 1;
    for (size_t k = 0; k < s.faces.size(); ++k) {
      RefPoly f = FaceRef(s, k);
      Frac all = Area2(f.v, s.drop[k]);
      // Coplanar face of the other solid?
      int same = 0;
      for (const HalfSpace3& h : o.planes) {
        if (SamePlaneR(h, s.planes[k])) same = 1;
        if (SamePlaneR(-h, s.planes[k])) same = -1;
      }
      RefPoly c = f;
      for (const HalfSpace3& h : o.planes) { if (c.v.empty()) break; c = ClipRef(c, h); }
      Frac in = c.v.empty() ? Frac{BigInt(0), BigInt(1)} : Area2(c.v, s.drop[k]);
      Frac want = in;
      // keep the inside part?  With coplanar faces of the same direction in the
      // result, the part is there once: it is counted with a.
      bool inside = op == 0 || (op == 2 && w == 1);
      if (same == 0 ? !inside : false) want = AddF(all, Frac{-in.n, in.d});
      if (same != 0) {
        // "in" is the contact area.
        bool keep_contact, keep_rest = !inside;
        if (op == 2) keep_contact = same < 0 && w == 0;
        else if (op == 0) keep_contact = same > 0 && w == 0;
        else keep_contact = same > 0 && w == 0;
        Frac rest = AddF(all, Frac{-in.n, in.d});
        Frac zero{BigInt(0), BigInt(1)};
        want = AddF(keep_contact ? in : zero, keep_rest ? rest : zero);
      }
      tg.push_back({&s, &o, k, flip, want, Frac{BigInt(0), BigInt(1)}, {}});
    }
  }
  // Output polygons by the plane and direction of an input face.
  Frac zero{BigInt(0), BigInt(1)};
  for (const auto& p : polys) {
    CheckValid(p, "output polygons are valid and convex");
    int hit = -1;
    for (size_t i = 0; i < tg.size() && hit < 0; ++i) {
      const HalfSpace3& h = tg[i].s->planes[tg[i].k];
      if (SamePlaneR(tg[i].flip ? -h : h, p.plane())) hit = (int)i;
    }
    Check(hit >= 0, "output polygons lie on input faces and keep their direction");
    if (op == 1) {
      Check(AllInside(p, a) || AllInside(p, b), "output polygons lie on the union");
      Check(AllOutside(p, a) && AllOutside(p, b), "output polygons do not lie inside the union");
    } else if (op == 0) {
      Check(AllInside(p, a) && AllInside(p, b), "output polygons lie on the intersection");
    } else {
      Check(AllInside(p, a) && AllOutside(p, b), "output polygons lie on the difference");
    }
    Frac ar = Area2(VertsOf(p), tg[hit].s->drop[tg[hit].k]);
    if (tg[hit].flip) ar.n = -ar.n;
    tg[hit].got = AddF(tg[hit].got, ar);
    for (const auto* q : tg[hit].polys) Check(Apart(p, *q), "output polygons do not overlap");
    tg[hit].polys.push_back(&p);
  }
  // Sum per plane: coplanar faces of a and b with one direction count together,
  // with opposite directions (touching faces in a union) they cancel.
  std::vector<bool> done(tg.size(), false);
  for (size_t i = 0; i < tg.size(); ++i) {
    if (done[i]) continue;
    Frac sum = AddF(tg[i].got, Frac{-tg[i].want.n, tg[i].want.d});
    for (size_t j = i + 1; j < tg.size(); ++j) {
      if (tg[j].s == tg[i].s) continue;
      HalfSpace3 hi = tg[i].s->planes[tg[i].k], hj = tg[j].s->planes[tg[j].k];
      if (tg[i].flip) hi = -hi;
      if (tg[j].flip) hj = -hj;
      bool same = SamePlaneR(hi, hj), opp = op == 1 && SamePlaneR(-hi, hj);
      if (!same && !opp) continue;
      done[j] = true;
      Frac d = AddF(tg[j].got, Frac{-tg[j].want.n, tg[j].want.d});
      // Areas are signed by direction along the same axis for equal planes.
      if (tg[j].flip != tg[i].flip) d.n = -d.n;
      sum = AddF(sum, d);
    }
    Check(Sg(sum.n) == 0, "the faces of the result have exactly the area of its boundary");
  }
}
}  // namespace geo
#endif
