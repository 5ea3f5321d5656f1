// Helpers shared by the harnesses: symbolic inputs and reference predicates
// written directly from the definitions.
#ifndef VERIF_GEO_H
#define VERIF_GEO_H
#include <string>
#include <vector>
#include "harness.h"
#include "walnut/half_space2.h"
#include "walnut/half_space3.h"
#include "walnut/homo_point2.h"
#include "walnut/homo_point3.h"
#include "walnut/plucker_line.h"
#include "walnut/point2.h"
#include "walnut/point3.h"
#include "walnut/vector2.h"
#include "walnut/vector3.h"

namespace geo {
using namespace walnut;
using namespace hv;

template <class T>
inline int Sg(const T& v) { return v < T(0) ? -1 : v == T(0) ? 0 : 1; }
inline int Sg(const BigInt& v) { return SignOf(v); }

inline BigInt V(const std::string& n, int g = 1) { return Var(n.c_str(), g); }
inline BigInt NZ(const std::string& n, int g = 1) { BigInt v = V(n, g); AssumeNonZero(v); return v; }
inline Vector2 SVec2(const std::string& n, int g = 1) {
  BigInt x = V(n + ".x", g), y = V(n + ".y", g);
  return Vector2(x, y);
}
inline Vector3 SVec3(const std::string& n, int g = 1) {
  BigInt x = V(n + ".x", g), y = V(n + ".y", g), z = V(n + ".z", g);
  return Vector3(x, y, z);
}
inline Point3 SPoint3(const std::string& n, int g = 1) {
  BigInt x = V(n + ".x", g), y = V(n + ".y", g), z = V(n + ".z", g);
  return Point3(x, y, z);
}
// Homogeneous point: its own group, since it may be scaled on its own.
inline HomoPoint3 SHomo3(const std::string& n, int g) {
  BigInt x = V(n + ".x", g), y = V(n + ".y", g), z = V(n + ".z", g), w = NZ(n + ".w", g);
  return HomoPoint3(x, y, z, w);
}
inline HalfSpace3 SPlane(const std::string& n, int g) {
  BigInt a = V(n + ".a", g), b = V(n + ".b", g), c = V(n + ".c", g), d = V(n + ".d", g);
  return HalfSpace3(a, b, c, d);
}
inline void AssumeValid(const Vector3& v) { AssumePos(v.x() * v.x() + v.y() * v.y() + v.z() * v.z()); }
inline void AssumeValid(const Vector2& v) { AssumePos(v.x() * v.x() + v.y() * v.y()); }

inline BigInt Comp(const Vector3& v, int i) { return v.components()[i]; }
inline BigInt DotR(const Vector3& a, const Vector3& b) {
  return a.x() * b.x() + a.y() * b.y() + a.z() * b.z();
}
inline Vector3 CrossR(const Vector3& a, const Vector3& b) {
  BigInt x = a.y() * b.z() - a.z() * b.y();
  BigInt y = a.z() * b.x() - a.x() * b.z();
  BigInt z = a.x() * b.y() - a.y() * b.x();
  return Vector3(x, y, z);
}
// sign of (p - plane) for p = v/w
inline int SideR(const HalfSpace3& h, const Vector3& v, const BigInt& w) {
  return Sg(DotR(h.normal(), v) - h.d() * w) * Sg(w);
}
inline int SideR(const HalfSpace3& h, const HomoPoint3& p) { return SideR(h, p.vector_from_origin(), p.w()); }
inline int SideR(const HalfSpace3& h, const Point3& p) { return SideR(h, p.vector_from_origin(), BigInt(1)); }
// same location?
inline bool SameLoc(const HomoPoint3& a, const HomoPoint3& b) {
  return Sg(a.x() * b.w() - b.x() * a.w()) == 0 && Sg(a.y() * b.w() - b.y() * a.w()) == 0 &&
         Sg(a.z() * b.w() - b.z() * a.w()) == 0;
}
// sign of a.c/a.w - b.c/b.w
inline int CompR(const HomoPoint3& a, const HomoPoint3& b, int c) {
  return Sg(Comp(a.vector_from_origin(), c) * b.w() - Comp(b.vector_from_origin(), c) * a.w()) * Sg(a.w()) * Sg(b.w());
}
inline bool SameDirR(const Vector3& a, const Vector3& b) {  // nonzero vectors
  Vector3 c = CrossR(a, b);
  return Sg(c.x()) == 0 && Sg(c.y()) == 0 && Sg(c.z()) == 0 && Sg(DotR(a, b)) > 0;
}
inline bool IsZeroR(const Vector3& a) { return Sg(a.x()) == 0 && Sg(a.y()) == 0 && Sg(a.z()) == 0; }
// Same half-space (positive multiples of each other)
inline bool SamePlaneR(const HalfSpace3& a, const HalfSpace3& b) {
  if (!SameDirR(a.normal(), b.normal())) return false;
  return Sg(a.d() * b.x() - b.d() * a.x()) == 0 && Sg(a.d() * b.y() - b.d() * a.y()) == 0 &&
         Sg(a.d() * b.z() - b.d() * a.z()) == 0;
}
inline HomoPoint3 ScaleHomo(const HomoPoint3& p, const BigInt& k) {
  BigInt x = p.x() * k, y = p.y() * k, z = p.z() * k, w = p.w() * k;
  return HomoPoint3(x, y, z, w);
}
}  // namespace geo
#endif
