#include "poly.h"
#include <algorithm>
#include <map>
#include <sstream>

namespace sym {

Poly Poly::Var(int i) {
  Poly p; Mono m; m.e[i] = 1; p.t.emplace_back(m, mpz_class(1)); return p;
}

bool Poly::operator==(const Poly& o) const {
  if (t.size() != o.t.size()) return false;
  for (size_t i = 0; i < t.size(); ++i)
    if (!(t[i].first == o.t[i].first) || t[i].second != o.t[i].second) return false;
  return true;
}
bool Poly::operator<(const Poly& o) const {
  if (t.size() != o.t.size()) return t.size() < o.t.size();
  for (size_t i = 0; i < t.size(); ++i) {
    int c = memcmp(t[i].first.e, o.t[i].first.e, NV);
    if (c) return c < 0;
    int d = cmp(t[i].second, o.t[i].second);
    if (d) return d < 0;
  }
  return false;
}

template <int SIGN>
static Poly AddSub(const Poly& a, const Poly& b) {
  Poly r; r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    int c;
    if (i == a.t.size()) c = -1;
    else if (j == b.t.size()) c = 1;
    else c = memcmp(a.t[i].first.e, b.t[j].first.e, NV);
    if (c > 0) r.t.push_back(a.t[i++]);
    else if (c < 0) {
      r.t.push_back(b.t[j++]);
      if (SIGN < 0) r.t.back().second = -r.t.back().second;
    } else {
      mpz_class s = SIGN > 0 ? mpz_class(a.t[i].second + b.t[j].second)
                             : mpz_class(a.t[i].second - b.t[j].second);
      if (s != 0) r.t.emplace_back(a.t[i].first, s);
      ++i; ++j;
    }
  }
  return r;
}
Poly Poly::operator+(const Poly& o) const { return AddSub<1>(*this, o); }
Poly Poly::operator-(const Poly& o) const { return AddSub<-1>(*this, o); }
Poly Poly::operator-() const {
  Poly r = *this; for (auto& x : r.t) x.second = -x.second; return r;
}
Poly Poly::Scale(const mpz_class& c) const {
  if (c == 0) return Poly();
  Poly r = *this; for (auto& x : r.t) x.second *= c; return r;
}
static Mono MulM(const Mono& a, const Mono& b) {
  Mono m;
  for (int i = 0; i < NV; ++i) {
    int s = a.e[i] + b.e[i];
    if (s > 255) abort();
    m.e[i] = s;
  }
  return m;
}
Poly Poly::operator*(const Poly& o) const {
  Poly r;
  if (t.empty() || o.t.empty()) return r;
  if (t.size() == 1 || o.t.size() == 1) {
    const Poly& one = t.size() == 1 ? *this : o;
    const Poly& many = t.size() == 1 ? o : *this;
    r.t.reserve(many.t.size());
    for (auto& x : many.t)
      r.t.emplace_back(MulM(x.first, one.t[0].first), x.second * one.t[0].second);
    return r;
  }
  std::vector<Term> all; all.reserve(t.size() * o.t.size());
  for (auto& x : t) for (auto& y : o.t)
    all.emplace_back(MulM(x.first, y.first), x.second * y.second);
  std::sort(all.begin(), all.end(), [](const Term& a, const Term& b) {
    return b.first < a.first; });
  for (auto& x : all) {
    if (!r.t.empty() && r.t.back().first == x.first) r.t.back().second += x.second;
    else {
      if (!r.t.empty() && r.t.back().second == 0) r.t.pop_back();
      r.t.push_back(std::move(x));
    }
  }
  if (!r.t.empty() && r.t.back().second == 0) r.t.pop_back();
  return r;
}
int Poly::Degree() const { int d = 0; for (auto& x : t) d = std::max(d, x.first.Degree()); return d; }
int Poly::DegreeIn(int v) const { int d = 0; for (auto& x : t) d = std::max<int>(d, x.first.e[v]); return d; }
uint64_t Poly::VarMask() const {
  uint64_t m = 0;
  for (auto& x : t) for (int i = 0; i < NV; ++i) if (x.first.e[i]) m |= uint64_t(1) << i;
  return m;
}
mpz_class Poly::Content() const {
  mpz_class g = 0;
  for (auto& x : t) { g = gcd(g, x.second); if (g == 1) break; }
  return g;
}
Mono Poly::MonoContent() const {
  if (t.empty()) return Mono();
  Mono m = t[0].first;
  for (auto& x : t) for (int i = 0; i < NV; ++i) m.e[i] = std::min(m.e[i], x.first.e[i]);
  return m;
}
Poly Poly::DivMono(const Mono& m) const {
  Poly r = *this;
  for (auto& x : r.t) for (int i = 0; i < NV; ++i) x.first.e[i] -= m.e[i];
  return r;
}
Poly Poly::DivConst(const mpz_class& c) const {
  Poly r = *this; for (auto& x : r.t) x.second /= c; return r;
}
bool Poly::DivExact(const Poly& o, Poly* q, mpz_class* den) const {
  if (o.IsZero()) return false;
  *q = Poly(); *den = 1;
  if (IsZero()) return true;
  // quick degree filters
  for (int i = 0; i < NV; ++i) if (o.DegreeIn(i) > DegreeIn(i)) return false;
  Poly rem = *this;
  const Mono& lm = o.t[0].first; const mpz_class& lc = o.t[0].second;
  std::vector<std::pair<Mono, mpq_class>> qt;
  // Work with a common denominator: scale rem so that lc divides exactly.
  mpz_class scale = 1;
  while (!rem.IsZero()) {
    const Mono& rm = rem.t[0].first;
    Mono d;
    for (int i = 0; i < NV; ++i) {
      if (rm.e[i] < lm.e[i]) return false;
      d.e[i] = rm.e[i] - lm.e[i];
    }
    mpz_class g = gcd(rem.t[0].second, lc);
    mpz_class f = lc / g; if (f < 0) f = -f;
    if (f != 1) {
      rem = rem.Scale(f); scale *= f;
      for (auto& x : q->t) x.second *= f;
    }
    mpz_class c = rem.t[0].second / lc;
    Poly term; term.t.emplace_back(d, c);
    q->t.emplace_back(d, c);
    rem = rem - term * o;
    if (q->t.size() > 4000) return false;
  }
  *den = scale;
  mpz_class g = gcd(q->Content(), scale);
  if (g > 1) { *q = q->DivConst(g); *den = scale / g; }
  return true;
}
std::vector<Poly> Poly::CoeffsIn(int v) const {
  std::vector<Poly> r(DegreeIn(v) + 1);
  for (auto& x : t) {
    Mono m = x.first; int k = m.e[v]; m.e[v] = 0;
    r[k].t.emplace_back(m, x.second);
  }
  // Removing one coordinate keeps the lexicographic order within a fixed k.
  return r;
}
mpq_class Poly::Eval(const std::vector<mpq_class>& vals) const {
  mpq_class s = 0;
  for (auto& x : t) {
    mpq_class p(x.second);
    for (int i = 0; i < NV; ++i) for (int k = 0; k < x.first.e[i]; ++k) p *= vals[i];
    s += p;
  }
  return s;
}
Poly Poly::Subst(int v, const Poly& num, const mpz_class& den) const {
  int d = DegreeIn(v);
  if (d == 0) return *this;
  auto c = CoeffsIn(v);
  Poly r, pw(1L);
  std::vector<Poly> pows(d + 1);
  for (int i = 0; i <= d; ++i) { pows[i] = pw; if (i < d) pw = pw * num; }
  mpz_class dp = 1;
  for (int i = d; i >= 0; --i) {
    if (!c[i].IsZero()) r = r + (c[i] * pows[i]).Scale(dp);
    dp *= den;
  }
  return r;
}
std::string Poly::Str(const std::vector<std::string>& names) const {
  if (t.empty()) return "0";
  std::ostringstream o; bool first = true;
  for (auto& x : t) {
    if (!first) o << (x.second < 0 ? " - " : " + ");
    else if (x.second < 0) o << "-";
    first = false;
    mpz_class a = abs(x.second);
    bool one = x.first.IsOne();
    if (a != 1 || one) o << a.get_str();
    bool star = (a != 1);
    for (int i = 0; i < NV; ++i) if (x.first.e[i]) {
      if (star) o << "*";
      o << (i < (int)names.size() ? names[i] : "v" + std::to_string(i));
      if (x.first.e[i] > 1) o << "^" << int(x.first.e[i]);
      star = true;
    }
  }
  return o.str();
}

static Poly Prim(const Poly& p) {
  if (p.IsZero()) return p;
  mpz_class c = p.Content();
  if (p.t[0].second < 0) c = -c;
  return c == 1 ? p : p.DivConst(c);
}
static Poly ContentIn(const Poly& p, int v) {
  auto c = p.CoeffsIn(v);
  Poly g;
  for (auto& x : c) { if (x.IsZero()) continue; g = g.IsZero() ? Prim(x) : Gcd(g, x); if (g.IsConst()) break; }
  return g;
}
static Poly PRem(Poly a, const Poly& b, int v) {
  int db = b.DegreeIn(v);
  Poly lb = b.CoeffsIn(v)[db];
  while (!a.IsZero() && a.DegreeIn(v) >= db) {
    int da = a.DegreeIn(v);
    Poly la = a.CoeffsIn(v)[da];
    Poly sh; { Mono m; m.e[v] = da - db; sh.t.emplace_back(m, mpz_class(1)); }
    a = Prim(a * lb - la * sh * b);
  }
  return a;
}
Poly Gcd(const Poly& a0, const Poly& b0) {
  if (a0.IsZero()) return Prim(b0);
  if (b0.IsZero()) return Prim(a0);
  Poly a = Prim(a0), b = Prim(b0);
  if (a.IsConst() || b.IsConst()) return Poly(1L);
  if (a == b) return a;
  uint64_t ma = a.VarMask(), mb = b.VarMask();
  if (!(ma & mb)) return Poly(1L);
  int v = -1;
  // A variable in only one: reduce that one to its content.
  for (int i = 0; i < NV; ++i) {
    uint64_t bit = uint64_t(1) << i;
    if ((ma & bit) && !(mb & bit)) return Gcd(ContentIn(a, i), b);
    if (!(ma & bit) && (mb & bit)) return Gcd(a, ContentIn(b, i));
    if ((ma & mb & bit) && (v < 0 || std::max(a.DegreeIn(i), b.DegreeIn(i)) <
                            std::max(a.DegreeIn(v), b.DegreeIn(v)))) v = i;
  }
  Poly ca = ContentIn(a, v), cb = ContentIn(b, v);
  Poly q; mpz_class den;
  a.DivExact(ca, &q, &den); a = Prim(q);
  b.DivExact(cb, &q, &den); b = Prim(q);
  Poly c = Gcd(ca, cb);
  if (a.DegreeIn(v) < b.DegreeIn(v)) std::swap(a, b);
  while (!b.IsZero() && b.DegreeIn(v) > 0) {
    if (a.t.size() * b.t.size() > 20000) return c;  // give up (sound: 1 divides)
    Poly r = PRem(a, b, v);
    a = b;
    if (r.IsZero()) { b = r; break; }
    Poly cr = ContentIn(r, v);
    r.DivExact(cr, &q, &den);
    b = Prim(q);
  }
  if (!b.IsZero()) return c;  // remainder constant in v: coprime
  return Prim(a * c);
}

mpz_class Factor(const Poly& p, std::vector<std::pair<Poly, int>>* out) {
  mpz_class c = p.Content();
  if (p.t[0].second < 0) c = -c;
  Poly q = p.DivConst(c);
  Mono m = q.MonoContent();
  q = q.DivMono(m);
  auto add = [&](const Poly& f, int k) {
    for (auto& x : *out) if (x.first == f) { x.second += k; return; }
    out->emplace_back(f, k);
  };
  for (int i = 0; i < NV; ++i) if (m.e[i]) add(Poly::Var(i), m.e[i]);
  if (q.IsConst()) return c * q.ConstValue();
  std::vector<Poly> work{q};
  int guard = 0;
  while (!work.empty()) {
    Poly f = work.back(); work.pop_back();
    if (f.IsConst()) { c *= f.ConstValue(); continue; }
    if (f.Degree() <= 1 || f.t.size() > 80 || ++guard > 40) { add(f, 1); continue; }
    bool split = false;
    uint64_t mask = f.VarMask();
    for (int v = 0; v < NV && !split; ++v) if (mask >> v & 1) {
      Poly g = ContentIn(f, v);
      if (!g.IsConst()) {
        Poly h; mpz_class den; f.DivExact(g, &h, &den);
        work.push_back(g); work.push_back(h); split = true;
      }
    }
    if (!split) {
      // square factors: gcd with a derivative
      for (int v = 0; v < NV && !split; ++v) if (f.DegreeIn(v) >= 2) {
        Poly d;
        for (auto& x : f.t) if (x.first.e[v]) {
          Mono mm = x.first; int k = mm.e[v]; mm.e[v]--;
          Poly one; one.t.emplace_back(mm, x.second * k); d = d + one;
        }
        Poly g = Gcd(f, d);
        if (!g.IsConst() && !(g == f)) {
          Poly h; mpz_class den; f.DivExact(g, &h, &den);
          work.push_back(g); work.push_back(h); split = true;
        }
      }
    }
    if (!split) add(f, 1);
  }
  return c;
}

}  // namespace sym
