// GF(p): a finite coefficient type for the templates under test, and truncated polynomial arithmetic over it as reference.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <stdexcept>
#include <type_traits>
#include <vector>

namespace gf
{
template <int P> struct GF {
  int v; // trivially default constructible: default-initialised objects hold an invalid pattern (see ok())
  GF() = default;
  GF(int x) : v(((x % P) + P) % P) {}
  GF(long x) : v((int)(((x % P) + P) % P)) {}
  GF(double x)
  {
    // dyadic rationals only
    int e = 0;
    while (x != std::floor(x) && e < 60) { x *= 2; e++; }
    GF r((long)x);
    for (int i = 0; i < e; i++) r = r * GF((P + 1) / 2);
    v = r.v;
  }
  bool ok() const { return v >= 0 && v < P; }
  static GF bad() { GF r; r.v = -1; return r; }
  friend GF operator+(GF a, GF b) { return a.ok() && b.ok() ? GF(a.v + b.v) : bad(); }
  friend GF operator-(GF a, GF b) { return a.ok() && b.ok() ? GF(a.v - b.v) : bad(); }
  friend GF operator*(GF a, GF b) { return a.ok() && b.ok() ? GF(a.v * b.v) : bad(); }
  GF operator-() const { return ok() ? GF(-v) : bad(); }
  GF operator+() const { return *this; }
  GF inv() const
  {
    if (!ok() || v == 0) return bad();
    int r = 1;
    for (int i = 0; i < P - 2; i++) r = r * v % P;
    return GF(r);
  }
  friend GF operator/(GF a, GF b) { return a * b.inv(); }
  GF &operator+=(GF b) { return *this = *this + b; }
  GF &operator-=(GF b) { return *this = *this - b; }
  GF &operator*=(GF b) { return *this = *this * b; }
  GF &operator/=(GF b) { return *this = *this / b; }
  friend bool operator==(GF a, GF b) { return a.v == b.v; }
  friend bool operator!=(GF a, GF b) { return a.v != b.v; }
  friend bool operator<(GF a, GF b) { return a.v < b.v; }
  friend bool operator>(GF a, GF b) { return a.v > b.v; }
  friend bool operator<=(GF a, GF b) { return a.v <= b.v; }
  friend bool operator>=(GF a, GF b) { return a.v >= b.v; }
};
template <int P> GF<P> pow(GF<P> a, double e)
{
  if (e != std::floor(e)) return GF<P>::bad();
  if (e < 0) { a = a.inv(); e = -e; }
  GF<P> r(1);
  for (int i = 0; i < (int)e; i++) r = r * a;
  return r;
}

// reference: Taylor polynomials of degree <= order in n variables
template <int P> struct Model {
  using G = GF<P>;
  int order, n, len;
  Model(int o, int n_) : order(o), n(n_), len(o == 1 ? 1 + n_ : (n_ + 1) * (n_ + 2) / 2) {}
  int at(int i, int j) const { if (i > j) std::swap(i, j); int k = 1 + n; for (int r = 0; r < i; r++) k += n - r; return k + j - i; }
  // polynomial coefficient of the monomial x_i x_j (i<=j)
  G c2(const std::vector<G> &a, int i, int j) const { const G h = a[at(i, j)]; return i == j ? h / G(2) : h; }
  std::vector<G> add(const std::vector<G> &a, const std::vector<G> &b, G sb) const
  {
    std::vector<G> r(len);
    for (int i = 0; i < len; i++) r[i] = a[i] + sb * b[i];
    return r;
  }
  std::vector<G> mul(const std::vector<G> &a, const std::vector<G> &b) const
  {
    std::vector<G> r(len, G(0));
    r[0] = a[0] * b[0];
    for (int i = 0; i < n; i++) r[1 + i] = a[0] * b[1 + i] + a[1 + i] * b[0];
    if (order == 2)
      for (int i = 0; i < n; i++)
        for (int j = i; j < n; j++) {
          G c = a[0] * c2(b, i, j) + c2(a, i, j) * b[0] + a[1 + i] * b[1 + j];
          if (i != j) c += a[1 + j] * b[1 + i];
          r[at(i, j)] = i == j ? c * G(2) : c;
        }
    return r;
  }
  std::vector<G> div(const std::vector<G> &a, const std::vector<G> &b) const // unique r with r * b = a
  {
    std::vector<G> r(len, G(0));
    r[0] = a[0] / b[0];
    for (int i = 0; i < n; i++) r[1 + i] = (a[1 + i] - r[0] * b[1 + i]) / b[0];
    if (order == 2)
      for (int i = 0; i < n; i++)
        for (int j = i; j < n; j++) {
          G c = c2(a, i, j) - r[0] * c2(b, i, j) - r[1 + i] * b[1 + j];
          if (i != j) c -= r[1 + j] * b[1 + i];
          c = c / b[0];
          r[at(i, j)] = i == j ? c * G(2) : c;
        }
    return r;
  }
  std::vector<G> cst(G f) const { std::vector<G> r(len, G(0)); r[0] = f; return r; }
};
}
