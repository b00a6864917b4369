#pragma once
#include "subject.hpp"
#include <Eigen/Core>
#include <hyperjet/hyperjet.h>
#include <limits>
#include <stdexcept>

namespace hj = hyperjet;

#ifdef HYPERJET_NO_EXCEPTIONS // this unit is built with -fno-exceptions
#include <cstdlib>
#define HJ_TRY if (true)
#define HJ_CATCH else
#define HJ_WHAT "?"
#define HJ_FAIL(t) abort()
#else
#define HJ_TRY try
#define HJ_CATCH catch (const std::exception &e)
#define HJ_WHAT e.what()
#define HJ_FAIL(t) throw std::logic_error(t)
#endif

template <class T, class = void> struct requires_data : std::false_type {};
template <class T> struct requires_data<T, std::void_t<decltype(std::declval<T &>().data())>> : std::true_type {};

// reference to one of the number's own coefficients
template <class T> auto &own(T &x, int i)
{
  if constexpr (requires_data<T>::value) return x.data()[i];
  else { static typename T::Scalar none; HJ_FAIL("harness: no coefficient references"); return none; }
}

// Performs one call. Returns false if a compound assignment did not return its target.
template <class T, class Put> bool perform(T &x, T &y, T &z, const ops::Call &c, const typename T::Scalar s, Put put)
{
  const T &cx = x, &cy = y, &cz = z;
  const T *ref = &x;
  using std::pow;
  switch (c.op) {
  case ops::ADD: put(cx + cy); break;
  case ops::SUB: put(cx - cy); break;
  case ops::MUL: put(cx * cy); break;
  case ops::DIV: put(cx / cy); break;
  case ops::ADDS: put(cx + s); break;
  case ops::SADD: put(s + cx); break;
  case ops::SUBS: put(cx - s); break;
  case ops::SSUB: put(s - cx); break;
  case ops::MULS: put(cx * s); break;
  case ops::SMUL: put(s * cx); break;
  case ops::DIVS: put(cx / s); break;
  case ops::SDIV: put(s / cx); break;
  case ops::NEG: put(-cx); break;
  case ops::RECIP: put(cx.reciprocal()); break;
  case ops::IADD: ref = &(x += y); break;
  case ops::ISUB: ref = &(x -= y); break;
  case ops::IMUL: ref = &(x *= y); break;
  case ops::IDIV: ref = &(x /= y); break;
  case ops::IADDS: if (c.own >= 0) x += own(x, c.own); else ref = &(x += s); break;
  case ops::ISUBS: if (c.own >= 0) x -= own(x, c.own); else ref = &(x -= s); break;
  case ops::IMULS: if (c.own >= 0) x *= own(x, c.own); else ref = &(x *= s); break;
  case ops::IDIVS: if (c.own >= 0) x /= own(x, c.own); else ref = &(x /= s); break;
  case ops::POW: put(cx.pow(s)); break;
  case ops::POW_F: put(hj::pow(cx, (double)s)); break;
  case ops::POWI_F: put(hj::pow(cx, (hj::index)s)); break;
  case ops::LOGB: put(cx.log(s)); break;
#define U(N, m) case ops::N: put(cx.m()); break; case ops::N##_F: { using hj::m; put(m(cx)); break; }
  U(SQRT, sqrt) U(CBRT, cbrt) U(COS, cos) U(SIN, sin) U(TAN, tan) U(ACOS, acos) U(ASIN, asin) U(ATAN, atan)
  U(COSH, cosh) U(SINH, sinh) U(TANH, tanh) U(ACOSH, acosh) U(ASINH, asinh) U(ATANH, atanh)
  U(EXP, exp) U(LOG, log) U(LOG2, log2) U(LOG10, log10) U(ABS, abs)
#undef U
  case ops::ATAN2: put(cx.atan2(cy)); break;
  case ops::ATAN2_F: put(hj::atan2(cx, cy)); break;
  case ops::HYPOT2: put(T::hypot(cx, cy)); break;
  case ops::HYPOT2_F: put(hj::hypot(cx, cy)); break;
  case ops::HYPOT3: put(T::hypot(cx, cy, cz)); break;
  case ops::HYPOT3_F: put(hj::hypot(cx, cy, cz)); break;
  }
  return ref == &x;
}

template <class T> struct MachineT : Machine {
  using S = typename T::Scalar;
  std::vector<T> r;
  std::vector<T> result; // 0 or 1 element
  std::string nm;
  MachineT(std::string n) : nm(n) {}
  static T make(const ops::Data &d)
  {
    if constexpr (T::is_dynamic()) {
      typename T::Data v(d.size());
      for (size_t i = 0; i < d.size(); i++) v[i] = S(d[i]);
      return T::create(v);
    } else {
      typename T::Data v;
      if (v.size() != d.size()) HJ_FAIL("harness: wrong length");
      for (size_t i = 0; i < d.size(); i++) v[i] = S(d[i]);
      return T::create(v);
    }
  }
  static ops::Data get(const T &x)
  {
    ops::Data d;
    d.reserve(x.data().size());
    for (const auto &t : x.data()) d.push_back((long double)t);
    return d;
  }
  int order() const override { return T::order(); }
  int size() const override { return T::is_dynamic() ? -1 : (int)T::static_size(); }
  std::string name() const override { return nm; }
  long double eps() const override { return std::numeric_limits<S>::epsilon(); }
  void regs(int k) override
  {
    r.clear(); r.reserve(k); result.clear(); result.reserve(1);
    for (int i = 0; i < k; i++) r.push_back(T::zero());
  }
  void load(int i, const ops::Data &d) override { r[i] = make(d); }
  ops::Data read(int i) override { return get(r[i]); }
  long reg_size(int i) override { return r[i].size(); }
  void store(int i) override { r[i] = result[0]; }
  long double eval(int i, const ops::Data &d) override
  {
    if constexpr (T::is_dynamic()) {
      std::vector<S> v(d.begin(), d.end());
      return r[i].eval(v);
    } else {
      std::array<S, T::static_size()> v;
      for (size_t k = 0; k < v.size(); k++) v[k] = S(d[k]);
      return r[i].eval(v);
    }
  }
  int compare(int o, int ra, int rb) override
  {
    const T &a = r[ra], &b = r[rb];
    switch (o) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a > b; case 4: return a <= b; default: return a >= b; }
  }
  int compare_num(int o, int ra, long double sl, bool left) override
  {
    const T &a = r[ra];
    const S s = S(sl);
    if (left) switch (o) { case 0: return s == a; case 1: return s != a; case 2: return s < a; case 3: return s > a; case 4: return s <= a; default: return s >= a; }
    switch (o) { case 0: return a == s; case 1: return a != s; case 2: return a < s; case 3: return a > s; case 4: return a <= s; default: return a >= s; }
  }
  void put(T &&t) { result.clear(); result.push_back(std::move(t)); }
  Outcome exec(const ops::Call &c) override
  {
    Outcome o;
    o.in_place = ops::inplace(c.op);
    HJ_TRY {
      T &x = r[c.a[0]];
      T &y = r[c.a[1]];
      T &z = r[c.a[2]];
      const S s = c.own < 0 ? S(c.s) : S(0);
      o.ref_ok = perform(x, y, z, c, s, [this](T &&t) { put(std::move(t)); });
      const T &res = o.in_place ? x : result[0];
      o.data = get(res);
      o.size = res.size();
    } HJ_CATCH {
      o.threw = true;
      o.what = HJ_WHAT;
    }
    return o;
  }
};
