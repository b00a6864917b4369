// Tasks for C13: every operation as a closed unit of work on read-only operands, for one type.
#pragma once
#include "subject_impl.hpp"
#include <cstring>
#include <functional>
#include <sstream>

namespace pure
{
using ops::Call;
using ops::Data;

// switched on only while code of the library runs
void on();
void off();
struct Lib { Lib() { on(); } ~Lib() { off(); } };

template <class T, class = void> struct is_dense : std::false_type {};
template <class T> struct is_dense<T, std::void_t<decltype(T::order())>> : std::true_type {};

inline const std::vector<std::string> &names()
{
  static const std::vector<std::string> n = {"x", "y", "a rather long name that does not fit into a short string buffer", "w"};
  return n;
}

template <class T> void raw(const T &x, Data &out)
{
  out.push_back(x.f());
  if constexpr (is_dense<T>::value) {
    out.push_back(x.size());
    const auto &d = x.data();
    for (size_t i = 1; i < d.size(); i++) out.push_back(d[i]);
  } else {
    out.push_back(x.size());
    for (auto &n : names()) out.push_back(x.d(n));
  }
}

// operand k of bank b; banks differ in values, derivatives or both
template <class T> T operand(int n, int k, int bank)
{
  // bank 1: same values, other derivatives; bank 2: other values, same derivatives; bank 3: both differ
  static const double v[2][3] = {{0.625, 0.25, 0.5}, {0.375, 0.75, 0.875}};
  const double f = v[(bank >> 1) & 1][k];
  auto coef = [&](int i) { return ((i * 37 + k * 11 + (bank & 1) * 53) % 64 - 31) / 16.0; };
  using S = typename T::Scalar;
  if constexpr (is_dense<T>::value) {
    Data d(T::order() == 1 ? 1 + n : (n + 1) * (n + 2) / 2, 0);
    d[0] = f;
    for (size_t i = 1; i < d.size(); i++) d[i] = coef((int)i);
    return MachineT<T>::make(d);
  } else {
    typename T::Data m;
    for (int i = 0; i < n; i++) if (((k + bank) % 3) != i) m[names()[i]] = S(coef(i + 1));
    return T(S(f), m);
  }
}

template <class T> struct Task {
  std::string name;
  Call call;
  bool is_call = false;
  std::function<void(const T *r, Data &out)> run; // appends the observed result
};

template <class T> std::vector<Task<T>> tasks(int n)
{
  using S = typename T::Scalar;
  std::vector<Task<T>> r;
  for (int o = 0; o < ops::NOPS; o++) {
    const int ar = ops::arity(o);
    std::vector<double> nums = {0};
    if (o == ops::POW || o == ops::POW_F) nums = {-1.5, 2};
    else if (o == ops::POWI_F) nums = {3};
    else if (o == ops::LOGB) nums = {3, 10};
    else if (ops::takes_number(o)) nums = {-1.25};
    for (double s : nums)
      for (int self = 0; self < (ar > 1 ? 2 : 1); self++) {
        Call c{o, {0, self ? 0 : 1, self ? 0 : 2}, s};
        Task<T> t;
        t.name = c.str();
        t.call = c;
        t.is_call = true;
        t.run = [c](const T *r, Data &out) {
          auto put = [&](T &&x) { off(); raw(x, out); on(); };
          if (ops::inplace(c.op)) {
            on();
            T copy = r[0]; // the copy is private to this task
            perform(copy, c.a[1] == 0 ? copy : const_cast<T &>(r[c.a[1]]), copy, c, S(c.s), put);
            off();
            raw(copy, out);
          } else {
            on();
            perform(const_cast<T &>(r[c.a[0]]), const_cast<T &>(r[c.a[1]]), const_cast<T &>(r[c.a[2]]), c, S(c.s), put);
            off();
          }
        };
        r.push_back(t);
      }
  }
  auto add = [&](const char *name, auto f) { Task<T> t; t.name = name; t.run = f; r.push_back(t); };
  add("compare", [](const T *r, Data &out) {
    bool b[12];
    { Lib l; b[0] = r[0] == r[1]; b[1] = r[0] != r[1]; b[2] = r[0] < r[1]; b[3] = r[0] > r[1]; b[4] = r[0] <= r[1]; b[5] = r[0] >= r[1];
      b[6] = r[0] == S(0.5); b[7] = S(0.5) != r[0]; b[8] = r[0] < S(0.5); b[9] = S(0.5) > r[0]; b[10] = r[0] <= S(0.5); b[11] = S(0.5) >= r[0]; }
    for (bool x : b) out.push_back(x);
  });
  add("text", [](const T *r, Data &out) {
    std::string s;
    { Lib l; std::ostringstream o; o << r[0]; s = o.str(); }
    for (char c : s) out.push_back(c);
  });
  add("to_string", [](const T *r, Data &out) {
    std::string s;
    { Lib l; s = const_cast<T &>(r[0]).to_string(); }
    for (char c : s) out.push_back(c);
  });
  add("copy", [](const T *r, Data &out) {
    on();
    { T a = r[0]; T b = r[1]; b = a; T c = std::move(a); c = c + b; off(); raw(b, out); raw(c, out); on(); }
    off();
  });
  add("constant", [n](const T *, Data &out) {
    on();
    if constexpr (!is_dense<T>::value) { T c = T::constant(S(3.5)); off(); raw(c, out); on(); }
    else if constexpr (T::is_dynamic()) { T c = T::constant(S(3.5), n); off(); raw(c, out); on(); }
    else { T c = T::constant(S(3.5)); off(); raw(c, out); on(); }
    off();
  });
  if constexpr (is_dense<T>::value) {
    add("variables", [n](const T *r, Data &out) {
      std::vector<S> v;
      for (int i = 0; i < n; i++) v.push_back(r[0].f() + i);
      on();
      { auto x = T::variables(v); off(); for (auto &t : x) raw(t, out); on(); }
      off();
    });
    if (n > 0) add("variable", [n](const T *, Data &out) {
      on();
      if constexpr (T::is_dynamic()) { T c = T::variable(n - 1, S(2.5), n); off(); raw(c, out); on(); }
      else { T c = T::variable(n - 1, S(2.5)); off(); raw(c, out); on(); }
      off();
    });
    add("eval", [n](const T *r, Data &out) {
      if constexpr (T::is_dynamic()) {
        std::vector<S> v(n, S(0.5));
        on(); const S x = r[0].eval(v); off();
        out.push_back(x);
      } else {
        std::array<S, T::static_size()> v;
        v.fill(S(0.5));
        on(); const S x = r[0].eval(v); off();
        out.push_back(x);
      }
    });
    add("read", [n](const T *r, Data &out) {
      for (int i = 0; i < n; i++) {
        on(); const S g = r[0].g(i); off();
        out.push_back(g);
        if constexpr (T::order() == 2)
          for (int j = 0; j < n; j++) { on(); const S h = r[0].h(i, j); off(); out.push_back(h); }
      }
    });
    if constexpr (T::order() == 2) add("hm", [](const T *r, Data &out) {
      on();
      { auto m = r[0].hm("full"); auto z = r[0].hm("zeros"); off();
        for (long i = 0; i < m.rows(); i++) for (long j = 0; j < m.cols(); j++) { out.push_back(m(i, j)); out.push_back(z(i, j)); }
        on(); }
      off();
    });
    if constexpr (T::is_dynamic()) {
      add("pad_right", [n](const T *r, Data &out) { on(); { T x = r[0].pad_right(n + 2); off(); raw(x, out); on(); } off(); });
      add("pad_left", [n](const T *r, Data &out) { on(); { T x = r[0].pad_left(n + 2); off(); raw(x, out); on(); } off(); });
      add("other size", [n](const T *, Data &out) {
        on();
        { T x = T::variable(0, S(0.5), n + 1); T y = T::variable(n, S(0.25), n + 1); T z = x.atan2(y) * x; off(); raw(z, out); on(); }
        off();
      });
    }
  } else {
    add("variable", [](const T *, Data &out) { on(); { T c = T::variable(names()[2], S(2.5)); off(); raw(c, out); on(); } off(); });
    add("eval", [](const T *r, Data &out) {
      typename T::Data m;
      for (auto &n : names()) m[n] = S(0.5);
      on(); const S x = r[0].eval(m); off();
      out.push_back(x);
    });
  }
  return r;
}
}
