// C07: every way to read and write coefficients, all histories to a depth, against a shadow vector.
#include "explore.hpp"
#include <Eigen/Core>
#include <hyperjet/hyperjet.h>
namespace hj = hyperjet;
using namespace ex;

template <class T> struct Access {
  using S = typename T::Scalar;
  static constexpr int O = T::order();
  Run &run;
  int n;
  std::string nm;
  using Shadow = std::vector<S>;
  struct Write { std::string name; std::function<void(T &, Shadow &)> act; };
  std::vector<Write> writes;

  int len() const { return orc::packed_len(O, n); }
  static T make(const Shadow &s)
  {
    typename T::Data d;
    if constexpr (T::is_dynamic()) d.resize(s.size());
    for (size_t i = 0; i < s.size(); i++) d[i] = s[i];
    return T::create(d);
  }
  // values: the history position makes every written value distinct
  S val = 1;
  S next() { val += S(0.5); return val; }

  void menu(bool all_indices)
  {
    auto add = [&](std::string s, std::function<void(T &, Shadow &)> f) { writes.push_back({s, f}); };
    add("set_f", [this](T &x, Shadow &s) { x.set_f(s[0] = next()); });
    add("f()=", [this](T &x, Shadow &s) { x.f() = s[0] = next(); });
    auto pick = [&](int i, int m) { return all_indices || i < 2 || i >= m - 2 || i == m / 2; };
    for (int i = 0; i < n; i++) {
      if (!pick(i, n)) continue;
      const std::string t = "(" + std::to_string(i) + ")";
      add("set_g" + t, [this, i](T &x, Shadow &s) { x.set_g(i, s[1 + i] = next()); });
      add("g" + t + "=", [this, i](T &x, Shadow &s) { x.g(i) = s[1 + i] = next(); });
      add("ag()" + t + "=", [this, i](T &x, Shadow &s) { x.ag()(i) = s[1 + i] = next(); });
    }
    add("ag()=vector", [this](T &x, Shadow &s) {
      Eigen::Matrix<S, 1, Eigen::Dynamic> v(n);
      for (int i = 0; i < n; i++) v(i) = s[1 + i] = next();
      x.ag() = v;
    });
    for (int k = 0; k < len(); k++) {
      if (!pick(k, len())) continue;
      const std::string t = "[" + std::to_string(k) + "]";
      add("data()" + t + "=", [this, k](T &x, Shadow &s) { x.data()[k] = s[k] = next(); });
      add("ptr()" + t + "=", [this, k](T &x, Shadow &s) { x.ptr()[k] = s[k] = next(); });
      add("adata()" + t + "=", [this, k](T &x, Shadow &s) { x.adata()(k) = s[k] = next(); });
    }
    add("set_adata", [this](T &x, Shadow &s) {
      typename T::DataVector v(len());
      for (int k = 0; k < len(); k++) v(k) = s[k] = next();
      x.set_adata(v);
    });
    add("set_zero", [this](T &x, Shadow &s) { x.set_zero(); std::fill(s.begin(), s.end(), S(0)); });
    add("=other", [this](T &x, Shadow &s) {
      for (auto &t : s) t = next();
      const T y = make(s);
      x = y;
    });
    add("=move", [this](T &x, Shadow &s) {
      for (auto &t : s) t = next();
      x = make(s);
    });
    add("=itself", [](T &x, Shadow &) { T &y = x; x = y; });
    add("copy, then change the original", [this](T &x, Shadow &s) {
      T y = x;
      x.data()[0] = next();
      if (n) x.g(0) = next();
      x = y; // the copy must not have changed
      (void)s;
    });
    if constexpr (T::is_dynamic()) {
      add("resize to the same size", [this](T &x, Shadow &) { x.resize(n); });
      add("resize and back, then zero", [this](T &x, Shadow &s) {
        for (int k : {n + 1, n > 0 ? n - 1 : 3}) {
          x.resize(k);
          if (x.size() != k || x.data_length() != orc::packed_len(O, k) || (int)x.data().size() != orc::packed_len(O, k))
            run.violation(nm + " resize", nm + ": resize(" + std::to_string(k) + ") gives size " + std::to_string(x.size()) + " with " + std::to_string(x.data().size()) + " coefficients");
        }
        x.resize(n);
        x.set_zero();
        std::fill(s.begin(), s.end(), S(0));
      });
    }
    if constexpr (O == 2) {
      for (int i = 0, k = 0; i < n; i++)
        for (int j = i; j < n; j++, k++) {
          if (!(pick(i, n) && pick(j, n))) continue;
          const int at = orc::hidx(n, i, j);
          const std::string t = "(" + std::to_string(i) + "," + std::to_string(j) + ")", tt = "(" + std::to_string(j) + "," + std::to_string(i) + ")";
          add("set_h" + t, [this, i, j, at](T &x, Shadow &s) { x.set_h(i, j, s[at] = next()); });
          add("h" + tt + "=", [this, i, j, at](T &x, Shadow &s) { x.h(j, i) = s[at] = next(); });
          if (i != j) {
            add("set_h" + tt, [this, i, j, at](T &x, Shadow &s) { x.set_h(j, i, s[at] = next()); });
            add("h" + t + "=", [this, i, j, at](T &x, Shadow &s) { x.h(i, j) = s[at] = next(); });
          }
          const std::string l = "[" + std::to_string(k) + "]";
          add("set_h" + l, [this, k, at](T &x, Shadow &s) { x.set_h(k, s[at] = next()); });
          add("h" + l + "=", [this, k, at](T &x, Shadow &s) { x.h(k) = s[at] = next(); });
        }
      add("set_hm(upper, junk below)", [this](T &x, Shadow &s) {
        typename T::Matrix m(n, n);
        for (int i = 0; i < n; i++)
          for (int j = 0; j < n; j++) m(i, j) = i <= j ? (s[orc::hidx(n, i, j)] = next()) : S(-99);
        x.set_hm(m);
      });
    }
  }
  std::string check(T &x, const Shadow &s)
  {
    const T &c = x;
    auto bad = [&](std::string w, int i, S want, S got) { std::ostringstream o; o << w << " at " << i << ": expected " << want << " got " << got; return o.str(); };
    if (c.size() != n) return "size() is " + std::to_string(c.size());
    if (c.data_length() != len() || (int)c.data().size() != len() || (int)x.data().size() != len()) return "number of stored coefficients is " + std::to_string(c.data().size());
    if (!(c.f() == s[0])) return bad("f() const", 0, s[0], c.f());
    if (!(x.f() == s[0])) return bad("f()", 0, s[0], x.f());
    for (int i = 0; i < n; i++) {
      if (!(c.g(i) == s[1 + i])) return bad("g(i) const", i, s[1 + i], c.g(i));
      if (!(x.g(i) == s[1 + i])) return bad("g(i)", i, s[1 + i], x.g(i));
    }
    {
      const auto a = c.ag();
      const auto b = x.ag();
      if (a.size() != n || b.size() != n) return "ag() has " + std::to_string(a.size()) + " entries";
      for (int i = 0; i < n; i++) { if (!(a(i) == s[1 + i])) return bad("ag() const", i, s[1 + i], a(i)); if (!(b(i) == s[1 + i])) return bad("ag()", i, s[1 + i], b(i)); }
    }
    {
      const auto a = x.adata();
      if (a.size() != len()) return "adata() has " + std::to_string(a.size()) + " entries";
      for (int k = 0; k < len(); k++) {
        if (!(a(k) == s[k])) return bad("adata()", k, s[k], a(k));
        if (!(c.data()[k] == s[k])) return bad("data()", k, s[k], c.data()[k]);
        if (!(c.ptr()[k] == s[k]) || x.ptr() != c.ptr()) return bad("ptr()", k, s[k], c.ptr()[k]);
      }
    }
    if constexpr (O == 2) {
      for (int i = 0, k = 0; i < n; i++)
        for (int j = i; j < n; j++, k++) {
          const S w = s[orc::hidx(n, i, j)];
          if (!(c.h(k) == w)) return bad("h(k) const", k, w, c.h(k));
          if (!(x.h(k) == w)) return bad("h(k)", k, w, x.h(k));
          if (!(c.h(i, j) == w)) return bad("h(i,j) const", k, w, c.h(i, j));
          if (!(c.h(j, i) == w)) return bad("h(j,i) const", k, w, c.h(j, i));
          if (!(x.h(i, j) == w)) return bad("h(i,j)", k, w, x.h(i, j));
          if (!(x.h(j, i) == w)) return bad("h(j,i)", k, w, x.h(j, i));
        }
      const auto full = c.hm("full"), zeros = c.hm("zeros");
      typename T::Matrix out(n, n);
      out.setConstant(S(-77));
      c.hm("full", out);
      if (full.rows() != n || full.cols() != n || zeros.rows() != n || zeros.cols() != n) return "hm() has a wrong shape";
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
          const S w = s[orc::hidx(n, i, j)];
          if (!(full(i, j) == w)) return bad("hm(full)", i * n + j, w, full(i, j));
          if (!(out(i, j) == w)) return bad("hm(full, out)", i * n + j, w, out(i, j));
          if (!(zeros(i, j) == (i <= j ? w : S(0)))) return bad("hm(zeros)", i * n + j, i <= j ? w : S(0), zeros(i, j));
        }
      bool threw = false;
      try { c.hm("upper"); } catch (const std::exception &) { threw = true; }
      if (!threw) return "an unknown mode of hm() is accepted";
    }
    return "";
  }
  std::vector<std::string> path;
  bool verify(T &x, const Shadow &s)
  {
    auto desc = [&] { std::string p; for (auto &w : path) p += (p.empty() ? "" : "; ") + w; return nm + " after " + p; };
    std::string e;
    { Doing now(desc); e = check(x, s); }
    run.count("transitions");
    { Data d(s.begin(), s.end()); run.outcome(d); }
    if (e.empty()) return true;
    const std::string d = desc();
    run.violation(d, e + " in " + d);
    return false;
  }
  void go(const T &x, const Shadow &s, int depth)
  {
    if (!depth) { run.count("traces"); return; }
    for (auto &w : writes) {
      T y = x;
      Shadow t = s;
      path.push_back(w.name);
      {
        Doing now([&] { return nm + " during " + w.name; });
        w.act(y, t);
      }
      run.count("states");
      if (verify(y, t)) go(y, t, depth - 1);
      path.pop_back();
    }
  }
  void explore(int depth, bool all)
  {
    nm = "DDScalar<" + std::to_string(O) + "," + (sizeof(S) == 4 ? "float" : "double") + "," + (T::is_dynamic() ? "Dynamic" : std::to_string(n)) + "> n=" + std::to_string(n);
    menu(all);
    Shadow s(len());
    for (auto &t : s) t = next();
    T x = make(s);
    path.push_back("construction");
    if (verify(x, s)) go(x, s, depth);
    run.sample(nm + ": all histories of " + std::to_string(depth) + " writes from " + std::to_string(writes.size()) + " kinds of write, all reads after each");
  }
};

template <class T> static void one(Run &run, int n, int depth, bool all = true)
{
  if (!run.mine()) return;
  Access<T> a{run, n};
  a.explore(depth, all);
}
template <int O, long... N> static void all_static(Run &run, std::integer_sequence<long, N...>)
{
  ([&] { one<hj::DDScalar<O, double, N>>(run, N, N <= (run.thorough() ? 2 : 1) ? 3 : N <= 6 ? 2 : N <= 12 && O == 1 ? 2 : 1); }(), ...);
}
#ifndef PART
#define PART 0
#endif
int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
#if PART == 0
  all_static<1>(run, std::integer_sequence<long, 0, 1, 2, 3, 4, 5, 6, 7, 8>());
#elif PART == 1
  all_static<1>(run, std::integer_sequence<long, 9, 10, 11, 12, 13, 14, 15, 16, 20>());
  one<hj::DDScalar<1, float, 3>>(run, 3, 2);
#elif PART == 2
  all_static<2>(run, std::integer_sequence<long, 0, 1, 2, 3, 4, 5>());
  one<hj::DDScalar<2, float, 2>>(run, 2, 2);
#elif PART == 3
  all_static<2>(run, std::integer_sequence<long, 6, 7, 8, 9, 10>());
#elif PART == 4
  all_static<2>(run, std::integer_sequence<long, 11, 12, 13, 14, 15, 16, 20>());
#else
  const bool th = run.thorough();
  for (int n = 0; n <= 40; n++) {
    one<hj::DDScalar<1, double, -1>>(run, n, n <= 1 ? 3 : n <= 8 ? 2 : 1);
    one<hj::DDScalar<2, double, -1>>(run, n, n <= (th ? 2 : 1) ? 3 : n <= (th ? 7 : 5) ? 2 : 1);
  }
  for (int n : {63, 64, 65, 128, 257}) {
    one<hj::DDScalar<1, double, -1>>(run, n, 1);
    one<hj::DDScalar<2, double, -1>>(run, n, 1, false);
  }
  one<hj::DDScalar<2, float, -1>>(run, 3, 2);
  one<hj::DDScalar<2, long double, -1>>(run, 3, 2);
#endif
  return run.finish();
}
