// C09: construction.
#include "explore.hpp"
#include <Eigen/Core>
#include <hyperjet/hyperjet.h>
namespace hj = hyperjet;
using namespace ex;

template <class T> struct Ctor {
  using S = typename T::Scalar;
  static constexpr int O = T::order();
  static constexpr bool DYN = T::is_dynamic();
  static constexpr long N = T::static_size();
  Run &run;
  std::string nm;
  static int len(int n) { return orc::packed_len(O, n); }
  static bool valid_length(long l) // is there a number of this kind with l coefficients?
  {
    if (!DYN) return l == len(N);
    for (int n = 0; len(n) <= l; n++) if (len(n) == l) return true;
    return false;
  }
  static int size_of_length(long l) { int n = 0; while (len(n) < l) n++; return n; }
  void bad(const std::string &call, const std::string &what) { run.violation(nm + " " + call, what + " in " + nm + " " + call); }

  void expect(const std::string &call, const T &x, int n, const std::vector<S> &want)
  {
    run.count("traces");
    std::string e;
    if (x.size() != n) e = "size is " + std::to_string(x.size()) + ", expected " + std::to_string(n);
    else if (x.data_length() != len(n) || (int)x.data().size() != len(n)) e = "number of coefficients is " + std::to_string(x.data().size()) + ", expected " + std::to_string(len(n));
    else
      for (int i = 0; i < (int)want.size(); i++)
        if (!(x.data()[i] == want[i] || (std::isnan(x.data()[i]) && std::isnan(want[i])))) { std::ostringstream o; o << "coefficient " << i << " is " << x.data()[i] << ", expected " << want[i]; e = o.str(); break; }
    { Data d(want.begin(), want.end()); d.push_back(n); run.outcome(d); }
    if (!e.empty()) { bad(call, e); return; }
    // it works as an operand
    T y = x + x;
    if (y.size() != n || (int)y.data().size() != len(n)) bad(call, "the constructed number does not combine with itself");
    for (size_t i = 0; i < want.size(); i++) if (!std::isnan(want[i]) && !(y.data()[i] == want[i] + want[i])) { bad(call, "the constructed number does not combine with itself"); break; }
  }
  // run f, which may reject; `ok`: must succeed
  template <class F> void attempt(const std::string &call, bool ok, F f)
  {
    Doing now([&] { return nm + " " + call; });
    run.count("transitions");
    try {
      f();
      if (!ok) { bad(call, "an invalid request was accepted"); }
    } catch (const std::exception &e) {
      if (ok) bad(call, std::string("a valid request was rejected ('") + e.what() + "')");
      else run.count("rejections");
    }
  }
  static std::vector<S> konst(S f, int n) { std::vector<S> w(len(n), S(0)); w[0] = f; return w; }
  static std::vector<S> irregular(int l) { std::vector<S> w(l); for (int i = 0; i < l; i++) w[i] = S(irr(2, i)); return w; }
  static std::string n2s(long n) { return std::to_string(n); }

  template <size_t... I> void init_list(std::index_sequence<I...>)
  {
    static const S v[] = {S(irr(4, (int)I))..., S(0)};
    std::initializer_list<S> il = {v[I]...};
    const long l = sizeof...(I);
    attempt("initializer list of " + n2s(l), valid_length(l), [&] {
      const T x(il);
      if (valid_length(l)) expect("initializer list of " + n2s(l), x, size_of_length(l), std::vector<S>(v, v + l));
    });
  }
  template <size_t... L> void init_lists(std::index_sequence<L...>) { (init_list(std::make_index_sequence<L>()), ...); }

  void all(int maxn)
  {
    nm = "DDScalar<" + n2s(O) + "," + (sizeof(S) == 4 ? "float" : sizeof(S) == 8 ? "double" : "long double") + "," + (DYN ? "Dynamic" : n2s(N)) + ">";
    const std::vector<S> values = {S(0), S(-0.0), S(1), S(-2.5), S(1e-20), S(3e30), std::numeric_limits<S>::infinity(), std::numeric_limits<S>::quiet_NaN()};
    std::vector<long> sizes;
    for (long n = -3; n <= (DYN ? maxn : N + 4); n++) sizes.push_back(n);
    for (long n : {-1000000L, -17L}) sizes.push_back(n);
    if (!DYN) for (long n : {N + 16, 2 * N + 1, 100L, 1000000L}) sizes.push_back(n);
    auto fits = [&](long n) { return DYN ? n >= 0 : n == N; };
    const int base = DYN ? 0 : N;
    // size and length functions
    for (long s = 0; s <= 3000; s++) {
      run.count("transitions");
      const long l = O == 1 ? 1 + s : (s + 1) * (s + 2) / 2;
      if (T::data_length_from_size(s) != l) bad("data_length_from_size(" + n2s(s) + ")", "got " + n2s(T::data_length_from_size(s)));
    }
    for (long l = -5; l <= 12000; l++) {
      bool ok = false;
      long s = 0;
      for (s = O == 1 ? std::max(0L, l - 2) : std::max(0L, (long)std::sqrt(2.0 * std::max(0L, l)) - 3); (O == 1 ? 1 + s : (s + 1) * (s + 2) / 2) <= l; s++)
        if ((O == 1 ? 1 + s : (s + 1) * (s + 2) / 2) == l) { ok = true; break; }
      attempt("size_from_data_length(" + n2s(l) + ")", ok, [&] {
        const long got = T::size_from_data_length(l);
        if (ok && got != s) bad("size_from_data_length(" + n2s(l) + ")", "got " + n2s(got) + " expected " + n2s(s));
      });
    }
    for (long s : {5000L, 46339L, 46340L, 46341L, 65535L, 65536L, 100000L, 1000000L, 9999999L})
      for (long d : {-1L, 0L, 1L}) {
        const long l = (O == 1 ? 1 + s : (s + 1) * (s + 2) / 2) + d;
        const bool ok = O == 1 || d == 0;
        attempt("size_from_data_length(" + n2s(l) + ")", ok, [&] {
          const long got = T::size_from_data_length(l);
          if (ok && got != s + (O == 1 ? d : 0)) bad("size_from_data_length(" + n2s(l) + ")", "got " + n2s(got));
        });
      }
    // default, plain value
    attempt("()", true, [&] { T x; expect("()", x, base, {}); });
    attempt("empty()", true, [&] { expect("empty()", T::empty(), base, {}); });
    attempt("zero()", true, [&] { expect("zero()", T::zero(), base, konst(0, base)); });
    for (S v : values) {
      std::ostringstream o;
      o << v;
      attempt("(" + o.str() + ")", true, [&] { const T x(v); expect("(" + o.str() + ")", x, base, konst(v, base)); });
      attempt("= " + o.str(), true, [&] { T x = v; expect("= " + o.str(), x, base, konst(v, base)); x = S(7); expect("= 7", x, base, konst(7, base)); });
      attempt("constant(" + o.str() + ")", true, [&] { expect("constant(" + o.str() + ")", T::constant(v), base, konst(v, base)); });
      for (long n : sizes) {
        if (n > 12 && v != S(-2.5) && fits(n)) continue;
        const std::string c = "constant(" + o.str() + ", " + n2s(n) + ")";
        attempt(c, fits(n), [&] { const T x = T::constant(v, n); if (fits(n)) expect(c, x, n, konst(v, n)); });
      }
    }
    for (long n : sizes) {
      run.count("states");
      attempt("empty(" + n2s(n) + ")", fits(n), [&] { const T x = T::empty(n); if (fits(n)) expect("empty(" + n2s(n) + ")", x, n, {}); });
      attempt("zero(" + n2s(n) + ")", fits(n), [&] { const T x = T::zero(n); if (fits(n)) expect("zero(" + n2s(n) + ")", x, n, konst(0, n)); });
      // variables: every index around the valid range
      std::vector<long> idx = {-1000, -2, -1, 0, 1, 2};
      for (long i = n - 3; i <= n + 3; i++) idx.push_back(i);
      if (n <= 40) for (long i = 3; i < n; i++) idx.push_back(i);
      if (!DYN) { idx.push_back(N - 1); idx.push_back(N); idx.push_back(len(N) - 1); idx.push_back(1000); }
      for (long i : idx) {
        const bool ok = fits(n) && i >= 0 && i < n;
        for (S v : {S(-2.5), S(0)}) {
          const std::string c = "variable(" + n2s(i) + ", " + n2s((long)v) + ", " + n2s(n) + ")";
          auto want = [&] { auto w = konst(v, n); w[1 + i] = 1; return w; };
          attempt(c, ok, [&] { const T x = T::variable(i, v, n); if (ok) expect(c, x, n, want()); });
          if constexpr (!DYN)
            if (n == N) {
              const std::string c2 = "variable(" + n2s(i) + ", " + n2s((long)v) + ")";
              attempt(c2, ok, [&] { const T x = T::variable(i, v); if (ok) expect(c2, x, n, want()); });
            }
        }
      }
      // list of variables
      if (n >= 0 && n <= 200) {
        const std::vector<S> vals = irregular((int)n);
        const std::string c = "variables(" + n2s(n) + " values)";
        attempt(c, fits(n), [&] {
          const std::vector<T> xs = T::variables(vals);
          if (!fits(n)) return;
          if ((long)xs.size() != n) bad(c, "returned " + n2s(xs.size()) + " numbers");
          for (long i = 0; i < (long)xs.size(); i++) { auto w = konst(vals[i], n); w[1 + i] = 1; expect(c + "[" + n2s(i) + "]", xs[i], n, w); }
        });
        using V = Eigen::Matrix<S, 1, Eigen::Dynamic>;
        using M = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
        // gradient / gradient and Hessian
        if (fits(n)) {
          typename T::Vector g(n);
          for (int i = 0; i < n; i++) g(i) = S(irr(5, i));
          std::vector<S> w = konst(S(1.5), (int)n);
          for (int i = 0; i < n; i++) w[1 + i] = g(i);
          if constexpr (O == 1) {
            attempt("from_gradient", true, [&] { expect("from_gradient of " + n2s(n), T::from_gradient(S(1.5), g), n, w); });
          } else {
            typename T::Matrix h(n, n);
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) h(i, j) = i <= j ? S(irr(6, i * 200 + j)) : S(-88);
            for (int i = 0; i < n; i++) for (int j = i; j < n; j++) w[orc::hidx((int)n, i, j)] = h(i, j);
            attempt("from_arrays", true, [&] { expect("from_arrays of " + n2s(n), T::from_arrays(S(1.5), g, h), n, w); });
            if constexpr (DYN)
              for (int r = 0; r <= 4; r++)
                for (int q = 0; q <= 4; q++) {
                  if (n > 4) break;
                  const M hb = M::Constant(r, q, S(2));
                  const std::string c3 = "from_arrays(gradient of " + n2s(n) + ", matrix " + n2s(r) + "x" + n2s(q) + ")";
                  attempt(c3, r == n && q == n, [&] { T::from_arrays(S(1), V::Constant(n, S(3)), hb); });
                }
          }
        }
      }
    }
    // raw data
    if constexpr (DYN) {
      for (long l = 0; l <= (O == 1 ? 150 : 1400); l++) {
        const std::vector<S> v = irregular((int)l);
        const std::string c = "create(" + n2s(l) + " coefficients)";
        attempt(c, valid_length(l), [&] { const T x = T::create(v); if (valid_length(l)) expect(c, x, size_of_length(l), v); });
      }
      std::vector<long> about;
      for (long n = -3; n <= 12; n++) about.push_back(n);
      for (long n : {-1000L, std::numeric_limits<long>::min(), 1L << 31, 1L << 32, 1L << 40, 1L << 62, std::numeric_limits<long>::max(), 4814665733036938099L, 2790935979167403062L, 5589307981883126629L}) about.push_back(n);
      for (long n : about)
        for (long l = 0; l <= 100; l++) {
          const std::vector<S> v = irregular((int)l);
          const std::string c = "(" + n2s(l) + " coefficients, size " + n2s(n) + ")";
          const bool ok = n >= 0 && n < 1000 && l == len((int)n);
          attempt(c, ok, [&] { const T x(v, n); if (ok) expect(c, x, (int)n, v); });
        }
    } else {
      typename T::Data d;
      const auto v = irregular(len(N));
      for (int i = 0; i < len(N); i++) d[i] = v[i];
      attempt("create", true, [&] { expect("create", T::create(d), N, v); });
      attempt("(data)", true, [&] { expect("(data)", T(d), N, v); });
      const std::array<S, (N > 0 ? N : 0)> a = [] { std::array<S, (N > 0 ? N : 0)> r; for (size_t i = 0; i < r.size(); i++) r[i] = S(irr(7, (int)i)); return r; }();
      attempt("variables(array)", true, [&] {
        const auto xs = T::template variables<(N > 0 ? N : 0)>(a);
        if ((long)xs.size() != N) bad("variables(array)", "returned " + n2s(xs.size()));
        for (size_t i = 0; i < xs.size(); i++) { auto w = konst(a[i], N); w[1 + i] = 1; expect("variables(array)[" + n2s(i) + "]", xs[i], N, w); }
      });
    }
    if constexpr (DYN) {
      const std::array<S, 4> a = {S(1), S(-2), S(3.5), S(0)};
      attempt("variables(array of 4)", true, [&] {
        const auto xs = T::template variables<4>(a);
        if (xs.size() != 4) bad("variables(array of 4)", "returned " + n2s(xs.size()));
        for (size_t i = 0; i < xs.size(); i++) { auto w = konst(a[i], 4); w[1 + i] = 1; expect("variables(array of 4)[" + n2s(i) + "]", xs[i], 4, w); }
      });
    }
    init_lists(std::make_index_sequence<(N > 5 ? 4 : 32)>());
    if constexpr (!DYN && N > 5) {
      init_list(std::make_index_sequence<(O == 1 ? 1 + N : (N + 1) * (N + 2) / 2)>());
      init_list(std::make_index_sequence<(O == 1 ? 1 + N : (N + 1) * (N + 2) / 2) - 1>());
      init_list(std::make_index_sequence<(O == 1 ? 1 + N : (N + 1) * (N + 2) / 2) + 1>());
    }
    // kind and shape constants
    if (T::order() != O || T::is_dynamic() != DYN) bad("order/is_dynamic", "wrong");
    run.sample(nm + ": every creator x sizes " + n2s(sizes.front()) + ".." + n2s(sizes.back()) + " x indices x data lengths");
  }
};
template <int O, class S, long N> static void kind(Run &run)
{
  if (!run.mine()) return;
  Ctor<hj::DDScalar<O, S, N>> c{run};
  c.all(run.thorough() ? 140 : 70);
}
template <int O, class S, long... N> static void kinds(Run &run, std::integer_sequence<long, N...>) { (kind<O, S, N>(run), ...); }
#ifndef PART
#define PART 0
#endif
int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
#if PART < 6
  constexpr int O = 1 + PART / 3;
#if PART % 3 == 0
  kinds<O, double>(run, std::integer_sequence<long, -1, 0, 1, 2, 3, 4>());
#elif PART % 3 == 1
  kinds<O, double>(run, std::integer_sequence<long, 5, 6, 7, 8, 9, 10>());
#else
  kinds<O, double>(run, std::integer_sequence<long, 11, 12, 13, 14, 15, 16, 20>());
#endif
#elif PART == 6
  kinds<1, float>(run, std::integer_sequence<long, -1, 2>());
  kinds<2, float>(run, std::integer_sequence<long, -1, 2>());
#else
  kinds<1, long double>(run, std::integer_sequence<long, -1, 3>());
  kinds<2, long double>(run, std::integer_sequence<long, -1, 3>());
#endif
  return run.finish();
}
