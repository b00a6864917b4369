// Compiled in the normal and in the exception-free configuration (the latter with the namespace renamed).
#include "c14_api.hpp"
#include "subject_impl.hpp"
#include <sstream>
#include <utility>

using namespace api;
template <class T> struct Runner {
  using S = typename T::Scalar;
  static constexpr bool DYN = T::is_dynamic();
  static constexpr long N = T::static_size();
  static long len(long n) { return T::order() == 1 ? 1 + n : (n + 1) * (n + 2) / 2; }
  static void out(Reply &r, const T &x)
  {
    r.data.push_back(x.size());
    r.data.push_back(x.data().size());
    for (auto t : x.data()) r.data.push_back(t);
  }
  static T number(long n, int k)
  {
    T x = T::zero(n);
    for (long i = 0; i < len(n); i++) x.data()[i] = S(((i * 29 + k * 17) % 63 - 31) / 32.0);
    x.f() = S(k == 0 ? 0.625 : k == 1 ? 0.25 : 0.875);
    return x;
  }
  template <size_t... I> static void list(Reply &r, std::index_sequence<I...>)
  {
    static const S v[] = {S(I + 0.5)..., S(0)};
    std::initializer_list<S> il = {v[I]...};
    out(r, T(il));
  }
  template <size_t... L> static void lists(Reply &r, long n, std::index_sequence<L...>) { ((n == (long)L ? list(r, std::make_index_sequence<L>()) : void()), ...); }
  static void act(Reply &r, int sc, const Args &a, int op)
  {
    const S f = S(1.25);
    switch (sc) {
    case DEFAULT: { T x; r.data.push_back(x.size()); r.data.push_back(x.data().size()); break; }
    case PLAIN: { T x(f); out(r, x); x = S(2.5); out(r, x); break; }
    case EMPTY_N: { T x = T::empty(a.n); r.data.push_back(x.size()); r.data.push_back(x.data().size()); break; }
    case ZERO_N: out(r, T::zero(a.n)); break;
    case ZERO: out(r, T::zero()); break;
    case CONSTANT: out(r, T::constant(f)); break;
    case CONSTANT_N: out(r, T::constant(f, a.n)); break;
    case VARIABLE: if constexpr (!DYN) { out(r, T::variable(a.i, f)); } break;
    case VARIABLE_N: out(r, T::variable(a.i, f, a.n)); break;
    case VARIABLES: { std::vector<S> v; for (long i = 0; i < a.n; i++) v.push_back(S(i + 0.5)); auto x = T::variables(v); r.data.push_back(x.size()); for (auto &t : x) out(r, t); break; }
    case CREATE: if constexpr (DYN) { typename T::Data d(a.n); for (long i = 0; i < a.n; i++) d[i] = S(i + 0.5); out(r, T::create(d)); } else { typename T::Data d; d.fill(f); out(r, T::create(d)); } break;
    case RAW: if constexpr (DYN) { typename T::Data d(a.m); for (long i = 0; i < a.m; i++) d[i] = S(i + 0.5); out(r, T(d, a.n)); } else { typename T::Data d; d.fill(f); out(r, T(d)); } break;
    case LENGTHS: r.data.push_back(T::size_from_data_length(a.n)); break;
    case RESIZE: if constexpr (DYN) { T x = number(a.n, 0); x.resize(a.m); r.data.push_back(x.size()); r.data.push_back(x.data().size()); } break;
    case PAD_LEFT: if constexpr (DYN) out(r, number(a.n, 0).pad_left(a.m)); break;
    case PAD_RIGHT: if constexpr (DYN) out(r, number(a.n, 0).pad_right(a.m)); break;
    case EVAL: {
      const T x = number(a.n, 0);
      if constexpr (DYN) { std::vector<S> d(a.m); for (long i = 0; i < a.m; i++) d[i] = S(i * 0.25 - 0.5); r.data.push_back(x.eval(d)); }
      else { std::array<S, N> d; for (long i = 0; i < N; i++) d[i] = S(i * 0.25 - 0.5); r.data.push_back(x.eval(d)); }
      break;
    }
    case SET_HM: if constexpr (T::order() == 2) {
      T x = number(a.n, 0);
      using M = typename T::Matrix;
      if constexpr (DYN) { M m(a.m, a.k); for (long i = 0; i < a.m; i++) for (long j = 0; j < a.k; j++) m(i, j) = S(i * 10 + j + 0.5); x.set_hm(m); }
      else { M m; for (long i = 0; i < N; i++) for (long j = 0; j < N; j++) m(i, j) = S(i * 10 + j + 0.5); x.set_hm(m); }
      out(r, x);
    } break;
    case HM: if constexpr (T::order() == 2) {
      const T x = number(a.n, 1);
      for (const char *mode : {"full", "zeros"}) {
        const auto m = x.hm(mode);
        r.data.push_back(m.rows()); r.data.push_back(m.cols());
        for (long i = 0; i < m.rows(); i++) for (long j = 0; j < m.cols(); j++) r.data.push_back(m(i, j));
      }
    } break;
    case FROM: {
      using V = typename T::Vector;
      V g(a.n);
      for (long i = 0; i < a.n; i++) g(i) = S(i + 0.25);
      if constexpr (T::order() == 1) out(r, T::from_gradient(f, g));
      else {
        using M = typename T::Matrix;
        M m(a.m, a.k);
        for (long i = 0; i < m.rows(); i++) for (long j = 0; j < m.cols(); j++) m(i, j) = S(i * 10 + j + 0.5);
        out(r, T::from_arrays(f, g, m));
      }
      break;
    }
    case GRADIENT: { T x = number(a.n, 0); for (long i = 0; i < a.n; i++) { r.data.push_back(x.g(i)); x.set_g(i, S(7) + i); x.g(i) += 1; } for (long i = 0; i < x.ag().size(); i++) r.data.push_back(x.ag()(i)); out(r, x); break; }
    case HESSIAN: if constexpr (T::order() == 2) { T x = number(a.n, 0); for (long i = 0; i < a.n; i++) for (long j = 0; j < a.n; j++) { r.data.push_back(x.h(i, j)); x.set_h(i, j, S(7) + i * 10 + j); } for (long i = 0; i < a.n * (a.n + 1) / 2; i++) { r.data.push_back(x.h(i)); x.set_h(i, S(i)); } out(r, x); } break;
    case SET_ADATA: if constexpr (DYN) { T x = number(a.n, 0); typename T::DataVector v(a.m); for (long i = 0; i < a.m; i++) v(i) = S(i + 0.75); x.set_adata(v); out(r, x); } break;
    case INIT_LIST: lists(r, a.n, std::make_index_sequence<24>()); break;
    case PAIR: case TRIPLE: {
      const bool dyn = DYN;
      T x = number(dyn ? a.n : N, 0), y = number(dyn ? a.m : N, 1), z = number(dyn ? a.k : N, 2);
      static const double nums[] = {-1.25, 2, 3, 0.5};
      for (double s : nums) {
        if (s != -1.25 && !ops::takes_number(op)) break;
        ops::Call c{op, {0, 1, 2}, s};
        perform(x, y, z, c, S(s == -1.25 && (op == ops::LOGB) ? 7 : s), [&](T &&t) { out(r, t); });
        out(r, x);
      }
      break;
    }
    case COMPARE: {
      const T x = number(a.n, 0), y = number(a.m, 1);
      for (bool b : {x == y, x != y, x < y, x > y, x <= y, x >= y, x == S(0.625), x != S(0.625), x < S(0.625), S(0.625) >= x, S(0.5) < x, S(0.5) > x}) r.data.push_back(b);
      break;
    }
    case TEXT: {
      std::ostringstream o;
      T x = number(a.n, 0);
      o << x << x.to_string();
      for (char c : o.str()) r.data.push_back(c);
      break;
    }
    }
  }
  static Reply run(int sc, const Args &a, int op)
  {
    Reply r;
    HJ_TRY {
      act(r, sc, a, op);
      r.done = true;
    } HJ_CATCH {
      r.threw = true;
      r.what = HJ_WHAT;
    }
    return r;
  }
  static Type type(const char *sc) { return {(int)T::order(), DYN ? -1 : N, sc, &run}; }
};

#define LIST(O) \
  Runner<hj::DDScalar<O, double, -1>>::type("double"), Runner<hj::DDScalar<O, double, 0>>::type("double"), Runner<hj::DDScalar<O, double, 1>>::type("double"), \
  Runner<hj::DDScalar<O, double, 2>>::type("double"), Runner<hj::DDScalar<O, double, 3>>::type("double"), Runner<hj::DDScalar<O, double, 5>>::type("double"), \
  Runner<hj::DDScalar<O, double, 16>>::type("double"), Runner<hj::DDScalar<O, float, -1>>::type("float"), Runner<hj::DDScalar<O, float, 2>>::type("float")
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
std::vector<Type> CAT(TABLE, ORDER)() { return {LIST(ORDER)}; }

#if ORDER == 1
// sparse numbers: plain comparison of results over every operation
static Reply sparse(int sc, const Args &a, int op)
{
  using T = hj::SScalar<double>;
  Reply r;
  const char *names[] = {"x", "y", "a long name that is stored somewhere else"};
  auto number = [&](long mask, int k) { T::Data d; for (int i = 0; i < 3; i++) if (mask >> i & 1) d[names[i]] = (i + 1.5) * (k + 0.5); return T(k == 0 ? 0.625 : k == 1 ? 0.25 : 0.875, d); };
  auto put = [&](const T &x) { r.data.push_back(x.f()); r.data.push_back(x.size()); for (auto n : names) r.data.push_back(x.d(n)); };
  HJ_TRY {
    T x = number(a.n & 7, 0), y = number(a.m & 7, 1), z = number(a.k & 7, 2);
    ops::Call c{op, {0, 1, 2}, -1.25};
    perform(x, y, z, c, op == ops::LOGB ? 7.0 : -1.25, [&](T &&t) { put(t); });
    put(x);
    r.done = true;
  } HJ_CATCH {
    r.threw = true;
    r.what = HJ_WHAT;
  }
  return r;
}
Type CAT(TABLE, S)() { return {0, -1, "double", &sparse}; }
#endif
