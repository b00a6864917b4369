// C20: every history of calls, valid or not, under address and undefined-behaviour checking. Built twice: with assertions (accessors check
// their indices) and without (accessors get valid indices only; sizes, lengths and shapes stay arbitrary).
#include <csetjmp>
#include <memory>
#include "explore.hpp"
#include <Eigen/Core>
#include <hyperjet/hyperjet.h>
namespace hj = hyperjet;
using namespace ex;

static jmp_buf on_assert;
static bool armed = false;
#ifndef NDEBUG
[[noreturn]] void verif_assertion_failed(const char *what)
{
  if (armed) longjmp(on_assert, 1);
  fprintf(stderr, "assertion outside of an explored call: %s\n", what);
  abort();
}
#define ASSERTIONS true
#else
#define ASSERTIONS false
#endif

#ifndef SC
#define SC double
#endif

using Eigen::Index;

template <class T> struct World {
  std::unique_ptr<T> a, b; // on the heap: between red zones
};

template <class T> struct Op {
  std::string name;
  std::function<void(World<T> &)> run;
  bool core = false; // in the alphabet of the longer histories
  bool single = false; // depends on the first number only
};

static volatile long double sink;

template <class T> struct Memory {
  using S = typename T::Scalar;
  static constexpr int O = T::order();
  static constexpr bool DYN = T::is_dynamic();
  static constexpr long N = T::static_size();
  using V = typename T::Vector;
  using M = typename T::Matrix;
  using DV = typename T::DataVector;
  Run &run;
  std::string nm;
  std::vector<Op<T>> ops;
  static std::string s(long n) { return std::to_string(n); }
  bool single = false;
  void op(const std::string &name, std::function<void(World<T> &)> f, bool core = false) { ops.push_back({name, std::move(f), core, single && !core}); }

  static void fill(T &x)
  {
    for (long i = 0; i < (long)x.data().size(); i++) x.data()[i] = S(0.25) + S(i) / 64;
  }
  // arguments live on the heap too, with their exact size
  static std::unique_ptr<std::vector<S>> vec(long l) { auto v = std::make_unique<std::vector<S>>(l); for (long i = 0; i < l; i++) (*v)[i] = S(i + 1) / 8; return v; }

  void build()
  {
    const std::vector<long> sizes = DYN ? std::vector<long>{0, 1, 2, 3, 4, -1, -2, 5, 7} : std::vector<long>{N, N - 1, N + 1, 0, -1, 2 * N + 3};
    const std::vector<long> few = DYN ? std::vector<long>{0, 1, 2, 3, 4, -1} : std::vector<long>{N, N + 1, N - 1};
    // --- creation
    op("a = T()", [](auto &w) { *w.a = T(); }, true);
    op("a = new T()", [](auto &w) { w.a.reset(new T()); fill(*w.a); }, true);
    op("a = T(2.5)", [](auto &w) { *w.a = T(S(2.5)); }, true);
    op("a = 1.5", [](auto &w) { *w.a = S(1.5); });
    op("a = empty()", [](auto &w) { *w.a = T::empty(); w.a->set_zero(); });
    op("a = zero()", [](auto &w) { *w.a = T::zero(); }, true);
    op("a = constant(2)", [](auto &w) { *w.a = T::constant(2); });
    for (long k : sizes) {
      const bool core = DYN && (k == 0 || k == 2 || k == 4);
      op("a = empty(" + s(k) + ")", [k](auto &w) { *w.a = T::empty(k); fill(*w.a); }, core);
      op("a = zero(" + s(k) + ")", [k](auto &w) { *w.a = T::zero(k); }, core);
      op("a = constant(2, " + s(k) + ")", [k](auto &w) { *w.a = T::constant(2, k); });
      for (long i : {0L, 1L, k - 1, k, k + 1, -1L, -2L, 1000L}) op("a = variable(" + s(i) + ", 2, " + s(k) + ")", [k, i](auto &w) { *w.a = T::variable(i, 2, k); }, core && i == 0);
      if (k >= 0) {
        op("a = variables(" + s(k) + " values).back()", [k](auto &w) { auto v = T::variables(*vec(k)); if (!v.empty()) *w.a = v.back(); });
        op("variables(" + s(k) + " values) used", [k](auto &w) { auto v = T::variables(*vec(k)); for (auto &x : v) *w.a = x * x + x; });
      }
    }
    if constexpr (!DYN) {
      for (long i = -2; i <= N + 2; i++) op("a = variable(" + s(i) + ", 2)", [i](auto &w) { *w.a = T::variable(i, 2); });
      op("a = variables(array)", [](auto &w) { std::array<S, (N > 0 ? N : 0)> x{}; auto v = T::template variables<(N > 0 ? N : 0)>(x); for (auto &y : v) *w.a = y * y; }, true);
      op("a = T(data)", [](auto &w) { typename T::Data d{}; *w.a = T(d); });
      op("a = create(data)", [](auto &w) { typename T::Data d{}; *w.a = T::create(d); });
    } else {
      op("a = variables(array of 2).back()", [](auto &w) { std::array<S, 2> x{}; auto v = T::template variables<2>(x); *w.a = v.back(); });
      op("a = variables(array of 0)", [](auto &w) { std::array<S, 0> x{}; auto v = T::template variables<0>(x); sink = v.size(); });
      for (long l = 0; l <= 11; l++) op("a = create(" + s(l) + " coefficients)", [l](auto &w) { *w.a = T::create(*vec(l)); }, l == 6);
      for (long k = -2; k <= 4; k++)
        for (long l = 0; l <= 11; l++) op("a = T(" + s(l) + " coefficients, " + s(k) + ")", [l, k](auto &w) { *w.a = T(*vec(l), k); });
      for (long k : {4814665733036938099L, 2790935979167403062L, 5589307981883126629L, std::numeric_limits<long>::max(), std::numeric_limits<long>::min()})
        op("a = T(1 coefficient, " + s(k) + ")", [k](auto &w) { *w.a = T(*vec(1), k); });
    }
    op("a = {}", [](auto &w) { w.a.reset(new T(std::initializer_list<S>{})); });
    op("a = {1}", [](auto &w) { w.a.reset(new T(std::initializer_list<S>{1})); });
    op("a = {1,2}", [](auto &w) { w.a.reset(new T(std::initializer_list<S>{1, 2})); });
    op("a = {1,2,3}", [](auto &w) { w.a.reset(new T(std::initializer_list<S>{1, 2, 3})); }, DYN);
    op("a = {1,2,3,4}", [](auto &w) { w.a.reset(new T(std::initializer_list<S>{1, 2, 3, 4})); });
    op("a = {1,2,3,4,5,6}", [](auto &w) { w.a.reset(new T(std::initializer_list<S>{1, 2, 3, 4, 5, 6})); });
    // --- copies
    op("a = b", [](auto &w) { *w.a = *w.b; }, true);
    op("b = a", [](auto &w) { *w.b = *w.a; }, true);
    op("a = a", [](auto &w) { T &r = *w.a; *w.a = r; }, true);
    op("a = copy of b", [](auto &w) { w.a.reset(new T(*w.b)); }, true);
    op("a = move(b), b = a", [](auto &w) { *w.a = std::move(*w.b); *w.b = *w.a; }, true);
    op("a = T(move(b)), b = new", [](auto &w) { w.a.reset(new T(std::move(*w.b))); w.b.reset(new T(*w.a)); }, true);
    op("swap(a, b)", [](auto &w) { std::swap(*w.a, *w.b); }, true);
    op("swap pointers", [](auto &w) { std::swap(w.a, w.b); }, true);
    op("vector of copies", [](auto &w) { std::vector<T> v; for (int i = 0; i < 3; i++) { v.push_back(*w.a); v.push_back(*w.b); } v.erase(v.begin()); v.insert(v.begin(), v.back()); *w.a = v[0]; });
    // --- sizes
    if constexpr (DYN) {
      for (long k : {0L, 1L, 2L, 3L, 4L, 6L, -1L, -5L}) {
        op("a.resize(" + s(k) + ")", [k](auto &w) { w.a->resize(k); fill(*w.a); }, k <= 4 && k >= -1);
        op("a = a.pad_left(" + s(k) + ")", [k](auto &w) { *w.a = w.a->pad_left(k); }, k <= 4 && k >= -1);
        op("a = a.pad_right(" + s(k) + ")", [k](auto &w) { *w.a = w.a->pad_right(k); }, k <= 4 && k >= -1);
      }
      // sizes whose number of coefficients overflows or cannot be allocated. (Sizes the allocator could really be asked for are left out.)
      for (long k : {4814665733036938099L, 2790935979167403062L, 5589307981883126629L, 1L << 62, std::numeric_limits<long>::max(), std::numeric_limits<long>::max() - 1, std::numeric_limits<long>::min()}) {
        op("a.resize(" + s(k) + ")", [k](auto &w) { w.a->resize(k); }, k == 1L << 62);
        op("a = a.pad_left(" + s(k) + ")", [k](auto &w) { *w.a = w.a->pad_left(k); });
        op("a = a.pad_right(" + s(k) + ")", [k](auto &w) { *w.a = w.a->pad_right(k); });
        op("a = zero(" + s(k) + ")", [k](auto &w) { *w.a = T::zero(k); });
        op("a = empty(" + s(k) + ")", [k](auto &w) { *w.a = T::empty(k); });
        op("a = constant(1, " + s(k) + ")", [k](auto &w) { *w.a = T::constant(1, k); });
        op("a = variable(5, 1, " + s(k) + ")", [k](auto &w) { *w.a = T::variable(5, 1, k); });
      }
    }
    // --- combinations
    struct Two { const char *n; void (*f)(T &, const T &); };
    const Two two[] = {{"+", [](T &a, const T &b) { a = a + b; }}, {"-", [](T &a, const T &b) { a = a - b; }}, {"*", [](T &a, const T &b) { a = a * b; }}, {"/", [](T &a, const T &b) { a = a / b; }},
                       {"+=", [](T &a, const T &b) { a += b; }}, {"-=", [](T &a, const T &b) { a -= b; }}, {"*=", [](T &a, const T &b) { a *= b; }}, {"/=", [](T &a, const T &b) { a /= b; }},
                       {"atan2", [](T &a, const T &b) { a = a.atan2(b); }}, {"hj::atan2", [](T &a, const T &b) { a = hj::atan2(a, b); }}, {"hypot", [](T &a, const T &b) { a = T::hypot(a, b); }},
                       {"hj::hypot", [](T &a, const T &b) { a = hj::hypot(a, b); }}, {"hypot(a,b,a)", [](T &a, const T &b) { a = T::hypot(a, b, a); }}, {"hypot(a,a,b)", [](T &a, const T &b) { a = T::hypot(a, a, b); }},
                       {"hypot(b,a,a)", [](T &a, const T &b) { a = hj::hypot(b, a, a); }}, {"compare", [](T &a, const T &b) { sink = (a < b) + (a > b) + (a <= b) + (a >= b) + (a == b) + (a != b); }}};
    for (auto &t : two) {
      const bool core = strchr("+*", t.n[0]) || !strcmp(t.n, "/=");
      op(std::string("a ") + t.n + " b", [f = t.f](auto &w) { f(*w.a, *w.b); }, core);
      op(std::string("a ") + t.n + " a", [f = t.f](auto &w) { f(*w.a, *w.a); }, core);
    }
    struct One { const char *n; T (*f)(const T &); };
    const One one[] = {{"-", [](const T &a) { return -a; }}, {"reciprocal", [](const T &a) { return a.reciprocal(); }}, {"sqrt", [](const T &a) { return a.sqrt(); }}, {"cbrt", [](const T &a) { return a.cbrt(); }},
                       {"cos", [](const T &a) { return a.cos(); }}, {"sin", [](const T &a) { return a.sin(); }}, {"tan", [](const T &a) { return a.tan(); }}, {"acos", [](const T &a) { return a.acos(); }},
                       {"asin", [](const T &a) { return a.asin(); }}, {"atan", [](const T &a) { return a.atan(); }}, {"cosh", [](const T &a) { return a.cosh(); }}, {"sinh", [](const T &a) { return a.sinh(); }},
                       {"tanh", [](const T &a) { return a.tanh(); }}, {"acosh", [](const T &a) { return a.acosh(); }}, {"asinh", [](const T &a) { return a.asinh(); }}, {"atanh", [](const T &a) { return a.atanh(); }},
                       {"exp", [](const T &a) { return a.exp(); }}, {"log", [](const T &a) { return a.log(); }}, {"log(2)", [](const T &a) { return a.log(S(2)); }}, {"log2", [](const T &a) { return a.log2(); }},
                       {"log10", [](const T &a) { return a.log10(); }}, {"abs", [](const T &a) { return a.abs(); }}, {"pow(0)", [](const T &a) { return a.pow(0.0); }}, {"pow(2.5)", [](const T &a) { return a.pow(2.5); }},
                       {"+2", [](const T &a) { return a + S(2); }}, {"2+", [](const T &a) { return S(2) + a; }}, {"-2", [](const T &a) { return a - S(2); }}, {"2-", [](const T &a) { return S(2) - a; }},
                       {"*2", [](const T &a) { return a * S(2); }}, {"2*", [](const T &a) { return S(2) * a; }}, {"/2", [](const T &a) { return a / S(2); }}, {"2/", [](const T &a) { return S(2) / a; }},
                       {"hj::sqrt", [](const T &a) { using hj::sqrt; return sqrt(a); }}, {"hj::exp", [](const T &a) { using hj::exp; return exp(a); }}, {"hj::pow", [](const T &a) { using hj::pow; return pow(a, S(1.5)); }}};
    for (auto &t : one) op(std::string("a = ") + t.n + "(a)", [f = t.f](auto &w) { *w.a = f(*w.a); }, !strcmp(t.n, "-") || !strcmp(t.n, "sqrt") || !strcmp(t.n, "abs"));
    op("a += 2", [](auto &w) { *w.a += S(2); });
    op("a -= 2", [](auto &w) { *w.a -= S(2); });
    op("a *= 2", [](auto &w) { *w.a *= S(2); }, true);
    op("a /= 2", [](auto &w) { *w.a /= S(2); });
    op("a *= a.f()", [](auto &w) { *w.a *= w.a->f(); });
    // --- access
    op("set_zero", [](auto &w) { w.a->set_zero(); }, true);
    op("text", [](auto &w) { std::ostringstream o; o << *w.a; sink = o.str().size() + w.a->to_string().size(); });
    op("set_f, f, ptr", [](auto &w) { w.a->set_f(3); w.a->f() = 4; const T &c = *w.a; sink = c.f() + c.ptr()[0] + w.a->ptr()[c.data_length() - 1]; });
    op("views", [](auto &w) {
      const T &c = *w.a;
      sink = c.ag().sum() + w.a->ag().sum() + w.a->adata().sum();
      w.a->ag().setConstant(S(0.5));
      w.a->adata() *= S(2);
      sink = c.ag().size() + c.data().size();
    }, true);
    std::vector<long> idx;
    for (long i = -3; i <= (DYN ? 7 : N + 3); i++) idx.push_back(i);
    for (long i : {-1000L, 100000L, 1L << 33, -(1L << 33), std::numeric_limits<long>::max(), std::numeric_limits<long>::min()}) idx.push_back(i);
    auto guard1 = [](const T &x, long i) { return ASSERTIONS || (i >= 0 && i < x.size()); };
    auto guardh = [](const T &x, long i) { return ASSERTIONS || (O == 2 && i >= 0 && i < x.size() * (x.size() + 1) / 2); };
    single = true;
    for (long i : idx) {
      op("g(" + s(i) + ")", [=](auto &w) { const T &c = *w.a; if (guard1(c, i)) sink = c.g(i); });
      op("g(" + s(i) + ") = 1", [=](auto &w) { if (guard1(*w.a, i)) w.a->g(i) = 1; }, i == 0);
      op("set_g(" + s(i) + ")", [=](auto &w) { if (guard1(*w.a, i)) w.a->set_g(i, 1); });
      op("h(" + s(i) + ")", [=](auto &w) { const T &c = *w.a; if (guardh(c, i)) sink = c.h(i); });
      op("h(" + s(i) + ") = 1", [=](auto &w) { if (guardh(*w.a, i)) w.a->h(i) = 1; });
      op("set_h(" + s(i) + ")", [=](auto &w) { if (guardh(*w.a, i)) w.a->set_h(i, 1); });
      for (long j : idx) {
        auto g2 = [=](const T &x) { return ASSERTIONS || (O == 2 && i >= 0 && i < x.size() && j >= 0 && j < x.size()); };
        op("h(" + s(i) + "," + s(j) + ")", [=](auto &w) { const T &c = *w.a; if (g2(c)) sink = c.h(i, j); });
        op("h(" + s(i) + "," + s(j) + ") = 1", [=](auto &w) { if (g2(*w.a)) w.a->h(i, j) = 1; });
        op("set_h(" + s(i) + "," + s(j) + ")", [=](auto &w) { if (g2(*w.a)) w.a->set_h(i, j, 1); }, i == 0 && j == 0);
      }
    }
    single = false;
    // --- vectors and matrices
    if constexpr (DYN) {
      for (long k = 0; k <= 7; k++) {
        op("eval(" + s(k) + " offsets)", [k](auto &w) { sink = w.a->eval(*vec(k)); }, k == 2);
        if constexpr (O == 1) op("a = from_gradient(" + s(k) + ")", [k](auto &w) { const auto g = std::make_unique<V>(V::Constant(k, S(3))); *w.a = T::from_gradient(1, *g); }, k == 2);
      }
      for (long l = 0; l <= 11; l++) op("set_adata(" + s(l) + ")", [l](auto &w) { auto d = std::make_unique<DV>(DV::Constant(l, S(2))); w.a->set_adata(*d); }, l == 6);
      op("set_adata(b.adata())", [](auto &w) { w.a->set_adata(w.b->adata()); }, true);
      op("set_adata(a.adata())", [](auto &w) { w.a->set_adata(w.a->adata()); });
      if constexpr (O == 2)
        for (long r = 0; r <= 5; r++)
          for (long c = 0; c <= 5; c++) {
            const std::string sh = s(r) + "x" + s(c);
            op("set_hm(" + sh + ")", [=](auto &w) { auto m = std::make_unique<M>(M::Constant(r, c, S(2))); w.a->set_hm(*m); }, r == 2 && c == 2);
            for (const char *mode : {"full", "zeros"})
              op(std::string("hm(") + mode + ", " + sh + ")", [=](auto &w) { auto m = std::make_unique<M>(M::Constant(r, c, S(2))); w.a->hm(mode, *m); sink = m->sum(); });
            for (long k : {0L, 1L, 2L, 3L, 4L})
              op("a = from_arrays(" + s(k) + ", " + sh + ")", [=](auto &w) { auto g = std::make_unique<V>(V::Constant(k, S(3))); auto m = std::make_unique<M>(M::Constant(r, c, S(2))); *w.a = T::from_arrays(1, *g, *m); }, k == 2 && r == 2 && c == 2);
          }
    } else {
      op("eval", [](auto &w) { auto d = std::make_unique<std::array<S, (N > 0 ? N : 0)>>(); d->fill(S(1)); sink = w.a->eval(*d); }, true);
      op("set_adata", [](auto &w) { auto d = std::make_unique<DV>(DV::Constant(S(2))); w.a->set_adata(*d); });
      op("set_adata(b.adata())", [](auto &w) { w.a->set_adata(w.b->adata()); }, true);
      if constexpr (O == 1) op("a = from_gradient", [](auto &w) { auto g = std::make_unique<V>(V::Constant(S(3))); *w.a = T::from_gradient(1, *g); });
      if constexpr (O == 2) {
        op("set_hm", [](auto &w) { auto m = std::make_unique<M>(M::Constant(S(2))); w.a->set_hm(*m); }, true);
        op("hm(full, out)", [](auto &w) { auto m = std::make_unique<M>(M::Constant(S(2))); w.a->hm("full", *m); sink = m->sum(); });
        op("a = from_arrays", [](auto &w) { auto g = std::make_unique<V>(V::Constant(S(3))); auto m = std::make_unique<M>(M::Constant(S(2))); *w.a = T::from_arrays(1, *g, *m); });
      }
    }
    if constexpr (O == 2)
      for (const char *mode : {"full", "zeros", "", "x", "FULL"}) op(std::string("hm(") + mode + ")", [=](auto &w) { const M m = w.a->hm(mode); sink = m.sum(); }, !strcmp(mode, "full"));
  }

  // the numbers of the world are well-formed and all their coefficients can be read
  std::string check(World<T> &w)
  {
    for (auto *x : {w.a.get(), w.b.get()}) {
      const long n = x->size(), l = O == 1 ? 1 + n : (n + 1) * (n + 2) / 2;
      if (n < 0 || (!DYN && n != N) || n > 100) return "a number claims " + s(n) + " variables";
      if ((long)x->data().size() != l || x->data_length() != l) return "a number of " + s(n) + " variables stores " + s(x->data().size()) + " coefficients";
      long double t = 0;
      for (S v : x->data()) t += v;
      for (long i = 0; i < n; i++) t += x->g(i);
      if (O == 2) for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) t += x->h(i, j);
      sink = t;
    }
    return "";
  }
  enum Outcome { Done, Rejected, Asserted };
  Outcome call(World<T> &w, const Op<T> &o)
  {
    run.count("transitions");
    if (setjmp(on_assert) == 0) {
      armed = true;
      Outcome r = Done;
      try { o.run(w); } catch (const std::exception &) { r = Rejected; }
      armed = false;
      return r;
    }
    armed = false;
    // the program would have ended here: what is left is not touched again
    w.a.release(); w.b.release();
    return Asserted;
  }
  World<T> start(long na, long nb)
  {
    World<T> w;
    w.a.reset(DYN ? new T(T::zero(na)) : new T(T::zero()));
    w.b.reset(DYN ? new T(T::zero(nb)) : new T(T::zero()));
    fill(*w.a); fill(*w.b);
    return w;
  }
  void explore(bool thorough)
  {
    nm = "DDScalar<" + s(O) + "," + (sizeof(S) == 4 ? "float" : sizeof(S) == 8 ? "double" : "long double") + "," + (DYN ? "Dynamic" : s(N)) + ">";
    build();
    std::vector<int> all, core;
    for (int i = 0; i < (int)ops.size(); i++) { all.push_back(i); if (ops[i].core) core.push_back(i); }
    run.notes["alphabet of " + nm] = s(all.size()) + " calls, " + s(core.size()) + " in the longer histories";
    std::vector<std::pair<long, long>> starts;
    if (DYN) { const long top = thorough ? 3 : 2; for (long i = 0; i <= top; i++) for (long j = 0; j <= top; j++) starts.push_back({i, j}); } else starts.push_back({N, N});
    std::vector<int> h;
    for (auto [na, nb] : starts) {
      auto key = [&] {
        std::string k = nm + ": a of " + s(na) + ", b of " + s(nb);
        for (int i : h) k += "; " + ops[i].name;
        return k;
      };
      Doing now(key);
      auto one = [&] {
        if (!run.mine()) return;
        auto w = start(na, nb);
        for (size_t i = 0; i < h.size(); i++) {
          const Outcome r = call(w, ops[h[i]]);
          if (i + 1 == h.size()) { run.count("traces"); run.count(r == Done ? "completed" : r == Rejected ? "rejected" : "ended_by_assertion"); }
          if (r == Asserted) return; // as a shorter history before
          if (i + 1 < h.size()) continue;
          const std::string e = check(w);
          if (!e.empty()) run.violation(key(), e + " after " + key());
        }
        run.count("states");
      };
      // a shard takes the histories that begin with its share of the calls
      for (int i : all) { h = {i}; one(); }
      for (int i : core)
        for (int j : all) { if (na != nb && ops[j].single) continue; h = {i, j}; one(); }
      for (int i : all)
        if (!ops[i].core && !(na != nb && ops[i].single)) for (int j : core) { h = {i, j}; one(); }
      if (thorough || (na == nb && (!DYN || na == 2)))
        for (int i : core)
          for (int j : core)
            for (int k : core) { h = {i, j, k}; one(); }
    }
  }
  // sizes far beyond those of the histories, where products of sizes leave small integer types or single precision
  void large(bool thorough)
  {
    std::vector<long> sizes;
    for (int k = 3; k <= (O == 1 ? 20 : 12); k++) for (long d = -1; d <= 1; d++) sizes.push_back((1L << k) + d);
    for (long k : {100L, 362L, 363L, 1000L}) sizes.push_back(k);
    if (O == 2) for (long k : {5793L, 5801L}) sizes.push_back(k);
    if (O == 2 && thorough) for (long k : {7777L, 8191L, 11585L}) sizes.push_back(k);
    for (long n : sizes) {
      if (!run.mine()) continue;
      std::string what;
      auto key = [&] { return nm + ": a = zero(" + s(n) + ")" + what; };
      Doing now(key);
      auto length = [](long k) { return O == 1 ? 1 + k : (k + 1) * (k + 2) / 2; };
      auto look = [&](T &x, long k) {
        run.count("transitions");
        run.count("traces");
        if (x.size() != k || (long)x.data().size() != length(k)) { run.violation(key(), "the number has " + s(x.data().size()) + " coefficients for " + s(x.size()) + " variables after " + key()); return false; }
        long double t = x.f();
        const T &c = x;
        for (long i = 0; i < k; i++) {
          t += x.g(i) + c.g(i);
          if (O == 2) for (long j : {i, k - 1, 0L, k / 2}) { x.h(i, j) = S(i % 7); if (c.h(j, i) != S(i % 7)) { run.violation(key(), "h(" + s(j) + ", " + s(i) + ") is not h(" + s(i) + ", " + s(j) + ") after " + key()); return false; } }
        }
        sink = t;
        return true;
      };
      run.count("states");
      armed = true;
      if (setjmp(on_assert) != 0) { armed = false; run.violation(key(), "an assertion failed on valid requests after " + key()); continue; }
      try {
        auto a = std::make_unique<T>(T::zero(n));
        if (!look(*a, n)) continue;
        what = ".pad_right(" + s(n + 1) + ")"; { auto b = std::make_unique<T>(a->pad_right(n + 1)); look(*b, n + 1); }
        what = ".pad_left(" + s(n + 2) + ")"; { auto b = std::make_unique<T>(a->pad_left(n + 2)); look(*b, n + 2); }
        what = " * a"; { auto b = std::make_unique<T>(*a * *a); look(*b, n); }
        what = ", *= variable"; { const T v = T::variable(n - 1, 2, n); auto b = std::make_unique<T>(*a); *b *= v; look(*b, n); }
        if (n <= 1025) {
          what = ".eval"; sink = a->eval(*vec(n));
          if constexpr (O == 2) {
            what = ".hm"; { auto m = std::make_unique<M>(a->hm("full")); a->set_hm(*m); look(*a, n); }
          }
        }
        what = ".resize(" + s(n + 3) + ")"; a->resize(n + 3); look(*a, n + 3);
        what = ".resize(" + s(n - 1) + ")"; a->resize(n - 1); look(*a, n - 1);
      } catch (const std::exception &e) { run.violation(key(), std::string("a valid request was rejected ('") + e.what() + "') after " + key()); }
      armed = false;
    }
    run.sample(nm + ": " + s(sizes.size()) + " sizes up to " + s(sizes.back()) + ": creation, padding, products, in-place products, evaluation, matrices, resizing");
  }
};

// sparse numbers
template <class S> struct SparseMemory {
  using T = hj::SScalar<S>;
  Run &run;
  struct SOp { std::string name; std::function<void(T &, T &)> f; };
  std::vector<SOp> ops;
  void build()
  {
    auto op = [&](const std::string &n, std::function<void(T &, T &)> f) { ops.push_back({n, std::move(f)}); };
    op("a = T(2)", [](T &a, T &) { a = T(S(2)); });
    for (const char *n : {"x", "y", "", "a long name that does not fit into a small string buffer"}) op(std::string("a = variable ") + n, [n](T &a, T &) { a = T::variable(n, 2); });
    op("a = T(2, {x, y, z})", [](T &a, T &) { a = T(2, {{"x", 1}, {"y", 2}, {"z", 3}}); });
    op("a = T(2, 40 names)", [](T &a, T &) { typename T::Data d; for (int i = 0; i < 40; i++) d["n" + std::to_string(i)] = S(i); a = T(2, d); });
    op("a = b", [](T &a, T &b) { a = b; });
    op("b = a", [](T &a, T &b) { b = a; });
    op("a = a", [](T &a, T &) { T &r = a; a = r; });
    op("a = move(b), b = a", [](T &a, T &b) { a = std::move(b); b = a; });
    op("swap", [](T &a, T &b) { std::swap(a, b); });
    struct Two { const char *n; void (*f)(T &, const T &); };
    const Two two[] = {{"+", [](T &a, const T &b) { a = a + b; }}, {"-", [](T &a, const T &b) { a = a - b; }}, {"*", [](T &a, const T &b) { a = a * b; }}, {"/", [](T &a, const T &b) { a = a / b; }},
                       {"+=", [](T &a, const T &b) { a += b; }}, {"-=", [](T &a, const T &b) { a -= b; }}, {"*=", [](T &a, const T &b) { a *= b; }}, {"/=", [](T &a, const T &b) { a /= b; }},
                       {"atan2", [](T &a, const T &b) { a = a.atan2(b); }}, {"hypot", [](T &a, const T &b) { a = T::hypot(a, b); }}, {"hypot(a,b,a)", [](T &a, const T &b) { a = T::hypot(a, b, a); }},
                       {"compare", [](T &a, const T &b) { sink = (a < b) + (a == b) + (a >= b); }}};
    for (auto &t : two) {
      op(std::string("a ") + t.n + " b", [f = t.f](T &a, T &b) { f(a, b); });
      op(std::string("a ") + t.n + " a", [f = t.f](T &a, T &) { f(a, a); });
    }
    struct One { const char *n; T (*f)(const T &); };
    const One one[] = {{"-", [](const T &a) { return -a; }}, {"sqrt", [](const T &a) { return a.sqrt(); }}, {"sin", [](const T &a) { return a.sin(); }}, {"atanh", [](const T &a) { return a.atanh(); }},
                       {"exp", [](const T &a) { return a.exp(); }}, {"log(2)", [](const T &a) { return a.log(S(2)); }}, {"pow(0)", [](const T &a) { return a.pow(S(0)); }}, {"pow(2.5)", [](const T &a) { return a.pow(S(2.5)); }},
                       {"abs", [](const T &a) { return a.abs(); }}, {"2-", [](const T &a) { return S(2) - a; }}, {"2/", [](const T &a) { return S(2) / a; }}, {"*2", [](const T &a) { return a * S(2); }}, {"reciprocal", [](const T &a) { return a.reciprocal(); }}};
    for (auto &t : one) op(std::string("a = ") + t.n + "(a)", [f = t.f](T &a, T &) { a = f(a); });
    op("a *= 2", [](T &a, T &) { a *= S(2); });
    op("a *= a.d(x)", [](T &a, T &) { a *= a.d("x"); });
    op("d, eval, text", [](T &a, T &b) {
      sink = a.d("x") + a.d("") + a.d("missing") + a.eval({}) + a.eval({{"x", S(1)}, {"missing", S(2)}}) + b.eval({{"y", S(1)}});
      std::ostringstream o;
      o << a;
      sink = o.str().size() + a.to_string().size() + a.size();
    });
  }
  void explore(bool thorough)
  {
    build();
    run.notes["alphabet of SScalar"] = std::to_string(ops.size()) + " calls";
    std::vector<int> h;
    auto key = [&] { std::string k = "SScalar: a of x and y, b of y and z"; for (int i : h) k += "; " + ops[i].name; return k; };
    Doing now(key);
    const int m = (int)ops.size();
    auto one = [&] {
      if (!run.mine()) return;
      auto a = std::make_unique<T>(S(0.5), typename T::Data{{"x", S(1)}, {"y", S(-2)}}), b = std::make_unique<T>(S(0.25), typename T::Data{{"y", S(3)}, {"z", S(4)}});
      for (int i : h) {
        run.count("transitions");
        ops[i].f(*a, *b);
      }
      for (T *x : {a.get(), b.get()}) { sink = x->f() + x->d("x") + x->d("y") + x->d("z"); if (x->size() < 0 || x->size() > 60) run.violation(key(), "a number claims " + std::to_string(x->size()) + " variables after " + key()); }
      run.count("states");
      run.count("traces");
    };
    for (int i = 0; i < m; i++) { h = {i}; one(); for (int j = 0; j < m; j++) { h = {i, j}; one(); for (int k = 0; k < m; k++) { h = {i, j, k}; one(); if (thorough) for (int l = 0; l < m; l++) { h = {i, j, k, l}; one(); } } } }
  }
};

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
#if PART == 0
  {
    Memory<hj::DDScalar<ORDER, SC, hj::Dynamic>> m{run};
    m.explore(run.thorough());
    m.large(run.thorough());
  }
#elif PART == 1
  Memory<hj::DDScalar<ORDER, SC, 0>>{run}.explore(run.thorough());
  Memory<hj::DDScalar<ORDER, SC, 1>>{run}.explore(run.thorough());
#elif PART == 2
  Memory<hj::DDScalar<ORDER, SC, 2>>{run}.explore(run.thorough());
  Memory<hj::DDScalar<ORDER, SC, 3>>{run}.explore(run.thorough());
#elif PART == 3
  Memory<hj::DDScalar<ORDER, SC, 5>>{run}.explore(run.thorough());
#else
  SparseMemory<SC>{run}.explore(run.thorough());
#endif
  run.sample("each history: numbers on the heap between red zones, arguments of their exact size on the heap; every call completes without a report or is rejected, and all numbers stay well-formed");
  return run.finish();
}
