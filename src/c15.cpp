// C15: matrices of hyper-dual numbers. Every expression form x shape x value grid x derivative pattern against entrywise reference formulas.
#include <Eigen/Core>
#include <Eigen/Dense>
#include <hyperjet/hyperjet.h>
#include "explore.hpp"
namespace hj = hyperjet;
using namespace ex;

#ifndef SC
#define SC double
#endif
using S = SC;
using T = hj::DDScalar<ORDER, S, NVAR>;
static const std::string TNAME = "DDScalar<" + std::to_string(ORDER) + (sizeof(S) == 4 ? ",float," : ",double,") + std::to_string(NVAR) + ">";

// ---- reference -----------------------------------------------------------------------------------------------
struct J { Data d; bool ok = true; };
static long double mag; // largest coefficient met
static J jap(int op, const J &a, const J *b = nullptr, long double s = 0)
{
  J r;
  orc::Q v[3] = {a.d[0], b ? b->d[0] : 0, 0};
  const orc::Partials p = orc::partials(op, v, s);
  const Data *u[3] = {&a.d, b ? &b->d : nullptr, nullptr};
  const orc::Ref c = orc::chain<long double>(ORDER, NVAR, p, u, 1e12L);
  r.ok = a.ok && (!b || b->ok) && c.ok;
  r.d = c.v;
  if (!r.ok) r.d.assign(orc::packed_len(ORDER, NVAR), 1);
  for (size_t i = 0; i < c.s.size(); i++) mag = std::max(mag, std::max(fabsl(r.d[i]), c.s[i]));
  return r;
}
static J operator+(const J &a, const J &b) { return jap(ops::ADD, a, &b); }
static J operator-(const J &a, const J &b) { return jap(ops::SUB, a, &b); }
static J operator*(const J &a, const J &b) { return jap(ops::MUL, a, &b); }
static J operator/(const J &a, const J &b) { return jap(ops::DIV, a, &b); }
static J operator-(const J &a) { return jap(ops::NEG, a); }
static J jc(long double x) { J r; r.d.assign(orc::packed_len(ORDER, NVAR), 0); r.d[0] = x; return r; }
static J fn(int op, const J &a, long double s = 0) { return jap(op, a, nullptr, s); }

struct JM { // row by row
  int r, c;
  std::vector<J> e;
  JM() : r(0), c(0) {}
  JM(int r, int c) : r(r), c(c), e(r * c, jc(0)) {}
  J &operator()(int i, int j) { return e[i * c + j]; }
  const J &operator()(int i, int j) const { return e[i * c + j]; }
};
template <class F> static JM each(const JM &a, F f) { JM r(a.r, a.c); for (size_t i = 0; i < a.e.size(); i++) r.e[i] = f(a.e[i]); return r; }
template <class F> static JM both(const JM &a, const JM &b, F f) { JM r(a.r, a.c); for (size_t i = 0; i < a.e.size(); i++) r.e[i] = f(a.e[i], b.e[i]); return r; }
static JM mul(const JM &a, const JM &b)
{
  JM r(a.r, b.c);
  for (int i = 0; i < a.r; i++) for (int j = 0; j < b.c; j++) { J t = a(i, 0) * b(0, j); for (int k = 1; k < a.c; k++) t = t + a(i, k) * b(k, j); r(i, j) = t; }
  return r;
}
static JM tr(const JM &a) { JM r(a.c, a.r); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) r(j, i) = a(i, j); return r; }
static J sum(const JM &a) { J t = a.e[0]; for (size_t i = 1; i < a.e.size(); i++) t = t + a.e[i]; return t; }
static J prod(const JM &a) { J t = a.e[0]; for (size_t i = 1; i < a.e.size(); i++) t = t * a.e[i]; return t; }
static J sq(const JM &a) { return sum(each(a, [](const J &x) { return x * x; })); }
static J nrm(const JM &a) { return fn(ops::SQRT, sq(a)); }
static J det(const JM &a)
{
  if (a.r == 1) return a.e[0];
  J t = jc(0);
  for (int k = 0; k < a.r; k++) {
    JM m(a.r - 1, a.r - 1);
    for (int i = 1; i < a.r; i++) for (int j = 0, jj = 0; j < a.r; j++) if (j != k) m(i - 1, jj++) = a(i, j);
    t = k % 2 ? t - a(0, k) * det(m) : t + a(0, k) * det(m);
  }
  return t;
}
static JM one(const J &x) { JM r(1, 1); r.e[0] = x; return r; }

// ---- exploration ---------------------------------------------------------------------------------------------
using D = Eigen::Matrix<S, -1, -1>;
struct Input {
  int r, c;
  std::vector<Data> a, b; // entries of A and B (r x c), row by row
  Data s;                 // a number
  long double d;          // a plain number
  std::vector<long double> p; // a plain matrix (r x c)
  std::string name;
};
static T num(const Data &d) { T x = T::zero(); for (size_t i = 0; i < d.size(); i++) x.data()[i] = S(d[i]); return x; }
static J jnum(const Data &d) { J r; r.d = d; return r; }

struct Explorer {
  Run &run;
  const Input *in;
  std::string shape;
  long double eps = std::numeric_limits<S>::epsilon();
  std::string title(const char *ex) { return TNAME + " " + shape + " " + ex + " on " + in->name; }

  const char *current_form = "";
  void compare(const Eigen::Matrix<T, -1, -1> &got)
  {
    const char *ex = current_form;
    const auto it = this->want.find(ex);
    if (it == this->want.end()) throw std::logic_error(std::string("no reference for ") + ex);
    const JM &want = it->second.m;
    const long double mag = it->second.mag;
    run.count("transitions");
    if (got.rows() != want.r || got.cols() != want.c) { run.violation(title(ex), "wrong shape in " + title(ex)); return; }
    for (int i = 0; i < want.r; i++)
      for (int j = 0; j < want.c; j++) {
        if (!want(i, j).ok) { run.count("outside_domain"); continue; }
        const T x = got(i, j);
        run.count("traces");
        for (size_t k = 0; k < want(i, j).d.size(); k++) {
          const long double w = want(i, j).d[k], g = x.data()[k];
          if (!(fabsl(w - g) <= 4096 * eps * (1 + mag) * (1 + mag))) {
            Data gd(x.data().begin(), x.data().end());
            run.violation(title(ex), "entry (" + std::to_string(i) + "," + std::to_string(j) + ") coefficient " + std::to_string(k) + " differs: expected " + orc::show(want(i, j).d) + " got " + orc::show(gd) + " in " + title(ex));
            return;
          }
        }
      }
  }
  struct Want { JM m; long double mag; };
  std::map<std::string, Want> want;
  // reference results of every expression form
  void references(const Input &input)
  {
    const int r = input.r, c = input.c;
    JM a(r, c), b(r, c), q(r, c);
    for (int i = 0; i < r * c; i++) { a.e[i] = jnum(input.a[i]); b.e[i] = jnum(input.b[i]); q.e[i] = jc(S(input.p[i])); }
    const J js = jnum(input.s), jd = jc(S(input.d));
    want.clear();
    auto ref = [&](const char *name, auto f) { mag = 1; JM m = f(); want.emplace(name, Want{m, mag}); };
    auto ref1 = [&](const char *name, auto f) { mag = 1; JM m = one(f()); want.emplace(name, Want{m, mag}); };
    auto bin = [&](auto f) { return [&, f] { return both(a, b, f); }; };
    auto un = [&](auto f) { return [&, f] { return each(a, f); }; };
    auto mix = [&](auto f) { return [&, f] { return both(a, q, f); }; };
    ref("A+B", bin([](auto &x, auto &y) { return x + y; }));
    ref("A-B", bin([](auto &x, auto &y) { return x - y; }));
    ref("-A", un([](auto &x) { return -x; }));
    ref("A*s", un([&](auto &x) { return x * js; }));
    ref("s*A", un([&](auto &x) { return js * x; }));
    ref("A/s", un([&](auto &x) { return x / js; }));
    ref("A*d", un([&](auto &x) { return x * jd; }));
    ref("d*A", un([&](auto &x) { return jd * x; }));
    ref("A/d", un([&](auto &x) { return x / jd; }));
    ref("s*(A-d*B)", bin([&](auto &x, auto &y) { return js * (x - jd * y); }));
    ref("cwiseProduct", bin([](auto &x, auto &y) { return x * y; }));
    ref("cwiseQuotient", bin([](auto &x, auto &y) { return x / y; }));
    ref("array product", bin([](auto &x, auto &y) { return x * y; }));
    ref("array quotient", bin([](auto &x, auto &y) { return x / y; }));
    ref("array + s", un([&](auto &x) { return x + js; }));
    ref("array - s", un([&](auto &x) { return x - js; }));
    ref("cwiseAbs", un([](auto &x) { return fn(ops::ABS, x); }));
    ref("cwiseAbs2", un([](auto &x) { return x * x; }));
    ref("cwiseInverse", un([](auto &x) { return fn(ops::RECIP, x); }));
    ref("cwiseMin", bin([](auto &x, auto &y) { J t = x.d[0] <= y.d[0] ? x : y; if (x.d[0] == y.d[0]) t.ok = false; return t; }));
    ref("cwiseMax", bin([](auto &x, auto &y) { J t = x.d[0] >= y.d[0] ? x : y; if (x.d[0] == y.d[0]) t.ok = false; return t; }));
    ref("square", un([](auto &x) { return x * x; }));
    ref("cube", un([](auto &x) { return x * x * x; }));
    ref("inverse", un([](auto &x) { return fn(ops::RECIP, x); }));
    ref("array sqrt", un([](auto &x) { return fn(ops::SQRT, x); }));
    ref("array sin", un([](auto &x) { return fn(ops::SIN, x); }));
    ref("array cos", un([](auto &x) { return fn(ops::COS, x); }));
    ref("array tan", un([](auto &x) { return fn(ops::TAN, x); }));
    ref("array asin", un([](auto &x) { return fn(ops::ASIN, x); }));
    ref("array acos", un([](auto &x) { return fn(ops::ACOS, x); }));
    ref("array atan", un([](auto &x) { return fn(ops::ATAN, x); }));
    ref("array sinh", un([](auto &x) { return fn(ops::SINH, x); }));
    ref("array cosh", un([](auto &x) { return fn(ops::COSH, x); }));
    ref("array tanh", un([](auto &x) { return fn(ops::TANH, x); }));
    ref("array exp", un([](auto &x) { return fn(ops::EXP, x); }));
    ref("array log", un([](auto &x) { return fn(ops::LOG, x); }));
    ref("array log10", un([](auto &x) { return fn(ops::LOG10, x); }));
    ref("array abs", un([](auto &x) { return fn(ops::ABS, x); }));
    ref("cwiseSqrt", un([](auto &x) { return fn(ops::SQRT, x); }));
    ref("unaryExpr", un([](auto &x) { return fn(ops::CBRT, x) * x; }));
    ref("binaryExpr", bin([](auto &x, auto &y) { return jap(ops::ATAN2, x, &y); }));
    ref("A+D", mix([](auto &x, auto &y) { return x + y; }));
    ref("D+A", mix([](auto &x, auto &y) { return y + x; }));
    ref("A-D", mix([](auto &x, auto &y) { return x - y; }));
    ref("D-A", mix([](auto &x, auto &y) { return y - x; }));
    ref("A.cwiseProduct(D)", mix([](auto &x, auto &y) { return x * y; }));
    ref("D.cwiseProduct(A)", mix([](auto &x, auto &y) { return y * x; }));
    ref("A.cwiseQuotient(D)", mix([](auto &x, auto &y) { return x / y; }));
    ref("D.cwiseQuotient(A)", mix([](auto &x, auto &y) { return y / x; }));
    ref("A*D^T", [&] { return mul(a, tr(q)); });
    ref("D*A^T", [&] { return mul(q, tr(a)); });
    ref("A^T*D", [&] { return mul(tr(a), q); });
    ref("D^T*A", [&] { return mul(tr(q), a); });
    ref("cast", [&] { return q; });
    ref("s*D", [&] { return each(q, [&](auto &x) { return js * x; }); });
    ref("D*s", [&] { return each(q, [&](auto &x) { return x * js; }); });
    ref("A*B^T", [&] { return mul(a, tr(b)); });
    ref("A^T*B", [&] { return mul(tr(a), b); });
    ref("A*B^T*A", [&] { return mul(mul(a, tr(b)), a); });
    ref("(A+B)*(A-B)^T", [&] { return mul(both(a, b, [](auto &x, auto &y) { return x + y; }), tr(both(a, b, [](auto &x, auto &y) { return x - y; }))); });
    ref("lazyProduct", [&] { return mul(a, tr(b)); });
    ref("A^T", [&] { return tr(a); });
    ref("adjoint", [&] { return tr(a); });
    ref("conjugate", [&] { return a; });
    ref("real", [&] { return a; });
    ref1("sum", [&] { return sum(a); });
    ref1("prod", [&] { return prod(a); });
    ref1("mean", [&] { return sum(a) * jc(1.0L / (r * c)); });
    ref1("squaredNorm", [&] { return sq(a); });
    ref1("norm", [&] { return nrm(a); });
    ref1("l1 norm", [&] { return sum(each(a, [](auto &x) { return fn(ops::ABS, x); })); });
    ref1("trace", [&] { J t = a(0, 0); for (int i = 1; i < std::min(r, c); i++) t = t + a(i, i); return t; });
    ref("diagonal", [&] { JM t(std::min(r, c), 1); for (int i = 0; i < t.r; i++) t(i, 0) = a(i, i); return t; });
    ref("normalized", [&] { const J n = nrm(a); return each(a, [&](auto &x) { return x / n; }); });
    ref("A/norm", [&] { const J n = nrm(a); return each(a, [&](auto &x) { return x / n; }); });
    ref1("(A-B).norm", [&] { return nrm(both(a, b, [](auto &x, auto &y) { return x - y; })); });
    ref1("cwiseProduct.sum", [&] { return sum(both(a, b, [](auto &x, auto &y) { return x * y; })); });
    ref("rowwise sum", [&] { JM t(r, 1); for (int i = 0; i < r; i++) { t(i, 0) = a(i, 0); for (int j = 1; j < c; j++) t(i, 0) = t(i, 0) + a(i, j); } return t; });
    ref("colwise sum", [&] { JM t(1, c); for (int j = 0; j < c; j++) { t(0, j) = a(0, j); for (int i = 1; i < r; i++) t(0, j) = t(0, j) + a(i, j); } return t; });
    ref("colwise norm", [&] { JM t(1, c); for (int j = 0; j < c; j++) { JM k(r, 1); for (int i = 0; i < r; i++) k(i, 0) = a(i, j); t(0, j) = nrm(k); } return t; });
    ref("rowwise squaredNorm", [&] { JM t(r, 1); for (int i = 0; i < r; i++) { JM k(1, c); for (int j = 0; j < c; j++) k(0, j) = a(i, j); t(i, 0) = sq(k); } return t; });
    ref("colwise prod", [&] { JM t(1, c); for (int j = 0; j < c; j++) { t(0, j) = a(0, j); for (int i = 1; i < r; i++) t(0, j) = t(0, j) * a(i, j); } return t; });
    ref("colwise + vector", [&] { return both(a, b, [](auto &x, auto &) { return x; }).r ? [&] { JM t(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) t(i, j) = a(i, j) + b(i, 0); return t; }() : a; });
    ref1("maxCoeff", [&] { J t = a.e[0]; bool tie = false; for (auto &x : a.e) if (x.d[0] > t.d[0]) t = x; int n = 0; for (auto &x : a.e) n += x.d[0] == t.d[0]; t.ok = n == 1; return t; });
    ref1("minCoeff", [&] { J t = a.e[0]; for (auto &x : a.e) if (x.d[0] < t.d[0]) t = x; int n = 0; for (auto &x : a.e) n += x.d[0] == t.d[0]; t.ok = n == 1; return t; });
    ref("Zero", [&] { return JM(r, c); });
    ref("Constant(s)", [&] { return each(a, [&](auto &) { return js; }); });
    ref("Ones", [&] { return each(a, [&](auto &) { return jc(1); }); });
    ref("Identity", [&] { JM t(r, c); for (int i = 0; i < std::min(r, c); i++) t(i, i) = jc(1); return t; });
    ref("setZero", [&] { return JM(r, c); });
    ref("+=", bin([](auto &x, auto &y) { return x + y; }));
    ref("-=", bin([](auto &x, auto &y) { return x - y; }));
    ref("+= itself", bin([](auto &x, auto &) { return x + x; }));
    ref("*= s", un([&](auto &x) { return x * js; }));
    ref("/= s", un([&](auto &x) { return x / js; }));
    ref("*= d", un([&](auto &x) { return x * jd; }));
    ref("/= d", un([&](auto &x) { return x / jd; }));
    ref("array *=", bin([](auto &x, auto &y) { return x * y; }));
    ref("array /=", bin([](auto &x, auto &y) { return x / y; }));
    ref("+= D", mix([](auto &x, auto &y) { return x + y; }));
    ref("-= D", mix([](auto &x, auto &y) { return x - y; }));
    ref("*= own entry", [&] { JM t = a; const J e = a(0, 0); return each(t, [&](auto &x) { return x * e; }); });
    ref("(0,0) *= (0,0)", [&] { JM t = a; t(0, 0) = a(0, 0) * a(0, 0); return t; });
    ref("noalias +=", [&] { return both(mul(a, tr(b)), mul(b, tr(a)), [](auto &x, auto &y) { return x + y; }); });
    if (r == c) {
    ref1("determinant", [&] { return det(a); });
    ref1("determinant of product", [&] { return det(mul(a, b)); });
    ref("A*B", [&] { return mul(a, b); });
    ref("A*=B", [&] { return mul(a, b); });
    ref("A*=A", [&] { return mul(a, a); });
    ref("matrix inverse", [&] {
            const J dt = det(a);
            JM t(r, r);
            for (int i = 0; i < r; i++)
              for (int j = 0; j < r; j++) {
                JM m(std::max(1, r - 1), std::max(1, r - 1));
                m(0, 0) = jc(1);
                if (r > 1) for (int k = 0, kk = 0; k < r; k++) if (k != i) { for (int l = 0, ll = 0; l < r; l++) if (l != j) m(kk, ll++) = a(k, l); kk++; }
                const J cf = det(m);
                t(j, i) = ((i + j) % 2 ? -cf : cf) / dt;
              }
            if (fabsl(dt.d[0]) < 0.05L) for (auto &x : t.e) x.ok = false;
            return t;
          });
    for (const char *nm : {"determinant", "determinant of product"}) { // by elimination: not differentiated exactly where it meets a zero pivot
      Want w = want[nm];
      if (!(fabsl(w.m.e[0].d[0]) > 0.05L)) w.m.e[0].ok = false;
      want[std::string(nm) + " by elimination"] = w;
    }
    }
    if (c == 1) {
    ref1("dot", [&] { return sum(both(a, b, [](auto &x, auto &y) { return x * y; })); });
    ref1("dot itself", [&] { return sum(both(a, a, [](auto &x, auto &y) { return x * y; })); });
    ref1("dot plain", [&] { return sum(both(a, q, [](auto &x, auto &y) { return x * y; })); });
    ref1("plain dot", [&] { return sum(both(a, q, [](auto &x, auto &y) { return y * x; })); });
    ref("normalized()", [&] { const J n = nrm(a); return each(a, [&](auto &x) { return x / n; }); });
    ref("outer", [&] { return mul(a, tr(b)); });
    ref("outer plain", [&] { return mul(a, tr(q)); });
    ref("asDiagonal", [&] { JM t(r, r); for (int i = 0; i < r; i++) t(i, i) = a(i, 0); return t; });
    }
    if (r == 3 && c == 1) {
    auto cross = [](const JM &u, const JM &v) {
      JM t(3, 1);
      for (int i = 0; i < 3; i++) { const int k = (i + 1) % 3, l = (i + 2) % 3; t(i, 0) = u(k, 0) * v(l, 0) - u(l, 0) * v(k, 0); }
      return t;
    };
    ref("cross", [&] { return cross(a, b); });
    ref("cross itself", [&] { return cross(a, a); });
    ref("cross plain", [&] { return cross(a, q); });
    ref("cross mixed", [&] { return cross(a, q); });
    ref1("triple product", [&] { return sum(both(a, cross(b, q), [](auto &x, auto &y) { return x * y; })); });
    ref1("cross norm", [&] { return nrm(cross(a, b)); });
    }
  }
  void flag(const char *ex, bool ok) { run.count("transitions"); run.count("traces"); if (!ok) run.violation(title(ex), "wrong result of " + title(ex)); }

  // R, C compile-time shape or -1
  template <int R, int C> void go(const Input &input)
  {
    in = &input;
    const int r = input.r, c = input.c;
    shape = (R < 0 ? "run-time shape " : "fixed shape ") + std::to_string(r) + "x" + std::to_string(c);
    using M = Eigen::Matrix<T, R, C, (R == 1 && C != 1) ? Eigen::RowMajor : Eigen::ColMajor>;
    using P = Eigen::Matrix<S, R, C, (R == 1 && C != 1) ? Eigen::RowMajor : Eigen::ColMajor>;
    M A(r, c), B(r, c);
    P Q(r, c);
    JM a(r, c), b(r, c), q(r, c);
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++) {
        A(i, j) = num(input.a[i * c + j]); a(i, j) = jnum(input.a[i * c + j]);
        B(i, j) = num(input.b[i * c + j]); b(i, j) = jnum(input.b[i * c + j]);
        Q(i, j) = S(input.p[i * c + j]); q(i, j) = jc(S(input.p[i * c + j]));
      }
    const T s = num(input.s);
    const J js = jnum(input.s);
    const S d = S(input.d);
    const J jd = jc(d);
    run.count("states");
    const M A0 = A, B0 = B;
    Doing now([&] { return title(current_form); });
    // the library's blocked product kernels for run-time shapes do not take two types
#define XP(x, y) [&] { if constexpr (R < 0) return (x).lazyProduct(y).eval(); else return ((x) * (y)).eval(); }()

#define CK(name, ...) { current_form = name; const Eigen::Matrix<T, -1, -1> got = __VA_ARGS__; compare(got); }
#define CK1(name, ...) { current_form = name; Eigen::Matrix<T, -1, -1> got(1, 1); got(0, 0) = __VA_ARGS__; compare(got); }
    // entrywise
    CK("A+B", A + B);
    CK("A-B", A - B);
    CK("-A", -A);
    CK("A*s", A * s);
    CK("s*A", s * A);
    CK("A/s", A / s);
    CK("A*d", A * d);
    CK("d*A", d * A);
    CK("A/d", A / d);
    CK("s*(A-d*B)", s * (A - d * B));
    CK("cwiseProduct", A.cwiseProduct(B));
    CK("cwiseQuotient", A.cwiseQuotient(B));
    CK("array product", (A.array() * B.array()).matrix());
    CK("array quotient", (A.array() / B.array()).matrix());
    CK("array + s", (A.array() + s).matrix());
    CK("array - s", (A.array() - s).matrix());
    CK("cwiseAbs", A.cwiseAbs());
    CK("cwiseAbs2", A.cwiseAbs2());
    CK("cwiseInverse", A.cwiseInverse());
    CK("cwiseMin", A.cwiseMin(B));
    CK("cwiseMax", A.cwiseMax(B));
    CK("square", A.array().square().matrix());
    CK("cube", A.array().cube().matrix());
    CK("inverse", A.array().inverse().matrix());
    CK("array sqrt", A.array().sqrt().matrix());
    CK("array sin", A.array().sin().matrix());
    CK("array cos", A.array().cos().matrix());
    CK("array tan", A.array().tan().matrix());
    CK("array asin", A.array().asin().matrix());
    CK("array acos", A.array().acos().matrix());
    CK("array atan", A.array().atan().matrix());
    CK("array sinh", A.array().sinh().matrix());
    CK("array cosh", A.array().cosh().matrix());
    CK("array tanh", A.array().tanh().matrix());
    CK("array exp", A.array().exp().matrix());
    CK("array log", A.array().log().matrix());
    CK("array log10", A.array().log10().matrix());
    CK("array abs", A.array().abs().matrix());
    CK("cwiseSqrt", A.cwiseSqrt());
    CK("unaryExpr", A.unaryExpr([](const T &x) { return x.cbrt() * x; }));
    CK("binaryExpr", A.binaryExpr(B, [](const T &x, const T &y) { return atan2(x, y); }));
    // with plain matrices
    CK("A+D", A + Q);
    CK("D+A", Q + A);
    CK("A-D", A - Q);
    CK("D-A", Q - A);
    CK("A.cwiseProduct(D)", A.cwiseProduct(Q));
    CK("D.cwiseProduct(A)", Q.cwiseProduct(A));
    CK("A.cwiseQuotient(D)", (A.array() / Q.array()).matrix());
    CK("D.cwiseQuotient(A)", (Q.array() / A.array()).matrix());
    CK("A*D^T", XP(A, Q.transpose()));
    CK("D*A^T", XP(Q, A.transpose()));
    CK("A^T*D", XP(A.transpose(), Q));
    CK("D^T*A", XP(Q.transpose(), A));
    CK("cast", Q.template cast<T>());
    CK("s*D", s * Q);
    CK("D*s", Q * s);
    // products and reductions
    CK("A*B^T", A * B.transpose());
    CK("A^T*B", A.transpose() * B);
    CK("A*B^T*A", A * B.transpose() * A);
    CK("(A+B)*(A-B)^T", (A + B) * (A - B).transpose());
    CK("lazyProduct", A.lazyProduct(B.transpose()));
    CK("A^T", A.transpose());
    CK("adjoint", A.adjoint());
    CK("conjugate", A.conjugate());
    CK("real", A.real());
    CK1("sum", [&] { return A.sum(); }());
    CK1("prod", [&] { return A.prod(); }());
    CK1("mean", [&] { return A.mean(); }());
    CK1("squaredNorm", [&] { return A.squaredNorm(); }());
    CK1("norm", [&] { return A.norm(); }());
    CK1("l1 norm", [&] { return A.template lpNorm<1>(); }());
    CK1("trace", [&] { return A.trace(); }());
    CK("diagonal", A.diagonal());
    CK("normalized", [&] { M t = A; t.normalize(); return t; }());
    CK("A/norm", A / A.norm());
    CK1("(A-B).norm", [&] { return (A - B).norm(); }());
    CK1("cwiseProduct.sum", [&] { return A.cwiseProduct(B).sum(); }());
    CK("rowwise sum", A.rowwise().sum());
    CK("colwise sum", A.colwise().sum());
    CK("colwise norm", A.colwise().norm());
    CK("rowwise squaredNorm", A.rowwise().squaredNorm());
    CK("colwise prod", A.colwise().prod());
    CK("colwise + vector", A.colwise() + B.col(0));
    CK1("maxCoeff", [&] { return A.maxCoeff(); }());
    CK1("minCoeff", [&] { return A.minCoeff(); }());
    // constants
    CK("Zero", M::Zero(r, c));
    CK("Constant(s)", M::Constant(r, c, s));
    CK("Ones", M::Ones(r, c));
    CK("Identity", M::Identity(r, c));
    CK("setZero", [&] { M t = A; t.setZero(); return t; }());
    // in place
    CK("+=", [&] { M t = A; t += B; return t; }());
    CK("-=", [&] { M t = A; t -= B; return t; }());
    CK("+= itself", [&] { M t = A; t += t; return t; }());
    CK("*= s", [&] { M t = A; t *= s; return t; }());
    CK("/= s", [&] { M t = A; t /= s; return t; }());
    CK("*= d", [&] { M t = A; t *= d; return t; }());
    CK("/= d", [&] { M t = A; t /= d; return t; }());
    CK("array *=", [&] { M t = A; t.array() *= B.array(); return t; }());
    CK("array /=", [&] { M t = A; t.array() /= B.array(); return t; }());
    CK("+= D", [&] { M t = A; t += Q; return t; }());
    CK("-= D", [&] { M t = A; t -= Q; return t; }());
    CK("*= own entry", [&] { M t = A; const T e = t(0, 0); t *= e; return t; }());
    CK("(0,0) *= (0,0)", [&] { M t = A; t(0, 0) *= t(0, 0); return t; }());
    CK("noalias +=", [&] { auto t = (A * B.transpose()).eval(); t.noalias() += B * A.transpose(); return t; }());
    flag("==", (A == B) == [&] { for (size_t i = 0; i < a.e.size(); i++) if (a.e[i].d[0] != b.e[i].d[0]) return false; return true; }());
    flag("array < count", (long)(A.array() < B.array()).count() == [&] { long n = 0; for (size_t i = 0; i < a.e.size(); i++) n += a.e[i].d[0] < b.e[i].d[0]; return n; }());
    if constexpr (R == C || R < 0)
      if (r == c) {
        using Sq = Eigen::Matrix<T, R, R>;
        const Sq G = A, H = B;
        CK1(R < 0 ? "determinant by elimination" : "determinant", [&] { return G.determinant(); }());
        CK1(R < 0 ? "determinant of product by elimination" : "determinant of product", [&] { return (G * H).eval().determinant(); }());
        CK("A*B", G * H);
        CK("A*=B", [&] { Sq t = G; t *= H; return t; }());
        CK("A*=A", [&] { Sq t = G; t *= t; return t; }());
        if constexpr (R > 0 && R <= 3) {
          // adjugate over determinant
          CK("matrix inverse", G.inverse());
        }
      }
    if constexpr (C == 1 || R < 0)
      if (c == 1) {
        const Eigen::Matrix<T, R, 1> x = A, y = B;
        const Eigen::Matrix<S, R, 1> z = Q;
        CK1("dot", [&] { return x.dot(y); }());
        CK1("dot itself", [&] { return x.dot(x); }());
        CK1("dot plain", [&] { return x.dot(z); }());
        CK1("plain dot", [&] { return z.dot(x); }());
        CK("normalized()", x.normalized());
        CK("outer", x * y.transpose());
        CK("outer plain", XP(x, z.transpose()));
        CK("asDiagonal", [&] { Eigen::Matrix<T, R, R> t = x.asDiagonal(); return t; }());
      }
    if constexpr (R == 3 && C == 1) {
      const Eigen::Matrix<T, 3, 1> x = A, y = B;
      const Eigen::Matrix<S, 3, 1> z = Q;
      CK("cross", x.cross(y));
      CK("cross itself", x.cross(x));
      CK("cross plain", x.cross(z.template cast<T>()));
      CK("cross mixed", x.cross(z));
      CK1("triple product", [&] { return x.dot(y.cross(z.template cast<T>())); }());
      CK1("cross norm", [&] { return x.cross(y).norm(); }());
    }
    // operands untouched
    bool same = true;
    for (int i = 0; i < r * c; i++) same &= A.data()[i].data() == A0.data()[i].data() && B.data()[i].data() == B0.data()[i].data();
    flag("operands unchanged", same);
  }
};

static std::vector<Input> inputs(int r, int c, bool thorough)
{
  std::vector<Input> res;
  const int e = r * c, len = orc::packed_len(ORDER, NVAR);
  auto base = [&](int k) {
    Input in;
    in.r = r; in.c = c;
    for (int i = 0; i < e; i++) {
      Data x(len), y(len);
      for (int l = 0; l < len; l++) { x[l] = irr(k * 7 + 1, i * len + l) / 2; y[l] = irr(k * 7 + 2, i * len + l) / 2; }
      x[0] = ((i * 5 + k * 3) % 13 - 6) / 8.0L + 0.0625L; y[0] = ((i * 7 + k * 5 + 2) % 11 - 5) / 4.0L - 0.125L;
      in.a.push_back(x); in.b.push_back(y);
      in.p.push_back(((i * 3 + k) % 7 - 3) / 2.0L + 0.25L);
    }
    in.s.resize(len);
    for (int l = 0; l < len; l++) in.s[l] = irr(k + 40, l) / 2;
    in.s[0] = -0.75L - k;
    in.d = 1.5L + k;
    return in;
  };
  // several dense inputs; positive values so that roots and logarithms are defined
  for (int k = 0; k < (thorough ? 8 : 3); k++) {
    Input in = base(k);
    in.name = "dense " + std::to_string(k);
    res.push_back(in);
    for (auto &x : in.a) x[0] = fabsl(x[0]);
    in.name = "positive " + std::to_string(k);
    res.push_back(in);
  }
  // one entry and one coefficient at a time: all entries of A, B and the scalar
  for (int k = 0; k < (thorough ? 4 : 2); k++) {
    for (int w = 0; w < 2 * e + 1; w++)
      for (int l = 1; l < len; l++) {
        Input in = base(k);
        for (auto *v : {&in.a, &in.b}) for (auto &x : *v) for (int m = 1; m < len; m++) x[m] = 0;
        for (int m = 1; m < len; m++) in.s[m] = 0;
        (w < e ? in.a[w] : w < 2 * e ? in.b[w - e] : in.s)[l] = 1;
        in.name = "basis " + std::to_string(k) + " entry " + std::to_string(w) + " coefficient " + std::to_string(l);
        res.push_back(in);
      }
  }
  // pairs of gradient directions in two entries
  if (ORDER == 2)
    for (int w = 0; w < 2 * e; w++)
      for (int w2 = w; w2 < 2 * e; w2++)
        for (int l = 1; l <= NVAR; l++)
          for (int l2 = 1; l2 <= NVAR; l2++) {
            Input in = base(1);
            for (auto *v : {&in.a, &in.b}) for (auto &x : *v) for (int m = 1; m < len; m++) x[m] = 0;
            (w < e ? in.a[w] : in.b[w - e])[l] += 1;
            (w2 < e ? in.a[w2] : in.b[w2 - e])[l2] += 2;
            in.name = "gradient pair entries " + std::to_string(w) + "," + std::to_string(w2) + " directions " + std::to_string(l) + "," + std::to_string(l2);
            res.push_back(in);
          }
  // every combination of small values, zeros included
  const int base_n = e <= 2 ? 5 : e <= 4 ? 3 : 2;
  const long double vals[] = {0, 1, -1, 0.5L, 2};
  int total = 1;
  for (int i = 0; i < e; i++) total *= base_n;
  for (int code = 0; code < total; code++) {
    Input in = base(2);
    int x = code;
    for (int i = 0; i < e; i++, x /= base_n) { in.a[i][0] = vals[x % base_n]; in.b[i][0] = vals[(x + i + 1) % base_n]; }
    in.name = "values " + std::to_string(code);
    res.push_back(in);
  }
  return res;
}

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
  Explorer e{run};
  const int top = run.thorough() ? 4 : 3;
  uint64_t n = 0;
  for (int r = 1; r <= top; r++)
    for (int c = 1; c <= top; c++) {
      if (r * c > 12) continue;
      for (auto &in : inputs(r, c, run.thorough())) {
        if (!run.mine()) continue;
        n++;
        e.references(in);
#if PART == 0
        e.go<-1, -1>(in);
#elif PART == 1
        if (r == 1 && c == 1) e.go<1, 1>(in);
        else if (r == 2 && c == 2) e.go<2, 2>(in);
        else if (r == 3 && c == 1) e.go<3, 1>(in);
#else
        if (r == 3 && c == 3) e.go<3, 3>(in);
        else if (r == 1 && c == 3) e.go<1, 3>(in);
        else if (r == 2 && c == 3) e.go<2, 3>(in);
#endif
      }
    }
  run.sample(TNAME + ": about 125 expression forms, shapes 1x1 to " + std::to_string(top) + "x" + std::to_string(top) + " fixed and at run time, " + std::to_string(n) + " inputs in this share (dense, every basis coefficient of every entry, gradient pairs, every small value combination)");
  return run.finish();
}
