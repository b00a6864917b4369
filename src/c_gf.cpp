// Fixpoint exploration over finite-field coefficients. -DOUT (plain operators, C01) or -DINPLACE (compound assignments, C04).
#include "explore.hpp"
#include "gf.hpp"
#include <hyperjet/hyperjet.h>
namespace hj = hyperjet;
using namespace ex;

template <class T, int P> struct Field {
  using G = gf::GF<P>;
  using V = std::vector<G>;
  Run &run;
  int order, n;
  gf::Model<P> model;
  std::string nm;
  Field(Run &r, int n_) : run(r), order(T::order()), n(n_), model(T::order(), n_)
  {
    nm = "DDScalar<" + std::to_string(order) + ",GF(" + std::to_string(P) + ")," + (T::is_dynamic() ? "Dynamic" : std::to_string(n)) + "> n=" + std::to_string(n);
  }
  static T make(const V &v)
  {
    typename T::Data d;
    if constexpr (T::is_dynamic()) d.resize(v.size());
    for (size_t i = 0; i < v.size(); i++) d[i] = v[i];
    return T::create(d);
  }
  static std::string show(const V &v) { std::string s = "["; for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x.v); return s + "]"; }
  template <class L> void judge(const char *op, const V &a, const V *b, const V &want, L real)
  {
    std::string what;
    auto desc = [&]() { return nm + " " + op + " a=" + show(a) + (b ? " b=" + show(*b) : ""); };
    Doing now(desc);
    run.counters["transitions"]++;
    const T got = real();
    bool ok = got.size() == n && (int)got.data().size() == model.len;
    if (ok) for (int i = 0; i < model.len; i++) if (!(got.data()[i] == want[i])) ok = false;
    if (!ok) {
      V g(got.data().begin(), got.data().end());
      run.violation(desc(), "expected " + show(want) + " got " + show(g) + " in " + desc());
    }
  }
  V decode(uint64_t code) const
  {
    V v(model.len);
    for (int i = 0; i < model.len; i++) { v[i] = G((int)(code % P)); code /= P; }
    return v;
  }
  // states reachable in the model from variables and constants
  std::vector<V> reachable()
  {
    uint64_t total = 1;
    for (int i = 0; i < model.len; i++) total *= P;
    std::vector<char> seen(total, 0);
    std::vector<uint64_t> list;
    auto enc = [&](const V &v) { uint64_t c = 0; for (int i = model.len - 1; i >= 0; i--) c = c * P + v[i].v; return c; };
    auto push = [&](const V &v) { const uint64_t c = enc(v); if (!seen[c]) { seen[c] = 1; list.push_back(c); } };
    for (int f = 0; f < P; f++) {
      push(model.cst(G(f)));
      for (int i = 0; i < n; i++) { V v = model.cst(G(f)); v[1 + i] = G(1); push(v); }
    }
    const size_t gen = list.size();
    // breadth first: combining with the generators under +, - and * is enough to reach the fixpoint; all other operations are
    // then checked to stay inside
    for (size_t k = 0; k < list.size(); k++) {
      const V a = decode(list[k]);
      for (size_t g = 0; g < gen; g++) {
        const V b = decode(list[g]);
        push(model.add(a, b, G(1))); push(model.add(a, b, G(-1))); push(model.mul(a, b));
      }
    }
    std::vector<V> r;
    for (uint64_t c : list) r.push_back(decode(c));
    run.notes["reachable " + nm] = std::to_string(r.size()) + " of " + std::to_string(total) + " coefficient vectors";
    return r;
  }
  // states with at most w nonzero derivative coefficients
  std::vector<V> light(int w)
  {
    std::vector<V> r;
    V v(model.len, G(0));
    std::function<void(int, int)> rec = [&](int from, int left) {
      for (int f = 0; f < P; f++) { v[0] = G(f); r.push_back(v); }
      if (!left) return;
      for (int i = from; i < model.len; i++)
        for (int x = 1; x < P; x++) { v[i] = G(x); rec(i + 1, left - 1); v[i] = G(0); }
    };
    rec(1, w);
    return r;
  }
  void unary_ops(const V &a)
  {
    const G zero(0);
    const T x = make(a);
    for (int si = 0; si < P; si++) {
      const G s(si);
#ifdef INPLACE
      judge("a += number", a, nullptr, model.add(a, model.cst(s), G(1)), [&] { T t = x; t += s; return t; });
      judge("a -= number", a, nullptr, model.add(a, model.cst(s), G(-1)), [&] { T t = x; t -= s; return t; });
      judge("a *= number", a, nullptr, model.mul(a, model.cst(s)), [&] { T t = x; t *= s; return t; });
      if (si) judge("a /= number", a, nullptr, model.div(a, model.cst(s)), [&] { T t = x; t /= s; return t; });
#else
      judge("a + number", a, nullptr, model.add(a, model.cst(s), G(1)), [&] { return x + s; });
      judge("number + a", a, nullptr, model.add(a, model.cst(s), G(1)), [&] { return s + x; });
      judge("a - number", a, nullptr, model.add(a, model.cst(s), G(-1)), [&] { return x - s; });
      judge("number - a", a, nullptr, model.add(model.cst(s), a, G(-1)), [&] { return s - x; });
      judge("a * number", a, nullptr, model.mul(a, model.cst(s)), [&] { return x * s; });
      judge("number * a", a, nullptr, model.mul(a, model.cst(s)), [&] { return s * x; });
      if (si) judge("a / number", a, nullptr, model.div(a, model.cst(s)), [&] { return x / s; });
      if (a[0] != zero) judge("number / a", a, nullptr, model.div(model.cst(s), a), [&] { return s / x; });
#endif
    }
#ifdef INPLACE
    judge("a += a", a, nullptr, model.add(a, a, G(1)), [&] { T t = x; t += t; return t; });
    judge("a -= a", a, nullptr, model.add(a, a, G(-1)), [&] { T t = x; t -= t; return t; });
    judge("a *= a", a, nullptr, model.mul(a, a), [&] { T t = x; t *= t; return t; });
    if (a[0] != zero) judge("a /= a", a, nullptr, model.div(a, a), [&] { T t = x; t /= t; return t; });
    for (int i = 0; i < model.len; i++) {
      judge("a += own coefficient", a, nullptr, model.add(a, model.cst(a[i]), G(1)), [&] { T t = x; t += t.data()[i]; return t; });
      judge("a -= own coefficient", a, nullptr, model.add(a, model.cst(a[i]), G(-1)), [&] { T t = x; t -= t.data()[i]; return t; });
      judge("a *= own coefficient", a, nullptr, model.mul(a, model.cst(a[i])), [&] { T t = x; t *= t.data()[i]; return t; });
      if (a[i] != zero) judge("a /= own coefficient", a, nullptr, model.div(a, model.cst(a[i])), [&] { T t = x; t /= t.data()[i]; return t; });
    }
#elif defined(EVAL)
#else
    judge("-a", a, nullptr, model.mul(a, model.cst(G(-1))), [&] { return -x; });
    if (a[0] != zero) judge("reciprocal(a)", a, nullptr, model.div(model.cst(G(1)), a), [&] { return x.reciprocal(); });
    judge("a + a", a, nullptr, model.add(a, a, G(1)), [&] { return x + x; });
    judge("a - a", a, nullptr, model.add(a, a, G(-1)), [&] { return x - x; });
    judge("a * a", a, nullptr, model.mul(a, a), [&] { return x * x; });
    if (a[0] != zero) judge("a / a", a, nullptr, model.div(a, a), [&] { return x / x; });
#endif
  }
  void go(const std::vector<V> &S)
  {
    std::vector<T> real;
    for (auto &v : S) real.push_back(make(v));
    for (size_t i = 0; i < S.size(); i++) {
      if (!run.mine()) continue;
      run.count("states");
      unary_ops(S[i]);
      const V &a = S[i];
      const T &x = real[i];
      for (size_t j = 0; j < S.size(); j++) {
        const V &b = S[j];
        const T &y = real[j];
#ifdef INPLACE
        judge("a += b", a, &b, model.add(a, b, G(1)), [&] { T t = x; t += y; return t; });
        judge("a -= b", a, &b, model.add(a, b, G(-1)), [&] { T t = x; t -= y; return t; });
        judge("a *= b", a, &b, model.mul(a, b), [&] { T t = x; t *= y; return t; });
        if (b[0] != G(0)) judge("a /= b", a, &b, model.div(a, b), [&] { T t = x; t /= y; return t; });
#else
        judge("a + b", a, &b, model.add(a, b, G(1)), [&] { return x + y; });
        judge("a - b", a, &b, model.add(a, b, G(-1)), [&] { return x - y; });
        judge("a * b", a, &b, model.mul(a, b), [&] { return x * y; });
        if (b[0] != G(0)) judge("a / b", a, &b, model.div(a, b), [&] { return x / y; });
#endif
      }
      for (int k = 0; k < model.len; k++)
        if (!(x.data()[k] == a[k])) run.violation(nm + " operand changed", nm + ": an operand was changed");
    }
    for (size_t j = 0; j < S.size(); j++)
      for (int k = 0; k < model.len; k++)
        if (!(real[j].data()[k] == S[j][k])) { run.violation(nm + " operand changed", nm + ": an operand was changed"); j = S.size() - 1; break; }
    run.sample(nm + ": all operations on all pairs of " + std::to_string(S.size()) + " coefficient vectors");
  }
};

template <int O, int P, long N> static void fixpoint(Run &run, int n = N)
{
  Field<hj::DDScalar<O, gf::GF<P>, N>, P> f(run, n);
  f.go(f.reachable());
}
template <int O, int P, long N> static void light(Run &run, int w, int n = N)
{
  Field<hj::DDScalar<O, gf::GF<P>, N>, P> f(run, n);
  f.go(f.light(w));
}

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
#if PART == 0
  fixpoint<2, 7, 1>(run);
  light<1, 3, 9>(run, 2);
  if (run.thorough()) light<1, 3, 9>(run, 3);
#elif PART == 1
  fixpoint<2, 7, -1>(run, 1);
  fixpoint<2, 7, -1>(run, 0);
#elif PART == 2
  fixpoint<1, 5, 2>(run);
  fixpoint<2, 5, 0>(run);
#elif PART == 3
  fixpoint<1, 5, -1>(run, 3);
  fixpoint<1, 5, -1>(run, 0);
  if (run.thorough()) { fixpoint<1, 5, -1>(run, 5); light<1, 5, -1>(run, 2, 20); }
#elif PART == 4
  fixpoint<2, 3, 2>(run);
  light<2, 3, 3>(run, 2);
  if (run.thorough()) light<2, 3, 3>(run, 4);
#elif PART == 5
  fixpoint<2, 3, -1>(run, 2);
  light<2, 3, -1>(run, 2, 4);
  light<2, 3, -1>(run, 1, 9);
  if (run.thorough()) { light<2, 3, -1>(run, 2, 7); light<2, 3, -1>(run, 1, 17); light<2, 3, -1>(run, 3, 4); }
#elif PART == 6
  light<2, 3, 4>(run, 2);
  light<2, 3, 6>(run, 1);
  if (run.thorough()) { light<2, 3, 4>(run, 3); light<2, 3, 6>(run, 2); }
#elif PART == 7
  light<2, 3, 5>(run, 1);
  light<2, 3, 7>(run, 1);
  if (run.thorough()) { light<2, 3, 5>(run, 2); light<2, 3, 16>(run, 1); fixpoint<2, 11, 1>(run); fixpoint<2, 13, -1>(run, 1); fixpoint<2, 5, 2>(run); }
#endif
  return run.finish();
}
