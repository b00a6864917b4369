// C21: text form.
#include "explore.hpp"
#include <Eigen/Core>
#include <hyperjet/hyperjet.h>
#include <iomanip>
namespace hj = hyperjet;
using namespace ex;

struct Fmt { const char *name; std::function<void(std::ostream &)> set; };
static const std::vector<Fmt> FORMATS = {
  {"default", [](std::ostream &) {}},
  {"precision 17", [](std::ostream &o) { o << std::setprecision(17); }},
  {"fixed 3", [](std::ostream &o) { o << std::fixed << std::setprecision(3); }},
  {"scientific", [](std::ostream &o) { o << std::scientific; }},
  {"showpos", [](std::ostream &o) { o << std::showpos; }},
  {"hexfloat", [](std::ostream &o) { o << std::hexfloat; }},
  {"width 12 fill *", [](std::ostream &o) { o << std::setw(12) << std::setfill('*'); }},
  {"uppercase", [](std::ostream &o) { o << std::uppercase; }},
};
template <class S> static std::vector<S> values()
{
  std::vector<S> v = {0, S(-0.0), 1, -1, S(0.1), S(-0.1), S(1.0 / 3), S(123456), S(1234567), S(-12345678.9), S(1e-5), S(1e-4), S(1e15), S(1e16), S(1e17), std::numeric_limits<S>::max(), std::numeric_limits<S>::lowest(),
                      std::numeric_limits<S>::min(), std::numeric_limits<S>::denorm_min(), std::numeric_limits<S>::infinity(), -std::numeric_limits<S>::infinity(), std::numeric_limits<S>::quiet_NaN()};
  for (auto x : minifloat(4, 3)) v.push_back(S(x));
  for (int k = -30; k <= 30; k++) for (double f : {1.0, 2.5, 9.999999}) { v.push_back(S(f * std::pow(10.0, k))); v.push_back(S(-f * std::pow(10.0, k))); }
  return v;
}
static void judge(Run &run, const std::string &what, const std::string &got, const std::string &want)
{
  run.count("transitions");
  if (got != want) run.violation(what, what + ": printed '" + got + "', expected '" + want + "'");
  uint64_t h = std::hash<std::string>()(got);
  if (run.outcomes.size() < 100000) run.outcomes.insert(h);
}

template <class T> static void dense(Run &run, int n)
{
  using S = typename T::Scalar;
  const std::string nm = "DDScalar<" + std::to_string(T::order()) + ",size " + (T::is_dynamic() ? "dynamic" : std::to_string(n)) + "> n=" + std::to_string(n);
  const int len = orc::packed_len(T::order(), n);
  for (S v : values<S>())
    for (int dc = 0; dc < 4; dc++) {
      typename T::Data d;
      if constexpr (T::is_dynamic()) d.resize(len);
      for (int i = 1; i < len; i++) d[i] = dc == 0 ? S(0) : dc == 1 ? S(irr(0, i)) : dc == 2 ? S(-1e9) : std::numeric_limits<S>::quiet_NaN();
      d[0] = v;
      T x = T::create(d);
      run.count("states"); run.count("traces");
      for (auto &f : FORMATS) {
        std::ostringstream a, b;
        f.set(a); f.set(b);
        a << x << "|" << x; // twice: no state may stay behind in the stream except what the plain value leaves
        b << v << "hj|" << v << "hj";
        judge(run, nm + " " + f.name + " value " + std::to_string((double)v) + " derivatives " + std::to_string(dc), a.str(), b.str());
      }
      std::ostringstream b;
      b << v << "hj";
      judge(run, nm + " to_string value " + std::to_string((double)v) + " derivatives " + std::to_string(dc), x.to_string(), b.str());
    }
  run.sample(nm + ": " + std::to_string(values<S>().size()) + " values x 4 derivative classes x " + std::to_string(FORMATS.size()) + " stream states, to_string");
}

static void sparse(Run &run)
{
  using T = hj::SScalar<double>;
  const std::vector<std::string> names = {"x", "y", "zz", "x1"};
  const std::vector<double> ders = {1, -1, 0, -0.0, 0.25, -1e-5, 123456789, -2.5e20, INFINITY, -INFINITY};
  auto num = [](double v) { std::ostringstream o; o << v; return o.str(); };
  for (double v : values<double>())
    for (unsigned mask = 0; mask < 16; mask++)
      for (size_t q = 0; q < ders.size(); q++) {
        if (v != 1 && q > 1 && mask != 15) continue;
        T::Data d;
        std::multiset<std::string> want;
        for (int i = 0; i < 4; i++)
          if (mask >> i & 1) {
            const double g = ders[(q + i) % ders.size()];
            d[names[i]] = g;
            want.insert(std::string(std::signbit(g) ? "" : "+") + num(g) + "*d" + names[i]);
          }
        T x(v, d);
        run.count("states"); run.count("traces");
        std::ostringstream o;
        o << x;
        for (const std::string &text : {o.str(), x.to_string()}) {
          std::istringstream in(text);
          std::string first, w;
          in >> first;
          std::multiset<std::string> got;
          while (in >> w) got.insert(w);
          const std::string what = "SScalar value " + num(v) + " names " + std::to_string(mask) + " derivatives " + std::to_string(q);
          std::string ws;
          for (auto &s : want) ws += " " + s;
          judge(run, what, first == num(v) && got == want ? "ok" : text, "ok");
        }
      }
  run.sample("SScalar<double>: values x 16 name subsets x derivative values; names may appear in any order, each exactly once");
}

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
  auto go = [&](auto *p, int n) { using T = std::remove_pointer_t<decltype(p)>; if (run.mine()) dense<T>(run, n); };
  go((hj::DDScalar<1, double, 0> *)0, 0); go((hj::DDScalar<1, double, 1> *)0, 1); go((hj::DDScalar<1, double, 3> *)0, 3); go((hj::DDScalar<1, double, 16> *)0, 16);
  go((hj::DDScalar<2, double, 0> *)0, 0); go((hj::DDScalar<2, double, 1> *)0, 1); go((hj::DDScalar<2, double, 3> *)0, 3); go((hj::DDScalar<2, double, 16> *)0, 16);
  for (int n : {0, 1, 2, 5, 20, 40}) { go((hj::DDScalar<1, double, -1> *)0, n); go((hj::DDScalar<2, double, -1> *)0, n); }
  go((hj::DDScalar<1, float, 2> *)0, 2); go((hj::DDScalar<2, float, -1> *)0, 2);
  go((hj::DDScalar<1, long double, -1> *)0, 2); go((hj::DDScalar<2, long double, 2> *)0, 2);
  if (run.mine()) sparse(run);
  return run.finish();
}
