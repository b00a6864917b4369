// C12: comparisons and absolute value.
#include "explore.hpp"
#include "factories.hpp"
#include "sparse.hpp"
using namespace ex;
using namespace ops;

static bool plain(int o, double a, double b)
{
  switch (o) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a > b; case 4: return a <= b; default: return a >= b; }
}
static const char *const SYM[] = {"==", "!=", "<", ">", "<=", ">="};

static std::vector<long double> classes(bool fl, bool wide)
{
  const double eps = fl ? std::numeric_limits<float>::epsilon() : std::numeric_limits<double>::epsilon();
  const double tiny = fl ? std::numeric_limits<float>::denorm_min() : std::numeric_limits<double>::denorm_min();
  const double mn = fl ? std::numeric_limits<float>::min() : std::numeric_limits<double>::min(), mx = fl ? std::numeric_limits<float>::max() : std::numeric_limits<double>::max();
  std::vector<long double> v = {0.0L, -0.0L, tiny, -tiny, mn, -mn, 1e-9, -1e-9, 1 - eps / 2, 1, 1 + eps, -1, -1 - eps, 2, -2, 0.1, 0.1 + 0.1 * eps, 1e16, 1e16 + 2, mx, -mx, INFINITY, -INFINITY, NAN};
  if (wide) for (auto x : minifloat(4, 2)) v.push_back(x);
  for (auto &x : v) x = fl ? (long double)(float)x : (long double)(double)x;
  return v;
}

static void compare(Run &run, Machine &m, int n, const std::vector<long double> &vals, bool fl, const std::string &extra = "")
{
  m.regs(2);
  const int order = m.order(), len = orc::packed_len(order, n);
  // derivative classes: none, equal, larger in the first, larger in the second, not-a-number
  for (int dc = 0; dc < (n ? 5 : 1); dc++)
    for (auto x : vals)
      for (auto y : vals) {
        Data a(len, 0), b(len, 0);
        for (int i = 1; i < len; i++) {
          a[i] = dc == 0 ? 0 : dc == 1 ? irr(0, i) : dc == 2 ? 100 + i : dc == 3 ? -100 - i : NAN;
          b[i] = dc == 0 ? 0 : dc == 1 ? irr(0, i) : dc == 2 ? -i : dc == 3 ? i : 1;
        }
        a[0] = x; b[0] = y;
        m.load(0, a); m.load(1, b);
        run.count("states");
      
        for (int o = 0; o < 6; o++) {
          auto report = [&](const char *kind, bool got, bool want) {
            run.count("transitions");
            if (got != want) {
              char s[300];
              snprintf(s, sizeof s, "%s n=%d %s: %.17Lg %s %.17Lg is %s, derivative class %d%s", m.name().c_str(), n, kind, x, SYM[o], y, got ? "true" : "false", dc, extra.c_str());
              run.violation(s, s);
            }
          };
          Doing now([&] { return m.name() + " comparison " + SYM[o]; });
          const bool want = plain(o, x, y);
          report("number, number", m.compare(o, 0, 1), want);
          report("number, plain", m.compare_num(o, 0, y, false), want);
          report("plain, number", m.compare_num(o, 1, x, true), want);
          if (x == y || x != x) report("same object", m.compare(o, 0, 0), plain(o, x, x));
        }
        if (!same_bits(m.read(0), a) || !same_bits(m.read(1), b)) run.violation(m.name() + " changed", "a comparison changed an operand");
      }
  // absolute value
  for (int dc = 0; dc < (n ? 3 : 1); dc++)
    for (auto x : vals) {
      Data a(len, 0);
      for (int i = 1; i < len; i++) a[i] = dc == 0 ? 0 : dc == 1 ? irr(0, i) : -1 - i;
      a[0] = x;
      m.load(0, a);
      run.count("states");
      for (int o : {ABS, ABS_F}) {
        run.count("transitions");
        const Outcome r = m.exec(Call{o, {0, 0, 0}});
        bool ok = !r.threw && r.data.size() == a.size() && (r.data[0] == fabsl(x) || (x != x && r.data[0] != r.data[0]));
        for (int i = 1; ok && i < len; i++) if (!(r.data[i] == (x < 0 ? -a[i] : a[i]))) ok = false;
        if (!ok) {
          const std::string d = m.name() + " n=" + std::to_string(n) + " " + NAME[o] + " of " + orc::show(a);
          run.violation(d, d + " gives " + orc::show(r.data));
        } else run.count("traces");
        run.outcome(r.data);
        if (!same_bits(m.read(0), a)) run.violation(m.name() + " abs changed", "absolute value changed its operand");
      }
    }
  run.sample(m.name() + " n=" + std::to_string(n) + ": " + std::to_string(vals.size()) + "^2 values x 6 comparisons x {number-number, number-plain, plain-number} x derivative classes; absolute value");
  (void)fl;
}

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
  for (char sc : {'d', 'f', 'l'})
    for (int order = 1; order <= 2; order++)
      for (int fixed = -1; fixed <= 24; fixed++)
        for (int n : {0, 1, 2, 3, 4, 5, 7, 8, 16, 17, 33}) {
          if (fixed >= 0 && n != 0) break;
          const int k = fixed >= 0 ? fixed : n;
          auto m = make_machine(order, fixed, sc);
          if (!m) continue;
          if (run.mine()) compare(run, *m, k, classes(sc == 'f', k <= (run.thorough() ? 8 : 2)), sc == 'f');
        }
  if (run.mine()) { SparseMachine<double> m({"x", "y"}); compare(run, m, 2, classes(false, true), false); }
  if (run.mine()) { SparseMachine<double> m({}); compare(run, m, 0, classes(false, true), false); }
  if (run.mine()) { SparseMachine<float> m({"x"}); compare(run, m, 1, classes(true, true), true); }
  if (run.mine()) { // names of one side only
    SparseMachine<double> m({"x", "y"});
    const auto vals = classes(false, false);
    m.regs(2);
    for (auto x : vals) for (auto y : vals)
      for (unsigned a = 0; a < 4; a++) for (unsigned b = 0; b < 4; b++) {
        m.load_mask(0, {x, 1, -2}, a); m.load_mask(1, {y, 3, 1}, b);
        run.count("states");
        for (int o = 0; o < 6; o++) {
          run.count("transitions");
          const bool got = m.compare(o, 0, 1);
          if (got != plain(o, x, y)) {
            char s[200];
            snprintf(s, sizeof s, "SScalar names %u/%u: %.17Lg %s %.17Lg is %s", a, b, x, SYM[o], y, got ? "true" : "false");
            run.violation(s, s);
          }
        }
      }
  }
  return run.finish();
}
