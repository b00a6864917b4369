// C03: atan2 and hypot.
#include "explore.hpp"
#include "factories.hpp"
using namespace ex;
using namespace ops;

static const int TWO[] = {ATAN2, ATAN2_F, HYPOT2, HYPOT2_F};
static const int THREE[] = {HYPOT3, HYPOT3_F};

static void explore(Run &run, int order, int fixed, int n, const std::vector<long double> &g2, const std::vector<long double> &g3, bool full, size_t max2 = ~0ul, size_t max3 = ~0ul)
{
  auto m = make_machine(order, fixed);
  if (!m) throw std::runtime_error("missing instantiation");
  m->regs(3);
  std::vector<Data> regs(3);
  Data got;
  auto p2 = patterns(order, n, 2, full), p3 = patterns(order, n, 3, full);
  if (p2.size() > max2) p2.resize(max2);
  if (p3.size() > max3) p3.resize(max3);
  auto load = [&](int k, const Pattern &p, const long double *v) {
    for (int i = 0; i < k; i++) { regs[i] = p[i]; regs[i][0] = v[i]; m->load(i, regs[i]); }
    run.count("states");
  };
  auto unchanged = [&](int k) {
    for (int i = 0; i < k; i++) if (!same_bits(m->read(i), regs[i])) run.violation(m->name() + " operand changed", m->name() + ": operand changed by an out-of-place operation");
  };
  regs[2].assign(orc::packed_len(order, n), 0);
  for (auto x : g2)
    for (auto y : g2) {
      const long double v[3] = {x, y, 0};
      std::vector<Data> val = {{x}, {y}};
      orc::Partials pa = orc::call_partials(Call{ATAN2, {0, 1, 0}}, val), ph = orc::call_partials(Call{HYPOT2, {0, 1, 0}}, val);
      for (auto &p : p2) {
        load(2, p, v);
        for (int o : TWO) { step(run, *m, n, Call{o, {0, 1, 0}}, regs, got, orc::base_op(o) == ATAN2 ? &pa : &ph); run.outcome(got); }
        unchanged(2);
      }
      // same object on both sides, and on two of three
      if (x == g2[0] || x == y || y == g2[1])
        for (auto &p : p2) {
          load(2, p, v);
          for (int o : TWO) for (int i = 0; i < 2; i++) step(run, *m, n, Call{o, {i, i, 0}}, regs, got);
          for (int o : THREE) for (int c = 0; c < 8; c++) step(run, *m, n, Call{o, {c & 1, (c >> 1) & 1, c >> 2}}, regs, got);
          unchanged(2);
        }
    }
  for (auto x : g3)
    for (auto y : g3)
      for (auto z : g3) {
        const long double v[3] = {x, y, z};
        std::vector<Data> val = {{x}, {y}, {z}};
        const orc::Partials ph = orc::call_partials(Call{HYPOT3, {0, 1, 2}}, val);
        for (auto &p : p3) {
          load(3, p, v);
          for (int o : THREE) { step(run, *m, n, Call{o, {0, 1, 2}}, regs, got, &ph); run.outcome(got); }
          unchanged(3);
        }
      }
  run.sample(m->name() + " n=" + std::to_string(n) + ": " + std::to_string(g2.size()) + "^2 pairs x " + std::to_string(p2.size()) + " patterns, " + std::to_string(g3.size()) + "^3 triples x " + std::to_string(p3.size()) + " patterns");
}

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
  const bool th = run.thorough();
  auto with = [](std::vector<long double> a, const std::vector<long double> &b) { a.insert(a.end(), b.begin(), b.end()); return a; };
  const std::vector<long double> coarse = both({0, 1, 0.5, 3}), tiny = {0, 1.5, -0.5};
  const auto mid = with(minifloat(3, 1), {1e-8, -1e-8, 1e8, -1e8});
  for (int order = 2; order >= 1; order--) {
    // small sizes: fine values. The finest grid is split by rows to balance the work.
    for (int n = 1; n <= 2; n++)
      for (int fixed : {-1, n}) {
        const auto all = with(minifloat(4, th ? 3 : 2), magnitudes());
        for (size_t part = 0; part < 1; part++)
          if (run.mine()) explore(run, order, fixed, n, all, {}, true, n == 1 ? ~0ul : 24);
        const auto g3 = th ? minifloat(4, 1) : minifloat(3, 1);
        if (run.mine()) explore(run, order, fixed, n, {}, g3, true, ~0ul, 30);
      }
    for (int n = 0; n <= 24; n++)
      for (int fixed : {-1, n}) {
        if (n > 16 && n != 20 && n != 24 && fixed >= 0) continue;
        if (run.mine()) explore(run, order, fixed, n, n <= 4 ? mid : coarse, n <= 4 ? coarse : tiny, n <= 6 || th);
      }
    for (int n : {31, 32, 33, 64, 65, 129}) if (run.mine()) explore(run, order, -1, n, tiny, {1.5, -0.5}, false);
  }
  return run.finish();
}
