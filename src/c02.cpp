// C02: one-argument functions.
#include "explore.hpp"
#include "factories.hpp"
using namespace ex;
using namespace ops;

static std::vector<int> functions()
{
  std::vector<int> r;
  for (int o = SQRT; o <= ABS_F; o++) r.push_back(o);
  return r;
}
static const std::vector<long double> EXPS = as_double({0, 1, 2, 3, -1, -2, 0.5, -0.5, 1.5, 2.5, 1.0 / 3, -3.7, 4, 5, 7, 10, 1e-3, 2.0000001, 0.9999999});
static const std::vector<long double> BASES = as_double({2, 10, M_E, 0.5, 3, 1.5, 0.1, 1000});

// every call of the alphabet with one operand
static std::vector<Call> alphabet()
{
  std::vector<Call> r;
  for (int o : functions()) r.push_back(Call{o, {0, 0, 0}});
  for (auto e : EXPS) {
    r.push_back(Call{POW, {0, 0, 0}, e});
    r.push_back(Call{POW_F, {0, 0, 0}, e});
    if (e == floorl(e)) r.push_back(Call{POWI_F, {0, 0, 0}, e});
  }
  for (auto b : BASES) r.push_back(Call{LOGB, {0, 0, 0}, b});
  return r;
}

struct Cache { // partials per (call, value): method and free form share them
  std::map<std::pair<int, long double>, orc::Partials> m;
  const orc::Partials &get(const Call &c, const std::vector<Data> &regs)
  {
    const auto k = std::make_pair(orc::base_op(c.op), takes_number(c.op) ? c.s : 0.0L);
    auto it = m.find(k);
    if (it == m.end()) it = m.emplace(k, orc::call_partials(c, regs)).first;
    return it->second;
  }
};

// fine values, one variable
static void fine(Run &run, const std::vector<long double> &values, const char *what)
{
  static std::unique_ptr<Machine> ms[4] = {make_machine(1, 1), make_machine(2, 1), make_machine(1, -1), make_machine(2, -1)};
  const auto calls = alphabet();
  std::vector<Data> regs(1);
  Data got;
  for (auto &m : ms) m->regs(1);
  for (size_t vi = 0; vi < values.size(); vi++) {
    if (vi % 64 == 0 && !run.mine()) { vi += 63; continue; }
    Cache cache;
    for (auto &m : ms) {
      const int order = m->order();
      for (int p = 0; p < 2; p++) {
        regs[0].assign(orc::packed_len(order, 1), 0);
        regs[0][0] = values[vi];
        regs[0][1] = p == 0 ? 1 : -0.625L;
        if (order == 2) regs[0][2] = p == 0 ? 0 : 1.75L;
        m->load(0, regs[0]);
        run.count("states");
        for (const Call &c : calls) step(run, *m, 1, c, regs, got, &cache.get(c, regs));
        run.outcome(got);
        if (!same_bits(m->read(0), regs[0])) run.violation(m->name() + " operand changed", m->name() + ": operand changed by an out-of-place operation, was " + orc::show(regs[0]));
      }
    }
  }
  run.sample(std::string(what) + ": " + std::to_string(values.size()) + " argument values x " + std::to_string(calls.size()) + " calls x {order 1,2} x {fixed,run-time}");
}

static void sizes(Run &run, int order, int fixed, int n)
{
  auto m = make_machine(order, fixed);
  if (!m) throw std::runtime_error("missing instantiation");
  m->regs(1);
  std::vector<long double> grid = n <= 8 ? both({0, 0.3, 0.5, 0.8, 1, 1.25, 2, 3.7, 1e-4, 30}) : n <= 16 ? both({0, 0.5, 0.8, 1.25, 5}) : both({0.5, 1.25});
  const auto calls = alphabet();
  const auto pats = patterns(order, n, 1, n <= 16 || run.thorough());
  std::vector<Data> regs(1);
  Data got;
  for (auto x : grid) {
    Cache cache;
    for (const auto &p : pats) {
      regs[0] = p[0]; regs[0][0] = x;
      m->load(0, regs[0]);
      run.count("states");
      for (const Call &c : calls) { step(run, *m, n, c, regs, got, &cache.get(c, regs)); }
      run.outcome(got);
      if (!same_bits(m->read(0), regs[0])) run.violation(m->name() + " operand changed", m->name() + ": operand changed by an out-of-place operation, was " + orc::show(regs[0]));
    }
  }
  run.sample(m->name() + " n=" + std::to_string(n) + ": " + std::to_string(grid.size()) + " values x " + std::to_string(pats.size()) + " derivative patterns x " + std::to_string(calls.size()) + " calls");
}

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
  for (int order = 2; order >= 1; order--) {
    std::vector<int> fixed = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 24};
    std::vector<int> dyn = fixed;
    for (int n : {17, 31, 33, 65}) dyn.push_back(n);
    if (run.thorough()) for (int n : {18, 19, 21, 22, 23, 25, 32, 40, 63, 64, 100, 129}) dyn.push_back(n);
    for (int i = (int)dyn.size() - 1; i >= 0; i--) if (run.mine()) sizes(run, order, -1, dyn[i]);
    for (int i = (int)fixed.size() - 1; i >= 0; i--) if (run.mine()) sizes(run, order, fixed[i], fixed[i]);
  }
  fine(run, special_values(), "special values");
  fine(run, run.thorough() ? minifloat(6, 12) : minifloat(5, 10), run.thorough() ? "every value with 6 exponent and 12 mantissa bits" : "every value with 5 exponent and 10 mantissa bits (binary16)");
  return run.finish();
}
