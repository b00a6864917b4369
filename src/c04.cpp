// C04: compound assignments.
#include "explore.hpp"
#ifndef SPARSE_ONLY
#include "factories.hpp"
#endif
#include "sparse.hpp"
using namespace ex;
using namespace ops;
static const int INB[] = {IADD, ISUB, IMUL, IDIV};
static const int INS[] = {IADDS, ISUBS, IMULS, IDIVS};

static void one_step(Run &run, int order, int fixed, int n)
{
  auto m = make_machine(order, fixed);
  if (!m) throw std::runtime_error("missing instantiation");
  m->regs(2);
  std::vector<long double> grid = n <= 2 ? minifloat(3, 2) : n <= 6 ? both({0, 1, 0.5, 3, 1e-7, 2e5}) : n <= 16 ? both({1, 0.75}) : as_double({-1.5, 0.3});
  if (n <= 2) for (auto x : magnitudes()) grid.push_back(x);
  if (run.thorough()) grid = n <= 2 ? minifloat(4, 2) : n <= 6 ? minifloat(3, 1) : n <= 16 ? both({0, 1, 0.75, 2e5}) : grid;
  const auto pats = patterns(order, n, 2, n <= 8 || (run.thorough() && n <= 17));
  const std::vector<long double> nums = as_double({0, 1, -1, 2, 3.7, -1e-4});
  std::vector<Data> regs(2);
  Data got;
  auto load = [&](int i) { m->load(i, regs[i]); };
  for (auto x : grid)
    for (auto y : grid)
      for (auto &p : pats) {
        regs[0] = p[0]; regs[1] = p[1]; regs[0][0] = x; regs[1][0] = y;
        load(0); load(1);
        run.count("states");
        for (int o : INB) {
          step(run, *m, n, Call{o, {0, 1, 0}}, regs, got);
          load(0);
          if (!same_bits(m->read(1), regs[1])) { run.violation(describe(*m, n, Call{o, {0, 1, 0}}, regs) + " other", "the right-hand operand was changed by " + describe(*m, n, Call{o, {0, 1, 0}}, regs)); load(1); }
        }
        if (y != grid[0]) continue;
        for (int o : INB) { step(run, *m, n, Call{o, {0, 0, 0}}, regs, got); run.outcome(got); load(0); }
        for (int o : INS) for (auto s : nums) { step(run, *m, n, Call{o, {0, 0, 0}, s}, regs, got); load(0); }
        const int len = orc::packed_len(order, n);
        for (int o : INS) for (int k = 0; k < len; k++) {
          if (len > 40 && k > 3 && k < len - 3 && k != n && k != n + 1) continue;
          step(run, *m, n, Call{o, {0, 0, 0}, 0, k}, regs, got); load(0);
        }
        if (!same_bits(m->read(1), regs[1])) run.violation(m->name() + " other object", m->name() + ": an object not involved was changed");
      }
  run.sample(m->name() + " n=" + std::to_string(n) + ": " + std::to_string(grid.size()) + "^2 value pairs x " + std::to_string(pats.size()) + " patterns x {other, itself, numbers, own coefficients}");
}

struct Hist {
  Run &run;
  Machine &m;
  int n, len, k;
  bool own;
  std::vector<Data> regs;
  std::vector<Call> calls;
  std::string path;
  void init()
  {
    for (int o : INB) for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) calls.push_back(Call{o, {i, j, 0}});
    for (int o : INS) for (int i = 0; i < k; i++) {
      calls.push_back(Call{o, {i, 0, 0}, -1.5L});
      if (own) for (int q = 0; q < len; q++) calls.push_back(Call{o, {i, 0, 0}, 0, q});
    }
  }
  void go(int d)
  {
    if (d == 0) { run.count("histories"); return; }
    for (const Call &c : calls) {
      for (int i = 0; i < k; i++) m.load(i, regs[i]);
      Data got;
      bool dom;
      if (!step(run, m, n, c, regs, got, nullptr, 1e60L, &dom)) continue;
      for (int i = 0; i < k; i++)
        if (i != c.a[0] && !same_bits(m.read(i), regs[i])) run.violation("bystander " + describe(m, n, c, regs), "an object that is not the target was changed by " + describe(m, n, c, regs));
      if (!same_bits(m.read(c.a[0]), got)) run.violation("target " + describe(m, n, c, regs), "target differs from the returned reference after " + describe(m, n, c, regs));
      if (!dom) continue;
      const Data keep = regs[c.a[0]];
      regs[c.a[0]] = got;
      run.count("states");
      go(d - 1);
      regs[c.a[0]] = keep;
    }
  }
};
static void histories(Run &run, std::unique_ptr<Machine> m, int n, int k, int depth, bool own)
{
  Hist h{run, *m, n, orc::packed_len(m->order(), n), k, own, {}, {}, ""};
  m->regs(k);
  for (int i = 0; i < k; i++) {
    Data d(h.len, 0);
    d[0] = i == 0 ? 1.25L : i == 1 ? -0.75L : 2;
    if (n) d[1 + i % n] = 1;
    h.regs.push_back(d);
  }
  h.init();
  h.go(depth);
  run.sample(m->name() + " n=" + std::to_string(n) + ": all histories of " + std::to_string(depth) + " updates from " + std::to_string(h.calls.size()) + " updates on " + std::to_string(k) + " objects");
}

static void sparse_steps(Run &run)
{
  const std::vector<std::string> names = {"x", "y", "z"};
  SparseMachine<double> m(names);
  m.regs(2);
  std::vector<Data> regs(2);
  Data got;
  const auto grid = minifloat(3, 1);
  for (unsigned ma = 0; ma < 8; ma++)
    for (unsigned mb = 0; mb < 8; mb++) {
      if (!run.mine()) continue;
      for (auto x : grid)
        for (auto y : grid) {
          regs[0] = {x, 0, 0, 0}; regs[1] = {y, 0, 0, 0};
          for (int i = 0; i < 3; i++) { if (ma >> i & 1) regs[0][1 + i] = irr(0, i + 1); if (mb >> i & 1) regs[1][1 + i] = irr(1, i + 1); }
          run.count("states");
          for (int o : INB)
            for (int alias = 0; alias < 2; alias++) {
              m.load_mask(0, regs[0], ma); m.load_mask(1, regs[1], mb);
              step(run, m, 3, Call{o, {0, alias ? 0 : 1, 0}}, regs, got);
              run.outcome(got);
              if (!same_bits(m.read(1), regs[1]) || m.r[1].size() != __builtin_popcount(mb)) run.violation("sparse other " + std::to_string(o), "the right-hand operand was changed by " + describe(m, 3, Call{o, {0, 1, 0}}, regs));
            }
          for (int o : INS) for (auto s : {0.0L, 1.0L, -2.5L}) { m.load_mask(0, regs[0], ma); step(run, m, 3, Call{o, {0, 0, 0}, s}, regs, got); }
        }
    }
  run.sample("SScalar<double>: all pairs of name subsets of {x,y,z} x value pairs x updates with another number, itself, plain numbers");
}

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
  for (int order = 2; order >= 1; order--) {
    std::vector<int> fixed = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 24};
    std::vector<int> dyn = fixed;
    for (int n : {17, 31, 32, 33, 64, 65, 129}) dyn.push_back(n);
    for (int i = (int)dyn.size() - 1; i >= 0; i--) if (run.mine()) one_step(run, order, -1, dyn[i]);
    for (int n : fixed) if (run.mine()) one_step(run, order, n, n);
    const int e = run.thorough() ? 1 : 0;
    if (run.mine()) histories(run, make_machine(order, -1), 1, 2, 3 + (order == 1 ? e : 0), true);
    if (run.mine()) histories(run, make_machine(order, 1), 1, 2, 3, true);
    if (run.mine()) histories(run, make_machine(order, -1), 2, 2, 2 + e, true);
    if (run.mine()) histories(run, make_machine(order, 2), 2, 2, 2 + e, true);
    if (run.mine()) histories(run, make_machine(order, -1), 2, 3, 3, false);
    if (run.mine()) histories(run, make_machine(order, 3), 3, 2, 3 + e, false);
    if (run.mine()) histories(run, make_machine(order, -1), 0, 2, 3, true);
  }
  if (run.mine()) histories(run, std::make_unique<SparseMachine<double>>(std::vector<std::string>{"x", "y"}), 2, 2, run.thorough() ? 4 : 3, false);
  if (run.mine()) histories(run, std::make_unique<SparseMachine<double>>(std::vector<std::string>{"x", "y", "z"}), 3, 3, 3, false);
  sparse_steps(run);
  return run.finish();
}
