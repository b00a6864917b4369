// C01: arithmetic. Leg "product": every operation x operand values x derivative patterns x type. Leg "programs": all operation
// sequences up to a depth, each step judged from the state the implementation really reached.
#include "explore.hpp"
#include "factories.hpp"
using namespace ex;
using namespace ops;

static const int BINARY[] = {ADD, SUB, MUL, DIV};
static const int SCALAR[] = {ADDS, SADD, SUBS, SSUB, MULS, SMUL, DIVS, SDIV};
static const int UNARY[] = {NEG, RECIP};

static void product(Run &run, int order, int fixed, int n)
{
  auto m = make_machine(order, fixed);
  if (!m) throw std::runtime_error("missing instantiation");
  m->regs(2);
  std::vector<long double> grid;
  if (n <= 2) grid = minifloat(4, 2);
  else if (n <= 4) grid = minifloat(3, 1);
  else if (n <= 9) grid = both({0, 1, 0.75, 2e5, 1e-7, 3});
  else if (n <= 16) grid = both({0, 1, 0.75, 2e5});
  else grid = {0, -1.5, 0.3};
  if (run.thorough()) {
    if (n <= 2) { grid = minifloat(4, 3); for (auto x : both({1e-9, 1e9, 1e30, 1e-30})) grid.push_back(x); }
    else if (n <= 6) grid = minifloat(4, 1);
    else if (n <= 16) grid = both({0, 1, 0.75, 2e5, 1e-7, 3});
  }
  if (n <= 2) for (auto x : magnitudes()) grid.push_back(x);
  if (n > 65) grid = {-1.5, 0.3};
  const bool full = n <= 9 || (run.thorough() && n <= 17);
  auto pats = patterns(order, n, 2, full);
  const auto pats1 = patterns(order, n, 1, full);
  const std::vector<long double> nums = n <= 4 ? as_double({0, 1, -1, 2, -0.5, 3.7, -1e-4, 1e6}) : as_double({0, -1, 3.7});
  Data got;
  std::vector<Data> regs(2);
  for (long double x : grid) {
    for (const auto &p : pats1) {
      regs[0] = p[0]; regs[0][0] = x;
      regs[1] = regs[0];
      m->load(0, regs[0]);
      run.count("states");
      for (int o : UNARY) { step(run, *m, n, Call{o, {0, 0, 0}}, regs, got); run.outcome(got); }
      for (int o : SCALAR)
        for (long double s : nums) { step(run, *m, n, Call{o, {0, 0, 0}, s}, regs, got); }
      for (int o : BINARY) step(run, *m, n, Call{o, {0, 0, 0}}, regs, got); // same object on both sides
      if (!same_bits(m->read(0), regs[0])) run.violation(m->name() + " operand changed", m->name() + ": operand changed by an out-of-place operation, was " + orc::show(regs[0]));
    }
    for (long double y : grid) {
      std::array<orc::Partials, 4> pp;
      { std::vector<Data> v = {{x}, {y}}; for (int i = 0; i < 4; i++) pp[i] = orc::call_partials(Call{BINARY[i], {0, 1, 0}}, v); }
      for (size_t k = 0; k < pats.size(); k++) {
        // large value grids are combined with the first patterns only where the pattern set is large
        regs[0] = pats[k][0]; regs[0][0] = x;
        regs[1] = pats[k][1]; regs[1][0] = y;
        m->load(0, regs[0]); m->load(1, regs[1]);
        run.count("states");
        for (int i = 0; i < 4; i++) { step(run, *m, n, Call{BINARY[i], {0, 1, 0}}, regs, got, &pp[i]); run.outcome(got); }
        if (!same_bits(m->read(0), regs[0]) || !same_bits(m->read(1), regs[1]))
          run.violation(m->name() + " operand changed", m->name() + ": operand changed by an out-of-place operation");
      }
    }
  }
  run.sample(m->name() + " n=" + std::to_string(n) + ": " + std::to_string(grid.size()) + "^2 value pairs x " + std::to_string(pats.size()) + " derivative patterns x + - * /");
}

struct Programs {
  Run &run;
  Machine &m;
  int n, depth, maxr;
  std::vector<Data> regs;
  std::vector<Call> path;
  void go(int live, int d)
  {
    if (d == 0) { run.count("programs"); return; }
    auto attempt = [&](Call c) {
      m_load(live);
      bool dom = true;
      Data got;
      path.push_back(c);
      if (step(run, m, n, c, regs, got, nullptr, 1e60L, &dom) && dom) {
        run.outcome(got);
        // the result must be stored and read back unchanged, operands must be unchanged
        m.store(live);
        if (!same_bits(m.read(live), got)) run.violation("store " + c.str(), "assigned result differs from the returned one");
        for (int i = 0; i < live; i++)
          if (!same_bits(m.read(i), regs[i])) run.violation("operand " + describe(m, n, c, regs), "register changed by an out-of-place operation: " + describe(m, n, c, regs));
        const Data keep = regs[live];
        regs[live] = got;
        go(live + 1, d - 1);
        regs[live] = keep;
      }
      path.pop_back();
    };
    for (int o : BINARY)
      for (int i = 0; i < live; i++)
        for (int j = 0; j < live; j++) attempt(Call{o, {i, j, 0}});
    for (int o : UNARY)
      for (int i = 0; i < live; i++) attempt(Call{o, {i, 0, 0}});
    for (int o : SCALAR)
      for (int i = 0; i < live; i++) attempt(Call{o, {i, 0, 0}, 2.5L});
  }
  void m_load(int live) { for (int i = 0; i < live; i++) m.load(i, regs[i]); }
};

static void programs(Run &run, int order, int fixed, int n, int depth)
{
  auto m = make_machine(order, fixed);
  Programs p{run, *m, n, depth, 2 + depth, {}, {}};
  m->regs(2 + depth);
  p.regs.assign(2 + depth, Data(orc::packed_len(order, n), 0));
  p.regs[0][0] = 1.25L; p.regs[1][0] = -0.75L;
  p.regs[0][1] = 1;
  if (n > 1) p.regs[1][2] = 1; else p.regs[1][1] = 1;
  p.go(2, depth);
}

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
  for (int order = 1; order <= 2; order++) {
    std::vector<int> fixed = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 24};
    std::vector<int> dyn = fixed;
    for (int n : {17, 18, 19, 21, 22, 23, 25, 31, 32, 33, 40, 63, 64, 65, 100, 129, 257}) dyn.push_back(n);
    if (run.thorough()) for (int n : {48, 80, 127, 128, 130, 200, 255, 256}) dyn.push_back(n);
    for (int i = (int)dyn.size() - 1; i >= 0; i--) if (run.mine()) product(run, order, -1, dyn[i]);
    for (int n : fixed) if (run.mine()) product(run, order, n, n);
    const int d = run.thorough() ? 4 : 3; // depth 4 is about 40 million programs per type
    if (run.mine()) programs(run, order, 2, 2, d - 1);
    if (run.mine()) programs(run, order, -1, 2, d);
    if (run.mine()) programs(run, order, 1, 1, d);
    if (run.mine()) programs(run, order, -1, 3, d - 1);
  }
  return run.finish();
}
