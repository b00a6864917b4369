// C06: operands over different numbers of variables.
#include "explore.hpp"
#include "factories.hpp"
using namespace ex;
using namespace ops;

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
  std::vector<int> sizes = {0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 33};
  if (run.thorough()) { sizes.clear(); for (int n = 0; n <= 33; n++) sizes.push_back(n); sizes.push_back(64); sizes.push_back(65); sizes.push_back(130); }
  // value / derivative classes of an operand: shortcuts taken for special operands must not bypass the check
  struct Class { long double f; int d; };
  const std::vector<Class> classes = {{0.75L, 1}, {0.75L, 0}, {0, 1}, {0, 0}, {1, 1}, {1, 0}, {-1, 1}, {1.5L, 2}};
  auto operand = [](int order, int n, const Class &c, int k) {
    Data d(orc::packed_len(order, n), 0);
    d[0] = c.f;
    for (size_t i = 1; i < d.size(); i++) d[i] = c.d == 0 ? 0 : c.d == 1 ? irr(k, i) : (i == 1 ? 1 : 0);
    return d;
  };
  for (char sc : {'d', 'f', 'l'})
    for (int order = 1; order <= 2; order++) {
      auto m = make_machine(order, -1, sc);
      if (!m) { if (sc == 'd') throw std::runtime_error("missing instantiation"); continue; }
      m->regs(3);
      std::vector<Data> regs(3);
      const size_t nc = sc == 'd' ? classes.size() : 2;
      for (int o = 0; o < NOPS; o++) {
        const int ar = arity(o);
        if (ar < 2) continue;
        for (int na : sizes)
          for (int nb : sizes) {
            if (!run.mine()) continue;
            for (int nz : sizes) {
              if (ar < 3 && nz != sizes[0]) break;
              for (size_t ca = 0; ca < nc; ca++)
                for (size_t cb = 0; cb < nc; cb++) {
                  if (ar == 3 && cb != ca && cb != 0) continue;
                  regs[0] = operand(order, na, classes[ca], 0);
                  regs[1] = operand(order, nb, classes[cb], 1);
                  regs[2] = operand(order, ar == 3 ? nz : 0, classes[(ca + cb) % nc], 2);
                  for (int i = 0; i < 3; i++) m->load(i, regs[i]);
                  run.count("states");
                  const Call c{o, {0, 1, 2}};
                  Outcome r;
                  auto desc = [&] { return describe(*m, na, c, regs); };
                  { Doing now(desc); r = m->exec(c); }
                  run.count("transitions");
                  const bool equal = na == nb && (ar < 3 || na == nz);
                  if (equal && r.threw) run.violation(desc(), "equal sizes rejected ('" + r.what + "') in " + desc());
                  if (!equal) {
                    run.count("rejections");
                    if (!r.threw) run.violation(desc(), "different sizes accepted, result " + orc::show(r.data) + " in " + desc());
                  }
                  if (!equal || !r.in_place)
                    for (int i = 0; i < 3; i++)
                      if (!same_bits(m->read(i), regs[i]) || m->reg_size(i) != (i == 0 ? na : i == 1 ? nb : ar == 3 ? nz : 0))
                        run.violation(desc() + " changed", "operand " + std::to_string(i) + " changed by " + desc());
                  // and the library stays usable: the same call on equal sizes is right afterwards
                  if (!equal && ca == 0 && cb == 0) {
                    std::vector<Data> eq(3);
                    for (int i = 0; i < 3; i++) { eq[i] = operand(order, na, Class{0.5L + 0.25L * i, 1}, i); m->load(i, eq[i]); }
                    Data got;
                    step(run, *m, na, c, eq, got, nullptr, sc == 'f' ? 1e6L : 1e60L);
                  }
                }
            }
          }
        run.sample(m->name() + " " + NAME[o] + ": all tuples of " + std::to_string(sizes.size()) + " sizes x operand classes");
      }
    }
  return run.finish();
}
