// C08: padding.
#include "explore.hpp"
#include "subject_impl.hpp"
using namespace ex;
using namespace ops;

static Data pad_model(int order, int n, const Data &d, int m, bool left)
{
  Data r(orc::packed_len(order, m), 0);
  const int off = left ? m - n : 0;
  r[0] = d[0];
  for (int i = 0; i < n; i++) r[1 + off + i] = d[1 + i];
  if (order == 2)
    for (int i = 0; i < n; i++)
      for (int j = i; j < n; j++) r[orc::hidx(m, off + i, off + j)] = d[orc::hidx(n, i, j)];
  return r;
}

template <class T> struct Pads {
  Run &run;
  MachineT<T> m;
  static constexpr int O = T::order();
  Pads(Run &r, std::string s) : run(r), m(s) {}

  bool pad(int reg, int n, const Data &d, int to, bool left, Data &got)
  {
    auto desc = [&] { return m.nm + " n=" + std::to_string(n) + (left ? " pad_left(" : " pad_right(") + std::to_string(to) + ") of " + orc::show(d); };
    Doing now(desc);
    run.count("transitions");
    bool threw = false;
    try {
      const T &x = m.r[reg];
      const T y = left ? x.pad_left(to) : x.pad_right(to);
      got = m.get(y);
      if (to >= n) {
        if (y.size() != to) { run.violation(desc(), "result has " + std::to_string(y.size()) + " variables in " + desc()); return false; }
        const Data want = pad_model(O, n, d, to, left);
        if (!same_bits(got, want)) { run.violation(desc(), "expected " + orc::show(want) + " got " + orc::show(got) + " in " + desc()); return false; }
        run.count("traces");
      }
      m.put(T(y));
    } catch (const std::exception &e) { threw = true; }
    if (threw != (to < n)) { run.violation(desc(), std::string(threw ? "valid request rejected in " : "request for fewer variables accepted in ") + desc()); return false; }
    if (threw) run.count("rejections");
    if (!same_bits(m.read(reg), d) || m.reg_size(reg) != n) { run.violation(desc() + " operand", "operand changed by " + desc()); return false; }
    return !threw;
  }
  void pairs(int maxn, const std::vector<int> &extra)
  {
    m.regs(1);
    std::vector<int> sizes;
    for (int i = 0; i <= maxn; i++) sizes.push_back(i);
    for (int e : extra) sizes.push_back(e);
    for (int n : sizes) {
      if (!run.mine()) continue;
      auto pats = patterns(O, n, 1, n <= 8);
      if (n > 24) pats.resize(std::min<size_t>(pats.size(), 4));
      for (auto &p : pats)
        for (long double f : {0.0L, -2.5L, (long double)INFINITY, (long double)NAN}) {
          if (&p != &pats[0] && f != -2.5L) continue;
          Data d = p[0];
          d[0] = f;
          m.load(0, d);
          run.count("states");
          Data got;
          for (int to : sizes) for (int left = 0; left < 2; left++) { pad(0, n, d, to, left, got); run.outcome(got); }
          for (int to : {-1, -2, -1000000}) for (int left = 0; left < 2; left++) pad(0, n, d, to, left, got);
        }
    }
    run.sample(m.nm + ": every (old, new) pair of " + std::to_string(sizes.size()) + " sizes x derivative patterns, left and right");
  }
  // histories of paddings and operations on two registers kept over the same variables
  std::vector<Data> regs;
  void walk(int n, int depth)
  {
    if (!depth) { run.count("histories"); return; }
    static const int B[] = {ADD, SUB, MUL, DIV, ATAN2, HYPOT2};
    static const int U[] = {NEG, RECIP, SIN, EXP, SQRT, TANH};
    auto load = [&] { for (int i = 0; i < 2; i++) m.load(i, regs[i]); };
    for (int left = 0; left < 2; left++)
      for (int to : {n, n + 1, n + 3}) {
        load();
        std::vector<Data> next(2);
        if (!pad(0, n, regs[0], to, left, next[0]) || !pad(1, n, regs[1], to, left, next[1])) continue;
        run.count("states");
        std::swap(regs, next);
        walk(to, depth - 1);
        std::swap(regs, next);
      }
    auto attempt = [&](Call c) {
      load();
      Data got;
      bool dom;
      if (!step(run, m, n, c, regs, got, nullptr, 1e60L, &dom) || !dom) return;
      // commuting: operation after padding = padding after operation
      for (int left = 0; left < 2; left++) {
        const int to = n + 2;
        std::vector<Data> pr = regs;
        load();
        for (int i = 0; i < 2; i++) pr[i] = pad_model(O, n, regs[i], to, left);
        bool ok = true;
        for (int i = 0; i < 2; i++) { const T y = left ? m.r[i].pad_left(to) : m.r[i].pad_right(to); ok = ok && same_bits(m.get(y), pr[i]); m.r[i] = y; }
        Data g2;
        const orc::Ref ref = orc::apply<long double>(O, to, c, pr);
        const Outcome o2 = m.exec(c);
        g2 = o2.data;
        run.count("transitions");
        const Data want = pad_model(O, n, got, to, left);
        ok = ok && g2.size() == want.size() && !o2.threw;
        for (size_t k = 0; ok && k < want.size(); k++) if (!(fabsl(g2[k] - want[k]) <= K * m.eps() * ref.s[k] + 1e-280L)) ok = false;
        const std::string d = "padding " + std::string(left ? "left" : "right") + " does not commute with " + describe(m, n, c, regs);
        if (!ok) run.violation(d, d + ": " + orc::show(g2) + " vs " + orc::show(want));
        else run.count("traces");
      }
      const Data keep = regs[c.a[0]];
      regs[c.a[0]] = got;
      run.count("states");
      walk(n, depth - 1);
      regs[c.a[0]] = keep;
    };
    for (int o : B) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) attempt(Call{o, {i, j, 0}});
    for (int o : U) for (int i = 0; i < 2; i++) attempt(Call{o, {i, 0, 0}});
    attempt(Call{POW, {0, 0, 0}, 2.5L});
    attempt(Call{IMUL, {0, 1, 0}});
    attempt(Call{IDIV, {1, 0, 0}});
  }
  void all_ops(int n)
  {
    // every operation once, from a few value pairs
    m.regs(3);
    for (auto v : {std::array<long double, 3>{0.625L, 0.25L, 1.5L}, {-0.75L, 0.5L, 2}, {1.5L, -3, 1}}) {
      for (int i = 0; i < 3; i++) { regs[i].assign(orc::packed_len(O, n), 0); for (size_t k = 1; k < regs[i].size(); k++) regs[i][k] = irr(i, k); regs[i][0] = v[i]; }
      for (int o = 0; o < NOPS; o++)
        for (int left = 0; left < 2; left++)
          for (int to : {n, n + 1, n + 2}) {
            const Call c{o, {0, 1, 2}, (o == POWI_F ? 3.0L : 2.5L)};
            const orc::Ref ref0 = orc::apply<long double>(O, n, c, regs);
            if (!ref0.ok) continue;
            for (int i = 0; i < 3; i++) m.load(i, regs[i]);
            const Data got = m.exec(c).data;
            for (int i = 0; i < 3; i++) { m.load(i, regs[i]); m.r[i] = left ? m.r[i].pad_left(to) : m.r[i].pad_right(to); }
            std::vector<Data> pr;
            for (int i = 0; i < 3; i++) pr.push_back(pad_model(O, n, regs[i], to, left));
            const Data g2 = m.exec(c).data;
            const orc::Ref ref = orc::apply<long double>(O, to, c, pr);
            const Data want = pad_model(O, n, got, to, left);
            run.count("transitions", 2);
            bool ok = g2.size() == want.size();
            for (size_t k = 0; ok && k < want.size(); k++) if (!(fabsl(g2[k] - want[k]) <= K * m.eps() * ref.s[k] + 1e-280L)) ok = false;
            const std::string d = "padding " + std::string(left ? "left" : "right") + " to " + std::to_string(to) + " does not commute with " + describe(m, n, c, regs);
            if (!ok) run.violation(d, d + ": " + orc::show(g2) + " vs " + orc::show(want));
            else run.count("traces");
          }
    }
  }
  void all(int depth)
  {
    pairs(run.thorough() ? 34 : 20, run.thorough() ? std::vector<int>{40, 63, 64, 65, 66, 100, 129, 257} : std::vector<int>{32, 33, 64, 65});
    for (int n = 0; n <= 3; n++) {
      if (run.mine()) { regs.resize(3); all_ops(n); }
      if (!run.mine()) continue;
      m.regs(2);
      regs.assign(2, Data(orc::packed_len(O, n), 0));
      for (int i = 0; i < 2; i++) { regs[i][0] = i ? 0.75L : 1.5L; for (size_t k = 1; k < regs[i].size(); k++) regs[i][k] = irr(i, k); }
      walk(n, depth);
      run.sample(m.nm + " n=" + std::to_string(n) + ": all histories of " + std::to_string(depth) + " paddings and operations");
    }
  }
};

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
  const int depth = run.thorough() ? 4 : 3;
  { Pads<hj::DDScalar<1, double, -1>> p(run, "DDScalar<1,double,Dynamic>"); p.all(depth); }
  { Pads<hj::DDScalar<2, double, -1>> p(run, "DDScalar<2,double,Dynamic>"); p.all(depth); }
  return run.finish();
}
