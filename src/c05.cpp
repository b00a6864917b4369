// C05: lockstep exploration of all representations of the same number.
#include "explore.hpp"
#include "factories.hpp"
using namespace ex;
using namespace ops;

struct Family {
  int n;
  std::vector<std::unique_ptr<Machine>> ms; // [0] = order 2 run-time double: the yardstick
  std::unique_ptr<Machine> ld[4], fl[4];
};

static std::vector<Call> alphabet(int k, bool wide)
{
  std::vector<Call> r;
  for (int o = 0; o < NOPS; o++) {
    const int ar = arity(o);
    std::vector<long double> nums = {0};
    if (o == POW || o == POW_F) nums = wide ? as_double({2, 3, -1, 0.5, -1.5, 0, 1}) : as_double({-1.5});
    else if (o == POWI_F) nums = wide ? as_double({2, 3, -1}) : as_double({3});
    else if (o == LOGB) nums = as_double({3});
    else if (takes_number(o)) nums = as_double({-1.25});
    for (auto s : nums)
      for (int i = 0; i < k; i++)
        for (int j = 0; j < (ar > 1 ? k : 1); j++)
          for (int l = 0; l < (ar > 2 ? k : 1); l++) r.push_back(Call{o, {i, j, l}, s});
  }
  return r;
}

static Data cut(const Data &d, int order, int n) { return order == 1 ? Data(d.begin(), d.begin() + 1 + n) : d; }

// all machines execute c on the same register contents; results must agree
static bool lockstep(Run &run, Family &f, const Call &c, const std::vector<Data> &regs, const std::vector<Data> &regs32, Data &got, bool &dom)
{
  const int n = f.n;
  const orc::Partials p = orc::call_partials(c, regs);
  const orc::Ref ref2 = orc::apply<long double>(2, n, c, regs, p, 1e60L);
  std::vector<Data> cutregs;
  for (auto &r : regs) cutregs.push_back(cut(r, 1, n));
  const orc::Ref ref1 = orc::apply<long double>(1, n, c, cutregs, p, 1e60L);
  dom = ref2.ok;
  Outcome base, base1;
  bool have1 = false;
  for (size_t k = 0; k < f.ms.size(); k++) {
    Machine &m = *f.ms[k];
    Outcome o;
    { Doing now([&] { return describe(m, n, c, regs); }); o = m.exec(c); }
    run.count("transitions");
    auto fail = [&](const std::string &w, const Outcome &b, const Machine &bm) {
      const std::string d = describe(m, n, c, regs) + " vs " + bm.name();
      run.violation(d, w + " in " + d + ": " + orc::show(o.data) + " vs " + orc::show(b.data));
      return false;
    };
    if (k == 0) { base = o; got = o.data; if (o.threw) return fail("error '" + o.what + "'", base, m); continue; }
    if (o.threw != base.threw) return fail("one representation reports an error", base, *f.ms[0]);
    if (o.size != n) return fail("number of variables differs", base, *f.ms[0]);
    const bool one = m.order() == 1;
    const orc::Ref &ref = one ? ref1 : ref2;
    // first order against second order, where both are defined; same order against each other
    const Outcome &b = one && have1 && !ref2.ok ? base1 : base;
    if (one && !have1) { have1 = true; base1 = o; }
    if (!ref.ok || (one && !ref2.ok && &b == &base)) { run.count("outside_domain"); continue; }
    const Data want = cut(b.data, m.order(), n);
    if (want.size() != o.data.size()) return fail("number of coefficients differs", b, *f.ms[0]);
    for (size_t i = 0; i < want.size(); i++)
      if (!(fabsl(want[i] - o.data[i]) <= K * m.eps() * ref.s[i] + 1e-280L)) return fail("coefficient " + std::to_string(i) + " differs", b, *f.ms[0]);
    run.count("traces");
  }
  // extended precision: against the reference at its own rounding
  for (auto &m : f.ld)
    if (m) {
      Data g;
      if (m->order() == 1) { step(run, *m, n, c, cutregs, g, &p, 1e60L); }
      else step(run, *m, n, c, regs, g, &p, 1e60L);
    }
  if (!regs32.empty()) {
    bool any = false;
    for (auto &m : f.fl) any |= !!m;
    if (any) {
      Call c32 = c;
      c32.s = (float)c.s;
      std::vector<Data> cut32;
      for (auto &r : regs32) cut32.push_back(cut(r, 1, n));
      const orc::Partials p32 = orc::call_partials(c32, regs32);
      for (auto &m : f.fl)
        if (m) { Data g; step(run, *m, n, c32, m->order() == 1 ? cut32 : regs32, g, &p32, 1e6L); }
    }
  }
  return true;
}
static Data f32(Data d) { for (auto &x : d) x = (float)x; return d; }

static Family family(int n, bool fixed)
{
  Family f;
  f.n = n;
  f.ms.push_back(make_machine(2, -1));
  if (fixed) f.ms.push_back(make_machine(2, n));
  f.ms.push_back(make_machine(1, -1));
  if (fixed) f.ms.push_back(make_machine(1, n));
  int k = 0;
  for (int o : {1, 2}) for (int s : {-1, n}) { f.ld[k] = make_machine(o, s, 'l'); f.fl[k] = make_machine(o, s, 'f'); k++; }
  for (auto &m : f.ms) { if (!m) throw std::runtime_error("missing instantiation"); m->regs(5); }
  for (auto &m : f.ld) if (m) m->regs(5);
  for (auto &m : f.fl) if (m) m->regs(5);
  return f;
}

// one step from every pattern
static void one_step(Run &run, int n, bool fixed)
{
  Family f = family(n, fixed);
  const auto calls = alphabet(2, true);
  const auto pats = patterns(2, n, 2, false);
  std::vector<std::pair<long double, long double>> vals = {{0.625L, 0.25L}, {-0.75L, 1.5L}, {2.5L, -3}, {1.25L, 7}};
  if (n <= 3 || run.thorough()) for (auto v : std::vector<std::pair<long double, long double>>{{0, 1}, {30, 0.001953125L}, {0.0625L, -0.0078125L}, {-20, 5}, {100, -1}, {1, 0}}) vals.push_back(v);
  Data got;
  bool dom;
  for (auto &v : vals) {
    if (!run.mine()) continue;
    for (size_t q = 0; q < pats.size(); q++) {
      if (n > 6 && q > 24 && !run.thorough()) break;
      std::vector<Data> regs = {pats[q][0], pats[q][1]};
      regs[0][0] = v.first; regs[1][0] = v.second;
      std::vector<Data> r32 = {f32(regs[0]), f32(regs[1])};
      for (auto &c : calls) {
        for (int i = 0; i < 2; i++) {
          for (auto &m : f.ms) m->load(i, cut(regs[i], m->order(), n));
          for (auto &m : f.ld) if (m) m->load(i, cut(regs[i], m->order(), n));
          for (auto &m : f.fl) if (m) m->load(i, cut(r32[i], m->order(), n));
        }
        lockstep(run, f, c, regs, r32, got, dom);
      }
      run.count("states");
    }
  }
  run.sample("n=" + std::to_string(n) + ": " + std::to_string(calls.size()) + " calls x " + std::to_string(vals.size()) + " value pairs x patterns on " + std::to_string(f.ms.size()) + " double representations, float and long double where instantiated");
}

struct Walk {
  Run &run;
  Family &f;
  std::vector<Data> regs;
  void go(int live, int d)
  {
    if (!d) { run.count("programs"); return; }
    for (auto &c : alphabet(live, false)) {
      std::vector<Data> r32;
      for (int i = 0; i < live; i++) {
        r32.push_back(f32(regs[i]));
        for (auto &m : f.ms) m->load(i, cut(regs[i], m->order(), f.n));
        for (auto &m : f.ld) if (m) m->load(i, cut(regs[i], m->order(), f.n));
        for (auto &m : f.fl) if (m) m->load(i, cut(r32[i], m->order(), f.n));
      }
      Data got;
      bool dom = false;
      std::vector<Data> now(regs.begin(), regs.begin() + live);
      if (!lockstep(run, f, c, now, r32, got, dom) || !dom) continue;
      run.count("states");
      const int t = inplace(c.op) ? c.a[0] : live;
      const Data keep = t < (int)regs.size() ? regs[t] : Data();
      if (t >= (int)regs.size()) regs.resize(t + 1);
      regs[t] = got;
      go(inplace(c.op) ? live : live + 1, d - 1);
      regs[t] = keep;
    }
  }
};
static void walk(Run &run, int n, int depth)
{
  Family f = family(n, true);
  Walk w{run, f, {}};
  for (int i = 0; i < 2; i++) {
    Data d(orc::packed_len(2, n), 0);
    d[0] = i ? 0.375L : 0.625L;
    if (n) d[1 + i % n] = 1;
    w.regs.push_back(d);
  }
  w.go(2, depth);
  run.sample("n=" + std::to_string(n) + ": all programs of " + std::to_string(depth) + " operations, representations in lockstep");
}

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
  std::set<int> fixed;
  for (int n = 0; n <= 16; n++) fixed.insert(n);
  fixed.insert(20); fixed.insert(24);
  for (int n : {65, 33, 24, 20, 17}) one_step(run, n, fixed.count(n));
  for (int n = 16; n >= 0; n--) one_step(run, n, true);
  if (run.thorough()) for (int n : {18, 19, 21, 22, 23, 31, 32, 63, 64, 129}) one_step(run, n, false);
  for (int n : {1, 2, 3}) if (run.mine()) walk(run, n, run.thorough() && n == 2 ? 3 : 2);
  return run.finish();
}
