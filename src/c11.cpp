// C11: sparse named-variable numbers.
#include "explore.hpp"
#include "sparse.hpp"
using namespace ex;
using namespace ops;

static std::vector<Call> alphabet(int live, bool wide, bool in_place)
{
  std::vector<Call> r;
  for (int o = 0; o < NOPS; o++) {
    if (inplace(o) && !in_place) continue;
    const int ar = arity(o);
    std::vector<long double> nums = {0};
    if (o == POW || o == POW_F) nums = wide ? as_double({0, 1, 2, 3, -1, 0.5, -1.5}) : as_double({-1.5});
    else if (o == POWI_F) nums = wide ? as_double({0, 2, 3, -1}) : as_double({3});
    else if (o == LOGB) nums = wide ? as_double({2, 10, 0.5, M_E}) : as_double({3});
    else if (takes_number(o)) nums = wide ? as_double({0, 1, -1.25, 1e5}) : as_double({-1.25});
    for (auto s : nums)
      for (int i = 0; i < live; i++)
        for (int j = 0; j < (ar > 1 ? live : 1); j++)
          for (int l = 0; l < (ar > 2 ? live : 1); l++) r.push_back(Call{o, {i, j, l}, s});
  }
  return r;
}

template <class S> struct Sparse {
  Run &run;
  std::vector<std::string> names;
  SparseMachine<S> m;
  int n;
  const long double lim = sizeof(S) == 4 ? 1e6L : 1e60L;
  std::vector<Data> regs;
  std::vector<unsigned> masks;
  Sparse(Run &r, std::vector<std::string> nm) : run(r), names(nm), m(nm), n((int)nm.size()) {}

  void load(int k) { for (int i = 0; i < k; i++) m.load_mask(i, regs[i], masks[i]); }
  bool call(const Call &c, int live, Data &got, bool &dom, const orc::Partials *p)
  {
    load(live);
    if (!step(run, m, n, c, regs, got, p, lim, &dom)) return false;
    bool ok = true;
    for (int i = 0; i < live; i++) {
      if (o_inplace(c) && i == c.a[0]) continue;
      if (!same_bits(m.read(i), regs[i]) || m.r[i].size() != __builtin_popcount(masks[i])) {
        run.violation("operand " + describe(m, n, c, regs), "an operand was changed by " + describe(m, n, c, regs));
        ok = false;
      }
    }
    // a name no operand knows
    const auto &res = o_inplace(c) ? m.r[c.a[0]] : m.result[0];
    const double q = res.d("nobody knows this"), q2 = res.d("q");
    if (!(q == 0) || !(q2 == 0)) { run.violation("unknown name " + describe(m, n, c, regs), "derivative for an unknown name is not zero in " + describe(m, n, c, regs)); ok = false; }
    return ok;
  }
  static bool o_inplace(const Call &c) { return inplace(c.op); }
  // all mask pairs x value pairs x calls
  void product(const std::vector<long double> &grid, bool wide)
  {
    m.regs(3);
    const unsigned M = 1u << n;
    const auto calls = alphabet(2, wide, true);
    std::map<std::tuple<int, long double, int, int, int>, orc::Partials> cache;
    for (auto x : grid)
      for (auto y : grid) {
        if (!run.mine()) continue;
        cache.clear();
        for (unsigned a = 0; a < M; a++)
          for (unsigned b = 0; b < M; b++)
            for (int zero = 0; zero < 2; zero++) { // stored but zero derivatives, too
              regs.assign(2, Data(1 + n, 0));
              masks = {a, b};
              regs[0][0] = x; regs[1][0] = y;
              for (int i = 0; i < n; i++) { if (a >> i & 1) regs[0][1 + i] = zero && i == 0 ? 0 : irr(0, i + 1); if (b >> i & 1) regs[1][1 + i] = zero && i == 1 ? 0 : irr(1, i + 1); }
              run.count("states");
              for (auto &c : calls) {
                // calls that involve only r0 need not be repeated for every b
                if (c.a[0] == 0 && c.a[1] == 0 && c.a[2] == 0 && b != 0) continue;
                if (c.a[0] == 1 && (arity(c.op) < 2 || (c.a[1] == 1 && (arity(c.op) < 3 || c.a[2] == 1)))) continue;
                auto key = std::make_tuple(orc::base_op(c.op), c.s, c.a[0], c.a[1], c.a[2]);
                auto it = cache.find(key);
                if (it == cache.end()) it = cache.emplace(key, orc::call_partials(c, regs)).first;
                Data got;
                bool dom;
                call(c, 2, got, dom, &it->second);
                if (!zero) run.outcome(got);
              }
            }
      }
    run.sample(m.name() + ": " + std::to_string(M) + "^2 name subsets x " + std::to_string(grid.size()) + "^2 values x " + std::to_string(calls.size()) + " calls");
  }
  void triples(const std::vector<long double> &grid)
  {
    m.regs(3);
    const unsigned M = 1u << n;
    for (auto x : grid)
      for (auto y : grid)
        for (auto z : grid) {
          if (!run.mine()) continue;
          const std::vector<Data> vals = {{x}, {y}, {z}};
          const orc::Partials p = orc::call_partials(Call{HYPOT3, {0, 1, 2}}, vals);
          for (unsigned code = 0; code < M * M * M; code++) {
            masks = {code % M, code / M % M, code / M / M};
            regs.assign(3, Data(1 + n, 0));
            const long double v[3] = {x, y, z};
            for (int k = 0; k < 3; k++) { regs[k][0] = v[k]; for (int i = 0; i < n; i++) if (masks[k] >> i & 1) regs[k][1 + i] = irr(k, i + 1); }
            run.count("states");
            Data got;
            bool dom;
            call(Call{HYPOT3, {0, 1, 2}}, 3, got, dom, &p);
            call(Call{HYPOT3_F, {0, 1, 2}}, 3, got, dom, &p);
            run.outcome(got);
          }
        }
    run.sample(m.name() + ": hypot of three numbers, " + std::to_string(M) + "^3 name subsets x " + std::to_string(grid.size()) + "^3 values");
  }
  void walk(int live, int depth)
  {
    if (!depth) { run.count("programs"); return; }
    for (auto &c : alphabet(live, false, true)) {
      Data got;
      bool dom = false;
      if (!call(c, live, got, dom, nullptr) || !dom) continue;
      run.count("states");
      const bool ip = o_inplace(c);
      const int t = ip ? c.a[0] : live;
      unsigned mk = 0;
      for (int i = 0; i < arity(c.op); i++) mk |= masks[c.a[i]];
      // the reached state itself is carried on: which names are stored is read back through the interface
      const Data keep = t < (int)regs.size() ? regs[t] : Data();
      const unsigned keepm = t < (int)masks.size() ? masks[t] : 0;
      if (t >= (int)regs.size()) { regs.resize(t + 1); masks.resize(t + 1); }
      regs[t] = got; masks[t] = mk;
      walk(ip ? live : live + 1, depth - 1);
      regs[t] = keep; masks[t] = keepm;
    }
  }
  void programs(int depth, std::vector<unsigned> start)
  {
    m.regs(2 + depth);
    regs.clear(); masks.clear();
    for (size_t i = 0; i < start.size(); i++) {
      Data d(1 + n, 0);
      d[0] = i ? 0.375L : 0.625L;
      for (int k = 0; k < n; k++) if (start[i] >> k & 1) d[1 + k] = 1;
      regs.push_back(d); masks.push_back(start[i]);
    }
    walk((int)start.size(), depth);
    run.sample(m.name() + ": all programs of " + std::to_string(depth) + " operations from two variables");
  }
};

// one-argument functions over fine values
static void fine(Run &run)
{
  Sparse<double> s(run, {"x", "y"});
  s.m.regs(1);
  const auto calls = alphabet(1, true, false);
  auto values = special_values();
  for (auto v : run.thorough() ? minifloat(5, 10) : minifloat(5, 7)) values.push_back(v);
  for (size_t k = 0; k < values.size(); k++) {
    if (k % 32 == 0 && !run.mine()) { k += 31; continue; }
    s.regs = {{values[k], 1.25L, -0.5L}};
    s.masks = {3};
    run.count("states");
    std::map<std::pair<int, long double>, orc::Partials> cache;
    for (auto &c : calls) {
      auto key = std::make_pair(orc::base_op(c.op), c.s);
      auto it = cache.find(key);
      if (it == cache.end()) it = cache.emplace(key, orc::call_partials(c, s.regs)).first;
      Data got;
      bool dom;
      s.call(c, 1, got, dom, &it->second);
      run.outcome(got);
    }
  }
  run.sample("SScalar<double>: " + std::to_string(values.size()) + " argument values x " + std::to_string(calls.size()) + " calls");
}

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
  const bool th = run.thorough();
  {
    Sparse<double> s(run, {"x", "y", "z"});
    s.product(both(th ? std::vector<long double>{0, 0.25, 0.75, 1, 1.5, 3, 20, 1e-5, 1e8} : std::vector<long double>{0, 0.25, 0.75, 1, 1.5, 20, 1e-5}), true);
    s.triples(both(th ? std::vector<long double>{0, 0.5, 3, 1e-5} : std::vector<long double>{0, 0.5, 3}));
  }
  { // atan2, hypot and arithmetic over fine value pairs
    Sparse<double> s(run, {"x", "y"});
    s.product(th ? minifloat(4, 2) : minifloat(3, 1), false);
  }
  fine(run);
  { Sparse<double> s(run, {"", "a b", "x1", "a rather long name that does not fit into a short string buffer"}); s.product(as_double({0.625, -1.5}), true); }
  { Sparse<float> s(run, {"x", "y"}); s.product(as_double({0.625, -1.5, 0.25, 2, 0}), true); }
  { Sparse<long double> s(run, {"x", "y"}); s.product({0.1L, -0.7L, 1.3L, 0}, true); }
  { // many names
    std::vector<std::string> names;
    for (int i = 0; i < 40; i++) names.push_back("n" + std::to_string(i * i));
    Sparse<double> s(run, names);
    for (int k = 0; k < 6; k++) {
      if (!run.mine()) continue;
      s.m.regs(3);
      s.regs.assign(2, Data(41, 0));
      // masks do not fit 40 names: load through nonzero derivatives
      for (int i = 0; i < 40; i++) { if (i % (k + 2) != 0) s.regs[0][1 + i] = irr(0, i); if (i % (k + 3) == 0) s.regs[1][1 + i] = irr(1, i); }
      s.regs[0][0] = 0.625L; s.regs[1][0] = 0.25L;
      for (auto &c : alphabet(2, true, true)) {
        for (int i = 0; i < 2; i++) {
          hj::SScalar<double>::Data d;
          for (int j = 0; j < 40; j++) if (s.regs[i][1 + j] != 0) d[names[j]] = s.regs[i][1 + j];
          s.m.r[i] = hj::SScalar<double>(s.regs[i][0], d);
        }
        Data got;
        step(run, s.m, 40, c, s.regs, got);
      }
    }
  }
  for (auto st : std::vector<std::vector<unsigned>>{{1, 2}, {1, 1}, {3, 6}, {0, 7}})
    if (run.mine()) { Sparse<double> s(run, {"x", "y", "z"}); s.programs(2, st); }
  if (th && run.mine()) { Sparse<double> s(run, {"x", "y"}); s.programs(3, {1, 2}); }
  // creators
  if (run.mine()) {
    using T = hj::SScalar<double>;
    for (double f : {0.0, -1.5, 1e300}) {
      for (const char *nm : {"x", "", "long name for a variable that is stored on the heap"}) {
        const T v = T::variable(nm, f);
        run.count("transitions");
        if (v.f() != f || v.d(nm) != 1 || v.size() != 1 || v.d("other") != 0) run.violation(std::string("variable ") + nm, "SScalar::variable is wrong");
      }
      const T c = T::constant(f), d(f), e = f;
      for (const T *x : {&c, &d, &e}) { run.count("transitions"); if (x->f() != f || x->size() != 0 || x->d("x") != 0) run.violation("constant", "a sparse constant is wrong"); }
    }
  }
  return run.finish();
}
