// C10: evaluation at an offset.
#include "explore.hpp"
#include "factories.hpp"
#include "sparse.hpp"
using namespace ex;
using namespace ops;
using L = long double;

static void check(Run &run, Machine &m, int n, const Data &c, const Data &d)
{
  auto desc = [&] { return m.name() + " n=" + std::to_string(n) + " eval(" + orc::show(d) + ") of " + orc::show(c); };
  Doing now(desc);
  L want = c[0], scale = fabsl(c[0]);
  for (int i = 0; i < n; i++) { want += c[1 + i] * d[i]; scale += fabsl(c[1 + i] * d[i]); }
  if (m.order() == 2)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) { const L t = c[orc::hidx(n, i, j)] * d[i] * d[j] / 2; want += t; scale += fabsl(t); }
  run.count("transitions");
  L got;
  try { got = m.eval(0, d); } catch (const std::exception &e) { run.violation(desc(), std::string("error '") + e.what() + "' in " + desc()); return; }
  run.count("traces");
  if (!(fabsl(got - want) <= K * m.eps() * scale + 1e-290L)) {
    char b[100];
    snprintf(b, sizeof b, "expected %.17Lg got %.17Lg", want, got);
    run.violation(desc(), std::string(b) + " in " + desc());
  }
  if (run.outcomes.size() < 100000) run.outcome({got});
}

static std::vector<Data> offsets(int n, bool full)
{
  std::vector<Data> r;
  r.push_back(Data(n, 0));
  for (L s : {1.0L, -0.375L, 1e8L, 1e-8L}) { Data d(n); for (int i = 0; i < n; i++) d[i] = (double)(irr(1, i) * s); r.push_back(d); }
  auto pick = [&](int i) { return full || n <= 9 || i < 2 || i >= n - 2 || i == n / 2; };
  for (int i = 0; i < n; i++) {
    if (!pick(i)) continue;
    for (L s : {1.0L, -2.5L}) { Data d(n, 0); d[i] = s; r.push_back(d); }
    for (int j = i + 1; j < n; j++) if (pick(j)) { Data d(n, 0); d[i] = 1; d[j] = -2; r.push_back(d); }
  }
  return r;
}

static void product(Run &run, int order, int fixed, int n)
{
  auto m = make_machine(order, fixed);
  if (!m) throw std::runtime_error("missing instantiation");
  m->regs(1);
  const bool th = run.thorough();
  const auto offs = offsets(n, n <= 16 && th);
  for (auto &p : patterns(order, n, 1, n <= 8 || (th && n <= 17)))
    for (L f : {0.0L, -2.5L, 1e7L}) {
      Data c = p[0];
      c[0] = f;
      m->load(0, c);
      run.count("states");
      for (auto &d : offs) check(run, *m, n, c, d);
      if (!same_bits(m->read(0), c)) run.violation(m->name() + " changed", "eval changed the number");
    }
  run.sample(m->name() + " n=" + std::to_string(n) + ": coefficient basis patterns x " + std::to_string(offs.size()) + " offsets");
}

// polynomials of degree <= 2 in two variables, built by arithmetic at x0 and evaluated at an offset
static void polynomials(Run &run, int order, int fixed)
{
  auto m = make_machine(order, fixed);
  m->regs(3);
  const std::vector<L> cs = {-1, 0, 2}, xs = {-1.5L, 0, 0.75L}, ds = {-2, 0, 0.5L};
  for (int code = 0; code < 729; code++) {
    L c[6];
    for (int i = 0, t = code; i < 6; i++, t /= 3) c[i] = cs[t % 3];
    if (order == 1 && (c[3] != 0 || c[4] != 0 || c[5] != 0)) continue;
    auto poly = [&](L x, L y) { return c[0] + c[1] * x + c[2] * y + c[3] * x * x + c[4] * x * y + c[5] * y * y; };
    for (L x : xs)
      for (L y : xs) {
        Data vx(orc::packed_len(order, 2), 0), vy = vx;
        vx[0] = x; vy[0] = y; vx[1] = vy[2] = 1;
        m->load(0, vx); m->load(1, vy);
        Data zero(vx.size(), 0);
        zero[0] = c[0];
        m->load(2, zero);
        // r2 accumulates; r0, r1 are the variables; each term is built fresh and added in place
        auto term = [&](L k, int op, int i, int j) {
          if (k == 0) return;
          Data keep = m->read(2);
          Data t;
          if (op < 0) t = m->exec(Call{MULS, {i, 0, 0}, k}).data;
          else {
            m->exec(Call{MUL, {i, j, 0}});
            m->store(2);
            t = m->exec(Call{MULS, {2, 0, 0}, k}).data;
          }
          m->load(2, keep);
          // add: via a copy of the term in a register that is restored afterwards
          Data save = m->read(0);
          m->load(0, t);
          m->exec(Call{IADD, {2, 0, 0}});
          m->load(0, save);
        };
        term(c[1], -1, 0, 0); term(c[2], -1, 1, 0);
        term(c[3], MUL, 0, 0); term(c[4], MUL, 0, 1); term(c[5], MUL, 1, 1);
        run.count("states");
        m->load(0, m->read(2));
        for (L dx : ds)
          for (L dy : ds) {
            run.count("transitions");
            const L want = poly(x + dx, y + dy), got = m->eval(0, {dx, dy});
            if (fabsl(got - want) > 1e-10L) {
              const std::string k = m->name() + " polynomial " + std::to_string(code) + " at " + std::to_string((double)x) + "," + std::to_string((double)y) + " offset " + std::to_string((double)dx) + "," + std::to_string((double)dy);
              run.violation(k, k + ": expected " + std::to_string((double)want) + " got " + std::to_string((double)got));
            } else run.count("traces");
          }
      }
  }
  run.sample(m->name() + ": every polynomial with coefficients in {-1,0,2}, degree <= " + std::to_string(order) + ", 9 points, 9 offsets");
}

static void sparse(Run &run)
{
  using T = hj::SScalar<double>;
  const std::vector<std::string> names = {"x", "y", "z", "xy", ""};
  for (unsigned a = 0; a < 32; a++)
    for (unsigned b = 0; b < 64; b++)
      for (int kind = 0; kind < 3; kind++) {
        T::Data c, d;
        double want = 0, scale = 0;
        for (int i = 0; i < 5; i++) {
          const double u = kind == 1 ? 0.0 : (double)irr(1, i), v = kind == 2 ? -1e6 * (double)irr(2, i) : (double)irr(2, i);
          if (a >> i & 1) c[names[i]] = u;
          if (b >> i & 1) d[names[i]] = v;
          if ((a & b) >> i & 1) { want += u * v; scale += std::fabs(u * v); }
        }
        if (b & 32) d["unknown"] = 1e9;
        const T x(4.25, c);
        run.count("states");
        run.count("transitions");
        const double got = x.eval(d);
        if (!(std::fabs(got - want) <= 1e-13 * scale)) {
          const std::string k = "SScalar names " + std::to_string(a) + " offsets " + std::to_string(b) + " kind " + std::to_string(kind);
          run.violation(k, k + ": expected " + std::to_string(want) + " got " + std::to_string(got));
        } else run.count("traces");
        run.outcome({got});
        if (x.f() != 4.25 || x.size() != (long)c.size()) run.violation("SScalar eval changed the number", "eval changed the number");
      }
  // many names
  for (int n : {10, 50, 300}) {
    T::Data c, d;
    double want = 0, scale = 0;
    for (int i = 0; i < n; i++) {
      const std::string s = "v" + std::to_string(i);
      c[s] = (double)irr(1, i);
      if (i % 3) { d[s] = (double)irr(2, i); want += c[s] * d[s]; scale += std::fabs(c[s] * d[s]); }
    }
    run.count("transitions");
    const double got = T(1, c).eval(d);
    if (!(std::fabs(got - want) <= 1e-13 * scale)) run.violation("SScalar many names " + std::to_string(n), "SScalar with " + std::to_string(n) + " names: expected " + std::to_string(want) + " got " + std::to_string(got));
  }
  run.sample("SScalar<double>: all pairs of a name subset and an offset subset (and an unknown name)");
}

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
  for (int order = 2; order >= 1; order--) {
    std::vector<int> fixed = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 24};
    std::vector<int> dyn = fixed;
    for (int n : {17, 31, 32, 33, 64, 65, 129}) dyn.push_back(n);
    for (int i = (int)dyn.size() - 1; i >= 0; i--) if (run.mine()) product(run, order, -1, dyn[i]);
    for (int i = (int)fixed.size() - 1; i >= 0; i--) if (run.mine()) product(run, order, fixed[i], fixed[i]);
    if (run.mine()) polynomials(run, order, 2);
    if (run.mine()) polynomials(run, order, -1);
  }
  if (run.mine()) sparse(run);
  return run.finish();
}
