// C14: the exception-free configuration in lockstep with the normal one.
#include "explore.hpp"
#include "c14_api.hpp"
#include "factories.hpp"
#include <sys/wait.h>
using namespace ex;
using namespace api;

#define TABLES(p) std::vector<Type> p##1(); std::vector<Type> p##2(); Type p##S();
TABLES(normal_) TABLES(nx_) TABLES(nd_)

static std::string str(const Type &t, int sc, const Args &a, int op)
{
  std::string s = t.order ? "DDScalar<" + std::to_string(t.order) + "," + t.scalar + "," + (t.size < 0 ? std::string("Dynamic") : std::to_string(t.size)) + "> " : "SScalar<double> ";
  s += SCENARIO[sc];
  if (sc == PAIR || sc == TRIPLE) s += std::string(" ") + ops::NAME[op];
  return s + " n=" + std::to_string(a.n) + " m=" + std::to_string(a.m) + " k=" + std::to_string(a.k) + " i=" + std::to_string(a.i);
}

// how does the exception-free configuration end on this input? 0: completes
static int ending(const Type &t, int sc, const Args &a, int op)
{
  fflush(nullptr);
  const pid_t p = fork();
  if (p == 0) {
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) signal(s, SIG_DFL);
    if (!freopen("/dev/null", "w", stderr)) _exit(99);
    alarm(60);
    t.run(sc, a, op);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return st;
}

struct Check {
  Run &run;
  void one(const Type &nt, const Type &xt, const Type &dt, int sc, const Args &a, int op = 0)
  {
    const std::string what = str(nt, sc, a, op);
    Reply n;
    {
      Doing now([&] { return what + " (normal configuration)"; });
      n = nt.run(sc, a, op);
    }
    run.count("states");
    run.count("transitions", 2);
    if (n.threw) {
      const int st = ending(xt, sc, a, op);
      run.count("rejections");
      if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT))
        run.violation(what, "rejected by the normal configuration ('" + n.what + "') but " + (WIFSIGNALED(st) ? "ended by signal " + std::to_string(WTERMSIG(st)) : std::string("accepted")) + " in the exception-free configuration with assertions: " + what);
      else run.count("traces");
      return;
    }
    Doing now([&] { return what + " (exception-free configuration)"; });
    const Reply x = xt.run(sc, a, op);
    if (!same_bits(n.data, x.data)) { run.violation(what, "results differ between the configurations: normal " + orc::show(n.data) + ", exception-free " + orc::show(x.data) + " in " + what); return; }
    const Reply d = dt.run(sc, a, op);
    run.count("transitions");
    if (!same_bits(n.data, d.data)) { run.violation(what + " NDEBUG", "results differ between the configurations (assertions off): normal " + orc::show(n.data) + ", exception-free " + orc::show(d.data) + " in " + what); return; }
    run.count("traces");
    run.outcome(n.data);
  }
  void type(const Type &nt, const Type &xt, const Type &dt)
  {
    const bool dyn = nt.size < 0;
    const long top = run.thorough() ? 12 : 7;
    std::vector<long> sizes;
    for (long n = -3; n <= (dyn ? top : nt.size + 3); n++) sizes.push_back(n);
    if (!dyn) sizes.push_back(2 * nt.size + 1);
    sizes.push_back(40); sizes.push_back(-1000);
    std::vector<long> ok = dyn ? std::vector<long>() : std::vector<long>{nt.size};
    if (dyn) { for (long n = 0; n <= top; n++) ok.push_back(n); ok.push_back(33); }
    for (int sc : {DEFAULT, PLAIN, ZERO, CONSTANT}) one(nt, xt, dt, sc, {});
    for (long n : sizes) {
      for (int sc : {EMPTY_N, ZERO_N, CONSTANT_N}) one(nt, xt, dt, sc, {n});
      if (n >= 0) one(nt, xt, dt, VARIABLES, {n});
    }
    // variable indices
    for (long n : ok) for (long i = -2; i <= n + 2; i++) { one(nt, xt, dt, VARIABLE_N, {n, 0, 0, i}); if (!dyn) one(nt, xt, dt, VARIABLE, {n, 0, 0, i}); }
    for (long n : sizes) one(nt, xt, dt, VARIABLE_N, {n, 0, 0, 0});
    for (long l = -2; l <= 140; l++) { one(nt, xt, dt, LENGTHS, {l}); if (l >= 0 && dyn) one(nt, xt, dt, CREATE, {l}); }
    if (!dyn) { one(nt, xt, dt, CREATE, {}); one(nt, xt, dt, RAW, {}); }
    for (long l = 0; l < 24; l++) one(nt, xt, dt, INIT_LIST, {l});
    for (long n : ok) {
      for (int sc : {HM, GRADIENT, HESSIAN, TEXT}) if (sc == GRADIENT || sc == TEXT || nt.order == 2) one(nt, xt, dt, sc, {n});
      if (!dyn) {
        one(nt, xt, dt, EVAL, {n, n});
        if (nt.order == 2) one(nt, xt, dt, SET_HM, {n, n, n});
        one(nt, xt, dt, FROM, {n, n, n});
        one(nt, xt, dt, COMPARE, {n, n});
      }
    }
    if (dyn)
      for (long n : ok)
        for (long m = 0; m <= top + 1; m++) {
          one(nt, xt, dt, PAD_LEFT, {n, m}); one(nt, xt, dt, PAD_RIGHT, {n, m}); one(nt, xt, dt, EVAL, {n, m}); one(nt, xt, dt, COMPARE, {n, m});
          for (long k : {m, n, m + 1}) {
            if (nt.order == 2) one(nt, xt, dt, SET_HM, {n, m, k});
            if (nt.order == 2 || (m == n && k == n)) one(nt, xt, dt, FROM, {n, m, k});
          }
          for (long d : {-1, 0, 1}) {
            const long l = (nt.order == 1 ? 1 + m : (m + 1) * (m + 2) / 2) + d;
            one(nt, xt, dt, RAW, {n, l}); one(nt, xt, dt, SET_ADATA, {n, l});
          }
        }
    if (dyn) for (long n : ok) for (long m = -3; m <= top; m++) { one(nt, xt, dt, RESIZE, {n, m}); if (m < 0) { one(nt, xt, dt, PAD_LEFT, {n, m}); one(nt, xt, dt, PAD_RIGHT, {n, m}); one(nt, xt, dt, RAW, {m, n + 1}); } }
    // operations: equal and different numbers of variables
    for (int op = 0; op < ops::NOPS; op++) {
      if (!dyn) { one(nt, xt, dt, PAIR, {nt.size, nt.size, nt.size}, op); continue; }
      const long lim = 4;
      for (long n = 0; n <= lim; n++)
        for (long m = 0; m <= (ops::arity(op) > 1 ? lim : 0); m++)
          for (long k = 0; k <= (ops::arity(op) > 2 ? lim : 0); k++) one(nt, xt, dt, ops::arity(op) > 2 ? TRIPLE : PAIR, {n, ops::arity(op) > 1 ? m : n, ops::arity(op) > 2 ? k : n}, op);
      one(nt, xt, dt, PAIR, {33, 33, 33}, op);
    }
  }
};

// all operations on values and derivative patterns, in lockstep, bit for bit
static void lockstep(Run &run, int order, int size, int n)
{
  auto a = make_machine(order, size, 'd'), b = make_machine(order, size, 'x');
  if (!a || !b) throw std::runtime_error("missing instantiation");
  a->regs(3); b->regs(3);
  std::vector<Call> calls;
  for (int o = 0; o < ops::NOPS; o++) {
    std::vector<long double> nums = {0};
    if (ops::takes_number(o)) nums = as_double({-1.5, 0, 1, 2, 3, 0.5});
    for (auto s : nums)
      for (int self = 0; self < (ops::arity(o) > 1 ? 2 : 1); self++) calls.push_back(Call{o, {0, self ? 0 : 1, self ? 0 : 2}, s});
  }
  const auto pats = patterns(order, n, 3, false);
  std::vector<long double> grid = both({0, 0.25, 0.625, 1, 1.5, 20, 1e-9, 1e9});
  for (auto x : grid)
    for (auto y : grid) {
      if (!run.mine()) continue;
      size_t np = 0;
      for (auto &p : pats) {
        if (np++ > (run.thorough() ? 100000u : 24u)) break;
        std::vector<Data> regs = p;
        regs[0][0] = x; regs[1][0] = y; regs[2][0] = 0.5;
        run.count("states");
        for (auto &c : calls) {
          for (int k = 0; k < 3; k++) { a->load(k, regs[k]); b->load(k, regs[k]); }
          Outcome oa, ob;
          Doing now([&] { return describe(*b, n, c, regs); });
          oa = a->exec(c);
          ob = b->exec(c);
          run.count("transitions", 2);
          if (oa.threw || oa.size != ob.size || !same_bits(oa.data, ob.data))
            run.violation(describe(*b, n, c, regs), "the configurations differ: normal " + orc::show(oa.data) + ", exception-free " + orc::show(ob.data) + " in " + describe(*b, n, c, regs));
          else run.count("traces");
        }
      }
    }
}

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
  Check c{run};
  std::vector<Type> n1 = normal_1(), x1 = nx_1(), d1 = nd_1(), n2 = normal_2(), x2 = nx_2(), d2 = nd_2();
  for (size_t i = 0; i < n1.size(); i++) {
    if (run.mine()) c.type(n1[i], x1[i], d1[i]);
    if (run.mine()) c.type(n2[i], x2[i], d2[i]);
  }
  if (run.mine())
    for (int op = 0; op < ops::NOPS; op++)
      for (long code = 0; code < (ops::arity(op) > 2 ? 512 : ops::arity(op) > 1 ? 64 : 8); code++)
        c.one(normal_S(), nx_S(), nd_S(), PAIR, {code & 7, code >> 3 & 7, code >> 6}, op);
  for (int order : {1, 2}) for (int size : {-1, 1, 2, 3}) lockstep(run, order, size, size < 0 ? 2 : size);
  run.sample("28 scenarios of construction, access and operation x sizes, lengths, indices around and beyond the valid range x 18 types: identical results, or error in the normal and assertion in the exception-free configuration");
  run.sample("all operations x values x derivative patterns bit for bit in both configurations");
  return run.finish();
}
