// C13, interleavings: stateless model checking of pairs of calls on the real code. Two threads; a preemption may happen before every access to
// memory that is not private to a call. Pairs of calls without conflicting accesses are additionally shown to be independent, so that
// every interleaving of theirs is equivalent to one of those executed.
#include "explore.hpp"
#include "c13_rt.hpp"
#include "purity.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
using namespace ex;

#ifndef PART
#define PART 0
#endif
#if PART == 0
using T = hj::DDScalar<2, double, 2>; static const int N = 2;
#elif PART == 1
using T = hj::DDScalar<2, double, -1>; static const int N = 2;
#elif PART == 2
using T = hj::DDScalar<1, double, -1>; static const int N = 2;
#elif PART == 3
using T = hj::SScalar<double>; static const int N = 2;
#elif PART == 4
using T = hj::DDScalar<1, double, 1>; static const int N = 1;
#elif PART == 5
using T = hj::DDScalar<2, float, 1>; static const int N = 1;
#endif
static const char *const TN[] = {"DDScalar<2,double,2>", "DDScalar<2,double,Dynamic>(2)", "DDScalar<1,double,Dynamic>(2)", "SScalar<double>", "DDScalar<1,double,1>", "DDScalar<2,float,1>"};

struct Unit { std::string name; std::function<void()> run[2]; Data *out; Data base[2]; rt::Log log[2]; };
static Data out[2]; // per thread
static std::vector<T> bank[2];

struct Explorer {
  Run &run;
  std::vector<pure::Task<T>> ts;
  struct Info { Data base[2]; rt::Log log[2]; };
  std::vector<Info> info;
  uint64_t stalls = 0;
  std::function<void()> body(int t, int b, int slot)
  {
    const auto *tp = &ts[t];
    return [tp, b, slot] { out[slot].clear(); tp->run(bank[b].data(), out[slot]); };
  }
  void prepare()
  {
    ts = pure::tasks<T>(N);
    out[0].reserve(4096); out[1].reserve(4096);
    for (int b = 0; b < 2; b++) for (int k = 0; k < 3; k++) bank[b].push_back(pure::operand<T>(N, k, b ? 3 : 0));
  }
  void solo()
  {
    info.resize(ts.size());
    for (int round = 0; round < 2; round++) // the first round is a warm-up
      for (size_t t = 0; t < ts.size(); t++)
        for (int b = 0; b < 2; b++) {
          info[t].log[b].clear();
          Doing now([&] { return ts[t].name; });
          rt::solo(body(t, b, 0), info[t].log[b]);
          info[t].base[b] = out[0];
        }
  }
  std::string title(int a, int ba, int b, int bb, const std::vector<long> &plan)
  {
    std::string s = std::string(TN[PART]) + ": thread 1 " + ts[a].name + " on bank " + std::to_string(ba) + ", thread 2 " + ts[b].name + " on bank " + std::to_string(bb) + ", preemptions at";
    for (long k : plan) s += " " + std::to_string(k);
    return s;
  }
  bool schedule(int a, int ba, int b, int bb, const std::vector<long> &plan, const std::vector<std::pair<uintptr_t, uintptr_t>> *only, const Data &wa, const Data &wb)
  {
    rt::Result r;
    {
      Doing now([&] { return title(a, ba, b, bb, plan); });
      r = rt::pair(body(a, ba, 0), body(b, bb, 1), plan, only);
    }
    run.count("transitions", 1 + r.points);
    run.count("schedules");
    if (r.deadlock) { run.violation("deadlock " + title(a, ba, b, bb, plan), "threads do not finish: " + title(a, ba, b, bb, plan)); run.finish(); _exit(1); }
    if (r.stalled) { stalls++; run.count("schedules_with_blocking"); }
    for (int k = 0; k < 2; k++)
      if (!same_bits(out[k], k ? wb : wa)) {
        run.violation(title(a, ba, b, bb, plan), "interference between threads: thread " + std::to_string(k + 1) + " computed " + orc::show(out[k]) + " instead of " + orc::show(k ? wb : wa) + ": " + title(a, ba, b, bb, plan));
        return false;
      }
    Data d;
    for (int x = 0; x < 2; x++)
      for (int k = 0; k < 3; k++) {
        d.clear(); pure::raw(bank[x][k], d);
        Data want; pure::raw(pure::operand<T>(N, k, x ? 3 : 0), want);
        if (!same_bits(d, want)) {
          run.violation("operands " + title(a, ba, b, bb, plan), "an operand was changed: " + title(a, ba, b, bb, plan));
          bank[x][k] = pure::operand<T>(N, k, x ? 3 : 0);
          return false;
        }
      }
    run.count("traces");
    return true;
  }
  static std::vector<std::pair<uintptr_t, uintptr_t>> conflicts(const rt::Log &a, const rt::Log &b)
  {
    std::vector<std::pair<uintptr_t, uintptr_t>> r;
    std::map<uintptr_t, int> ga; // bytes: 1 read 2 write
    for (auto &x : a) for (uintptr_t p = x.addr & ~7ull; p < x.addr + x.size; p += 8) ga[p] |= x.write ? 2 : 1;
    std::map<uintptr_t, int> gb;
    for (auto &x : b) for (uintptr_t p = x.addr & ~7ull; p < x.addr + x.size; p += 8) gb[p] |= x.write ? 2 : 1;
    for (auto &x : ga) { auto it = gb.find(x.first); if (it != gb.end() && ((x.second | it->second) & 2)) r.push_back({x.first, x.first + 8}); }
    return r;
  }
  void pairs()
  {
    const int n = (int)ts.size();
    for (int a = 0; a < n; a++) {
      if (!run.mine()) continue;
      for (int b = 0; b < n; b++)
        for (int bb = 0; bb < 2; bb++) {
          run.count("states");
          const auto &la = info[a].log[0], &lb = info[b].log[bb];
          const Data &wa = info[a].base[0], &wb = info[b].base[bb];
          const auto cf = conflicts(la, lb);
          if (cf.empty()) run.count("pairs_without_conflicting_accesses");
          if (stalls > 200) { run.notes["blocking"] = "the code blocks in many schedules; the remaining ones were left to the other legs"; return; }
          // one preemption of the first call before each of its shared accesses
          const long la_n = (long)la.size();
          for (long i = 0; i <= la_n; i++)
            if (!schedule(a, 0, b, bb, {i}, nullptr, wa, wb)) break;
          if (run.thorough() && lb.size() && la.size() * lb.size() <= 900) // preemption bound 2 at all shared accesses
            for (long i = 0; i < la_n; i++)
              for (long j = 0; j < (long)lb.size(); j++) if (!schedule(a, 0, b, bb, {i, j}, nullptr, wa, wb)) { i = la_n; break; }
          if (cf.empty()) continue;
          run.count("pairs_with_conflicting_accesses");
          long ca = 0, cb = 0;
          for (auto &x : la) for (auto &c : cf) if (x.addr < c.second && x.addr + x.size > c.first) { ca++; break; }
          for (auto &x : lb) for (auto &c : cf) if (x.addr < c.second && x.addr + x.size > c.first) { cb++; break; }
          ca = std::min(ca, 40L); cb = std::min(cb, 40L);
          bool ok = true;
          for (long i = 0; ok && i < ca; i++)
            for (long j = 0; ok && j < cb; j++) {
              ok = schedule(a, 0, b, bb, {i, j}, &cf, wa, wb);
              for (long k = i + 1; run.thorough() && ok && k < std::min(ca, i + 12); k++) ok = schedule(a, 0, b, bb, {i, j, k}, &cf, wa, wb);
            }
        }
    }
  }
  // the very first calls of the process: each pair of tasks in a fresh process, before anything is initialised
  void cold()
  {
    struct Shared { int n; long double v[2][300]; long logn; bool bad; char text[600]; };
    auto *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto child = [&](auto f) {
      pid_t p = fork();
      if (p == 0) { alarm(100); f(); _exit(0); }
      int st;
      waitpid(p, &st, 0);
      return st;
    };
    for (size_t t = 0; t < ts.size(); t++) {
      if (!run.mine()) continue;
      // solo: length and results
      Data base[2];
      long len = 0;
      for (int b = 0; b < 2; b++) {
        const int st = child([&] { rt::Log l; rt::solo(body(t, b, 0), l); sh->n = (int)std::min<size_t>(300, out[0].size()); for (int i = 0; i < sh->n; i++) sh->v[0][i] = out[0][i]; sh->logn = (long)l.size(); });
        if (st != 0) { run.violation("cold " + ts[t].name, "process ended with status " + std::to_string(st) + " in the first call " + ts[t].name); return; }
        base[b].assign(sh->v[0], sh->v[0] + sh->n);
        if (b == 0) len = sh->logn;
      }
      for (long i = 0; i <= std::min(len, run.thorough() ? 4000L : 400L); i++) {
        sh->bad = true;
        const int st = child([&] {
          const rt::Result r = rt::pair(body(t, 0, 0), body(t, 1, 1), {i}, nullptr);
          sh->bad = r.deadlock;
          for (int k = 0; k < 2; k++) { if (out[k].size() > 300) out[k].resize(300); sh->bad |= !same_bits(out[k], base[k]); }
        });
        run.count("schedules");
        run.count("transitions", 2);
        run.count("first_call_schedules");
        if (st != 0 || sh->bad) {
          run.violation("first " + title(t, 0, t, 1, {i}), "interference between the first calls in a process: " + title(t, 0, t, 1, {i}));
          break;
        }
        run.count("traces");
      }
    }
    munmap(sh, sizeof(Shared));
  }
};

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
  Explorer e{run};
  e.prepare();
  e.cold();
  e.solo();
  e.pairs();
  run.sample(std::string(TN[PART]) + ": " + std::to_string(e.ts.size()) + " calls; all ordered pairs on shared and on different operands, one preemption before every shared access; all pairs of positions (preemption bound 2, thorough 3) where accesses conflict; first calls of a process in fresh processes");
  return run.finish();
}
