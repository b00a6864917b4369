// C13, races: every pair of calls concurrently under the happens-before race detector, no warm-up. A race between two calls is detected from the
// accesses made, whichever of the interleavings happens to run.
#include "explore.hpp"
#include "purity.hpp"
#include <atomic>
#include <thread>
using namespace ex;
namespace pure { void on() {} void off() {} }

static std::atomic<int> current_call{-1};
static Run *the_run;
static std::vector<std::string> call_names;

template <class T> static void race(Run &run, const std::string &nm, int n)
{
  auto ts = pure::tasks<T>(n);
  std::vector<T> bank[2];
  for (int b = 0; b < 2; b++) for (int k = 0; k < 3; k++) bank[b].push_back(pure::operand<T>(n, k, b ? 3 : 0));
  const int n_t = (int)ts.size();
  // thread 1 repeats call a, thread 2 makes every call, on the same operands and then on others: all pairs are concurrent
  for (int a = 0; a < n_t; a++) {
    if (!run.mine()) continue;
    Data first[2];
    std::vector<Data> second[2];
    Doing now([&] { return nm + " thread 1: " + ts[a].name + ", thread 2: every call"; });
    call_names.push_back(nm + ": thread 1 " + ts[a].name + ", thread 2 every other call");
    current_call = (int)call_names.size() - 1;
    bool differs = false;
    std::string what;
    std::thread t1([&] {
      for (int k = 0; k < 3; k++) { Data o; ts[a].run(bank[0].data(), o); if (k && !same_bits(o, first[0])) differs = true; first[0] = o; }
    });
    std::thread t2([&] {
      for (int b = 0; b < 2; b++) {
        for (int c = 0; c < n_t; c++) { Data o; ts[(a + c) % n_t].run(bank[b].data(), o); second[b].push_back(o); }
      }
    });
    t1.join(); t2.join();
    Data alone;
    ts[a].run(bank[0].data(), alone);
    if (differs || !same_bits(alone, first[0])) run.violation(call_names.back(), "a concurrent call returned another result: " + call_names.back());
    for (int b = 0; b < 2; b++)
      for (int c = 0; c < n_t; c++) {
        Data o;
        ts[(a + c) % n_t].run(bank[b].data(), o);
        if (!same_bits(o, second[b][c])) run.violation("second " + call_names.back() + ts[(a + c) % n_t].name, "a concurrent call returned another result: " + ts[(a + c) % n_t].name + " while " + call_names.back());
      }
    run.count("states");
    run.count("transitions", 2 * n_t + 3);
    run.count("concurrent_pairs", 2 * n_t);
  }
}

// called by the race detector for every report
extern "C" int __tsan_get_report_data(void *report, const char **description, int *count, int *stack_count, int *mop_count, int *loc_count, int *mutex_count, int *thread_count, int *unique_tid_count, void **sleep_trace, unsigned long trace_size);
extern "C" void __tsan_on_report(void *report)
{
  const char *d = nullptr;
  int c[7];
  void *tr[4];
  __tsan_get_report_data(report, &d, &c[0], &c[1], &c[2], &c[3], &c[4], &c[5], &c[6], tr, 4);
  const std::string call = current_call >= 0 ? call_names[current_call] : "";
  the_run->violation("race", std::string("unsynchronised concurrent accesses (") + (d ? d : "race") + ") in " + call);
}

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  the_run = &run;
  guard(run);
  using namespace hj;
  call_names.reserve(100000);
  race<DDScalar<2, double, 2>>(run, "DDScalar<2,double,2>", 2);
  race<DDScalar<2, double, -1>>(run, "DDScalar<2,double,Dynamic>(3)", 3);
  race<DDScalar<1, double, -1>>(run, "DDScalar<1,double,Dynamic>(2)", 2);
  race<SScalar<double>>(run, "SScalar<double>", 3);
  race<DDScalar<1, double, 3>>(run, "DDScalar<1,double,3>", 3);
  race<DDScalar<2, float, 1>>(run, "DDScalar<2,float,1>", 1);
  run.sample("all pairs of calls on six types, concurrently on shared and different operands, under the race detector");
  return run.finish();
}
