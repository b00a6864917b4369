// C13, sequential part: the result of a call does not depend on the calls before it. Every history to the depth bound.
#include "explore.hpp"
#include "purity.hpp"
using namespace ex;
namespace pure { void on() {} void off() {} }

static bool same(const Data &a, const Data &b)
{
  return same_bits(a, b);
}

// anything that can be run: one task on one set of operands
struct Item {
  std::string name;
  int machine;
  int bank, addr;
  std::function<void(Data &)> run;
  Data base;
  bool core = false; // member of the reduced alphabet
};

// operands live at addr 0 (re-created in place) or addr 1..; banks select their content
template <class T> struct Store {
  int n;
  std::vector<std::vector<T>> at; // per address
  std::vector<std::vector<Data>> content;
  int loaded[8];
  std::vector<std::vector<T>> bank;
  Store(int n) : n(n)
  {
    for (int b = 0; b < 4; b++) {
      bank.emplace_back();
      for (int k = 0; k < 3; k++) bank[b].push_back(pure::operand<T>(n, k, b));
    }
    // address 0 holds whatever was loaded last; addresses 1..4 hold banks 0..3 for good
    at.push_back(bank[0]);
    for (int b = 0; b < 4; b++) at.push_back(bank[b]);
    loaded[0] = 0;
    for (int b = 0; b < 4; b++) loaded[1 + b] = b;
    for (int b = 0; b < 4; b++) { content.emplace_back(); for (int k = 0; k < 3; k++) { Data d; pure::raw(bank[b][k], d); content[b].push_back(d); } }
  }
  void load(int b)
  {
    if (loaded[0] == b) return;
    for (int k = 0; k < 3; k++) at[0][k] = bank[b][k];
    loaded[0] = b;
  }
  bool intact(int a)
  {
    Data d;
    for (int k = 0; k < 3; k++) { d.clear(); pure::raw(at[a][k], d); if (!same(d, content[loaded[a]][k])) return false; }
    return true;
  }
  void repair(int a) { for (int k = 0; k < 3; k++) at[a][k] = pure::operand<T>(n, k, loaded[a]); }
};

struct World {
  Run &run;
  std::vector<Item> items;
  std::vector<std::function<bool()>> intact; // all live numbers of every machine unchanged
  std::vector<std::pair<int, int>> range;    // items of each machine
  template <class T> void add(const std::string &nm, int n, bool wide)
  {
    auto st = std::make_shared<Store<T>>(n);
    const int mi = (int)range.size();
    const int from = (int)items.size();
    static std::vector<std::shared_ptr<std::vector<pure::Task<T>>>> keep;
    auto ts = std::make_shared<std::vector<pure::Task<T>>>(pure::tasks<T>(n));
    keep.push_back(ts);
    for (auto &t : *ts)
      for (int b = 0; b < (wide ? 4 : 1); b++)
        for (int a : {0, 1 + b}) {
          Item it;
          it.name = nm + " " + t.name + (a ? " operands bank " : " operands (reused address) bank ") + std::to_string(b);
          it.machine = mi; it.bank = b; it.addr = a;
          it.core = b == 0 && a != 0;
          const auto *tp = &t;
          it.run = [st, tp, a, b](Data &out) { if (a == 0) st->load(b); tp->run(st->at[a].data(), out); };
          items.push_back(it);
        }
    intact.push_back([st] { for (size_t a = 0; a < st->at.size(); a++) if (!st->intact((int)a)) { st->repair((int)a); return false; } return true; });
    range.push_back({from, (int)items.size()});
  }
  uint64_t ticks = 0;
  bool exec(const Item &it, const std::vector<const Item *> &hist, bool check_live)
  {
    Data out;
    {
      Doing now([&] { return it.name; });
      it.run(out);
    }
    run.count("transitions");
    auto path = [&] { std::string s; for (auto h : hist) s += h->name + "; "; return s + it.name; };
    if (!same(out, it.base)) {
      run.violation(path(), "the result depends on what ran before: after the history [" + path() + "] the last call returned " + orc::show(out) + " but " + orc::show(it.base) + " before");
      return false;
    }
    if (check_live && !intact[it.machine]()) {
      run.violation("operands " + path(), "a live number was changed by the last call of [" + path() + "]");
      return false;
    }
    run.count("traces");
    return true;
  }
  void baselines()
  {
    for (auto &it : items) it.run(it.base);
    // once more: the first run must not have been special
    for (auto &it : items) exec(it, {}, true);
    for (size_t k = 0; k < items.size(); k++) exec(items[items.size() - 1 - k], {}, true);
  }
  void pairs(int m)
  {
    for (int i = range[m].first; i < range[m].second; i++) {
      if (!run.mine()) continue;
      for (int j = range[m].first; j < range[m].second; j++) {
        Data sink;
        items[i].run(sink);
        run.count("transitions");
        run.count("states");
        exec(items[j], {&items[i]}, (j & 15) == (i & 15));
      }
      if (!intact[m]()) run.violation("operands after " + items[i].name, "a live number changed during pairs with " + items[i].name);
    }
  }
  void triples(int m)
  {
    std::vector<const Item *> c;
    for (int i = range[m].first; i < range[m].second; i++) if (items[i].core) c.push_back(&items[i]);
    for (auto a : c) {
      if (!run.mine()) continue;
      for (auto b : c)
        for (auto d : c) {
          Data s;
          a->run(s); s.clear(); b->run(s);
          run.count("states");
          run.count("transitions", 2);
          exec(*d, {a, b}, false);
        }
      if (!intact[m]()) run.violation("operands after triples " + a->name, "a live number changed during triples with " + a->name);
    }
  }
  void cross(int m1, int m2)
  {
    if (!run.mine()) return;
    for (int i = range[m1].first; i < range[m1].second; i++) {
      if (!items[i].core) continue;
      for (int j = range[m2].first; j < range[m2].second; j++) {
        if (!items[j].core) continue;
        Data s;
        items[i].run(s);
        run.count("transitions");
        run.count("states");
        exec(items[j], {&items[i]}, false);
      }
    }
    if (!intact[m1]() || !intact[m2]()) run.violation("operands after mixed pairs", "a live number changed during pairs of calls on two types");
  }
  // the same call many times in a row: nothing may build up
  void repeat(int times)
  {
    for (size_t i = 0; i < items.size(); i++) {
      if (!items[i].core || !run.mine()) continue;
      for (int k = 0; k < times; k++) if (!exec(items[i], {&items[i]}, k % 256 == 255)) break;
      run.count("states");
    }
  }
};

int main(int argc, char **argv)
{
  Run run = parse(argc, argv);
  guard(run);
  World w{run};
  using namespace hj;
  w.add<DDScalar<2, double, 1>>("DDScalar<2,double,1>", 1, true);
  w.add<DDScalar<2, double, 3>>("DDScalar<2,double,3>", 3, true);
  w.add<DDScalar<2, double, -1>>("DDScalar<2,double,Dynamic>(2)", 2, true);
  w.add<DDScalar<1, double, -1>>("DDScalar<1,double,Dynamic>(3)", 3, true);
  w.add<DDScalar<1, double, 2>>("DDScalar<1,double,2>", 2, true);
  w.add<SScalar<double>>("SScalar<double>", 3, true);
  w.add<DDScalar<2, double, -1>>("DDScalar<2,double,Dynamic>(5)", 5, false);
  w.add<DDScalar<1, double, -1>>("DDScalar<1,double,Dynamic>(1)", 1, false);
  w.add<DDScalar<2, double, 0>>("DDScalar<2,double,0>", 0, false);
  w.add<DDScalar<1, float, 3>>("DDScalar<1,float,3>", 3, false);
  w.add<DDScalar<2, long double, 2>>("DDScalar<2,long double,2>", 2, false);
  w.add<DDScalar<2, float, -1>>("DDScalar<2,float,Dynamic>(2)", 2, false);
  w.add<SScalar<float>>("SScalar<float>", 2, false);
  w.baselines();
  run.notes["items"] = std::to_string(w.items.size());
  const int M = (int)w.range.size();
  for (int m = 0; m < 6; m++) w.pairs(m);
  for (int a = 0; a < M; a++) for (int b = 0; b < M; b++) w.cross(a, b);
  for (int m = 0; m < (run.thorough() ? M : 4); m++) w.triples(m);
  w.repeat(run.thorough() ? 1 << 18 : 1 << 13);
  run.sample(std::to_string(w.items.size()) + " calls with operands on " + std::to_string(M) + " types: all ordered pairs per type (values, derivatives and addresses varied independently), all pairs across types, all triples of the reduced alphabet, long repetitions");
  return run.finish();
}
