// Exploration kit: command line, counters, violations, sharding, value alphabets, derivative patterns.
#pragma once
#include "oracle.hpp"
#include "subject.hpp"
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <csignal>
#include <set>
#include <sstream>
#include <unistd.h>
#include <unordered_set>

namespace ex
{
using ops::Call;
using ops::Data;

struct Violation { std::string key, detail; };

struct Run {
  std::string property, tier = "quick", out, only;
  int shard = 0, shards = 1;
  std::set<std::string> legs;
  std::map<std::string, uint64_t> counters;
  std::map<std::string, std::string> notes;
  std::vector<Violation> violations;
  uint64_t nviol = 0;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> outcomes; // hashes of distinct observed results (capped)
  uint64_t unit = 0;
  bool reproduced = false;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();

  bool thorough() const { return tier == "thorough"; }
  bool leg(const char *l) const { return legs.empty() || legs.count(l); }
  // work is divided among processes unit by unit
  bool mine() { return (unit++ % shards) == (uint64_t)shard; }
  void count(const char *c, uint64_t n = 1) { counters[c] += n; }
  void outcome(const Data &d)
  {
    if (outcomes.size() > 2000000) return;
    uint64_t h = 1469598103934665603ull;
    for (long double x : d) { double v = (double)x; uint64_t b; memcpy(&b, &v, 8); h = (h ^ b) * 1099511628211ull; h ^= h >> 29; }
    outcomes.insert(h);
  }
  void sample(const std::string &s, size_t max = 6) { if (samples.size() < max) samples.push_back(s); }
  void violation(const std::string &key, const std::string &detail)
  {
    nviol++;
    if (!only.empty()) {
      if (key != only) return;
      reproduced = true;
      violations.assign(1, {key, detail});
      finish();
      _exit(1);
    }
    if (violations.size() < 20) violations.push_back({key, detail});
    // a broken tree usually fails everywhere: no need to go on for long
    if (nviol >= 2000) { finish(); _exit(1); }
  }
  static std::string esc(const std::string &s)
  {
    std::string r = "\"";
    for (char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r + "\"";
  }
  int finish()
  {
    std::ostringstream o;
    o << "{\"shard\":" << shard << ",\"units\":" << unit << ",\"counters\":{";
    bool f = true;
    if (!outcomes.empty()) counters["distinct_outcomes"] += outcomes.size();
    for (auto &c : counters) { o << (f ? "" : ",") << esc(c.first) << ":" << c.second; f = false; }
    o << "},\"notes\":{";
    f = true;
    for (auto &c : notes) { o << (f ? "" : ",") << esc(c.first) << ":" << esc(c.second); f = false; }
    o << "},\"samples\":[";
    f = true;
    for (auto &s : samples) { o << (f ? "" : ",") << esc(s); f = false; }
    o << "],\"violation_count\":" << nviol << ",\"violations\":[";
    f = true;
    for (auto &v : violations) { o << (f ? "" : ",") << "{\"key\":" << esc(v.key) << ",\"detail\":" << esc(v.detail) << "}"; f = false; }
    o << "],\"reproduced\":" << (reproduced ? "true" : "false") << ",\"wall_s\":"
      << std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() << "}\n";
    if (out.empty()) std::cout << o.str();
    else { std::ofstream(out) << o.str(); }
    return nviol ? 1 : 0;
  }
};

// the call being executed, for the report if it ends the process
struct Current { Run *run = nullptr; const std::function<std::string()> *what = nullptr; };
inline Current current;
inline void on_signal(int sig)
{
  signal(sig, SIG_DFL);
  alarm(20);
  if (current.run && current.what) {
    const std::string d = (*current.what)();
    current.run->violation(d, "process received signal " + std::to_string(sig) + " in " + d);
    current.run->finish();
  }
  raise(sig);
}
inline void guard(Run &r)
{
  current.run = &r;
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) signal(s, on_signal);
}
struct Doing {
  std::function<std::string()> f;
  const std::function<std::string()> *prev;
  template <class L> Doing(L l) : f(l), prev(current.what) { current.what = &f; }
  ~Doing() { current.what = prev; }
};

inline Run parse(int argc, char **argv)
{
  Run r;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--tier") r.tier = next();
    else if (a == "--out") r.out = next();
    else if (a == "--only") r.only = next();
    else if (a == "--leg") r.legs.insert(next());
    else if (a == "--shard") { std::string s = next(); sscanf(s.c_str(), "%d/%d", &r.shard, &r.shards); }
    else { std::cerr << "unknown argument " << a << "\n"; exit(3); }
  }
  return r;
}

// ---- value alphabets -------------------------------------------------------------------------------------------

inline std::vector<long double> both(std::vector<long double> v)
{
  std::vector<long double> r;
  for (auto x : v) { r.push_back((double)x); if (x != 0) r.push_back(-(double)x); }
  return r;
}
inline std::vector<long double> as_double(std::vector<long double> v)
{
  for (auto &x : v) x = (double)x;
  return v;
}

// every finite value of a small binary format: 1 sign bit, e exponent bits, m mantissa bits, with subnormals and zeros
inline std::vector<long double> minifloat(int e, int m, bool sign = true)
{
  std::vector<long double> r;
  const int bias = (1 << (e - 1)) - 1;
  for (int s = 0; s <= (sign ? 1 : 0); s++)
    for (int x = 0; x < (1 << e) - 1; x++)
      for (int f = 0; f < (1 << m); f++) {
        long double v = x == 0 ? ldexpl((long double)f / (1 << m), 1 - bias) : ldexpl(1 + (long double)f / (1 << m), x - bias);
        r.push_back(s ? -v : v);
      }
  return r;
}

// magnitudes far from one
inline std::vector<long double> magnitudes() { return both({1e-30, 1e-14, 1e-9, 1e-5, 1e5, 1e9, 1e14, 1e30}); }

// values at which code tends to branch: neighbourhoods of small integers, simple fractions and multiples of pi/4, powers of ten
inline std::vector<long double> special_values()
{
  std::vector<double> c = {0, 1, 2, 3, 4, 10, 0.5, 0.25, 1.5, 0.1, 1e-3, M_PI, M_PI / 2, M_PI / 4, 3 * M_PI / 2, 2 * M_PI, M_E, M_SQRT2, M_SQRT1_2, M_LN2, 20, 50, 100, 300, 700};
  std::set<double> v;
  for (double x : c)
    for (double y : {x, -x}) {
      v.insert(y);
      v.insert(std::nextafter(y, 1e300)); v.insert(std::nextafter(y, -1e300));
      for (double d : {1e-14, 1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2}) { v.insert(y + d); v.insert(y - d); }
    }
  for (int k = -30; k <= 30; k++) for (double f : {1.0, 3.3}) { v.insert(f * std::pow(10.0, k)); v.insert(-f * std::pow(10.0, k)); }
  return std::vector<long double>(v.begin(), v.end());
}

// ---- derivative patterns ---------------------------------------------------------------------------------------

// deterministic irregular small number for (operand, coefficient)
inline long double irr(int k, int i)
{
  uint64_t z = (uint64_t)(k * 1000003 + i * 7919 + 12345) * 0x9E3779B97F4A7C15ull;
  z ^= z >> 31; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 29;
  const int v = (int)(z % 2001) - 1000;
  return (v == 0 ? 7 : v) / 256.0L; // exact in float
}

using Pattern = std::vector<Data>; // one coefficient vector (value slot unused) per operand

// All basis directions of the (multi)linear chain rule, plus dense and degenerate combinations. `full` lists every
// index; otherwise the index set is thinned to the ends and the middle.
inline std::vector<Pattern> patterns(int order, int n, int k, bool full)
{
  std::vector<Pattern> r;
  const int len = orc::packed_len(order, n);
  auto blank = [&]() { return Pattern(k, Data(len, 0)); };
  { Pattern p = blank(); for (int o = 0; o < k; o++) for (int i = 1; i < len; i++) p[o][i] = irr(o, i); r.push_back(p); }
  r.push_back(blank());
  if (n == 0) return {blank()};
  // very small and very large derivatives; operands with equal and with opposite derivatives
  for (long double sc : {1e-13L, 1e-30L, 1e13L}) {
    Pattern p = blank();
    for (int o = 0; o < k; o++) for (int i = 1; i < len; i++) p[o][i] = (double)(irr(o + 11, i) * sc);
    r.push_back(p);
  }
  if (k > 1)
    for (int sg : {1, -1}) {
      Pattern p = blank();
      for (int o = 0; o < k; o++) for (int i = 1; i < len; i++) p[o][i] = irr(13, i) * (o ? sg : 1);
      r.push_back(p);
    }
  for (int o = 0; o < k; o++) {
    Pattern p = blank();
    for (int i = 1; i < len; i++) p[o][i] = irr(o + 3, i);
    r.push_back(p); // only one operand depends on the variables
    p = blank();
    for (int i = 1; i <= n; i++) p[o][i] = irr(o + 5, i);
    r.push_back(p); // gradient only
    if (order == 2) {
      p = blank();
      for (int i = 1 + n; i < len; i++) p[o][i] = irr(o + 7, i);
      r.push_back(p); // Hessian only
    }
  }
  std::vector<int> ix;
  for (int i = 0; i < n; i++)
    if (full || n <= 6 || i < 2 || i >= n - 2 || i == n / 2) ix.push_back(i);
  for (int o = 0; o < k; o++)
    for (int i : ix) { Pattern p = blank(); p[o][1 + i] = 1; r.push_back(p); }
  if (order == 2) {
    for (int o = 0; o < k; o++)
      for (int o2 = o; o2 < k; o2++)
        for (int i : ix)
          for (int j : ix) {
            if (o == o2 && j <= i) continue;
            Pattern p = blank();
            p[o][1 + i] = 1; p[o2][1 + j] = o == o2 ? 1 : 2;
            r.push_back(p);
          }
    for (int o = 0; o < k; o++)
      for (int i : ix)
        for (int j : ix)
          if (i <= j) { Pattern p = blank(); p[o][orc::hidx(n, i, j)] = 1; r.push_back(p); }
  }
  return r;
}

// ---- one conformance step --------------------------------------------------------------------------------------

constexpr long double K = 512;
constexpr long double K_EXTENDED = 64; // an intermediate result in double precision costs about 1000

inline bool same_bits(const Data &a, const Data &b)
{
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
  return true;
}

inline std::string describe(const Machine &m, int n, const Call &c, const std::vector<Data> &regs)
{
  std::string s = m.name() + " n=" + std::to_string(n) + " " + c.str();
  std::set<int> used;
  for (int i = 0; i < ops::arity(c.op); i++) used.insert(c.a[i]);
  for (int u : used) s += " r" + std::to_string(u) + "=" + orc::show(regs[u]);
  return s;
}

// Executes `c` on registers already loaded with `regs`; compares with the model. Returns false on a violation.
// The result is left in `got`. If the reference is outside the domain nothing is claimed about the result.
inline bool step(Run &run, Machine &m, int n, const Call &c, const std::vector<Data> &regs, Data &got, const orc::Partials *pp = nullptr,
                 long double lim = 1e60L, bool *in_domain = nullptr)
{
  const orc::Partials p = pp ? *pp : orc::call_partials(c, regs);
  Outcome o;
  {
    Doing now([&] { return describe(m, n, c, regs); });
    o = m.exec(c);
  }
  run.count("transitions");
  got = o.data;
  auto fail = [&](const std::string &what) {
    const std::string d = describe(m, n, c, regs);
    run.violation(d, what + " in " + d);
    return false;
  };
  if (in_domain) *in_domain = true;
  if (o.threw) return fail("operation on equal sizes reported error '" + o.what + "'");
  if (!o.ref_ok) return fail("compound assignment did not return its target");
  if (o.size != n) return fail("result has " + std::to_string(o.size) + " variables");
  if (m.eps() < 1e-18L) {
    const orc::RefQ ref = orc::apply<orc::Q>(m.order(), n, c, regs, p, lim);
    if (!ref.ok) { run.count("outside_domain"); if (in_domain) *in_domain = false; }
    else {
      const int d = orc::differs(ref, got, m.eps(), K_EXTENDED, 1e-300L);
      if (d >= 0) return fail("coefficient " + std::to_string(d) + " differs: expected " + orc::show(ref.v) + " got " + orc::show(got));
      run.count("traces");
    }
  } else {
    const orc::Ref ref = orc::apply<long double>(m.order(), n, c, regs, p, lim);
    if (!ref.ok) { run.count("outside_domain"); if (in_domain) *in_domain = false; }
    else {
      const int d = orc::differs(ref, got, m.eps(), K, m.eps() > 1e-10L ? 1e-30L : 1e-280L);
      if (d >= 0) return fail("coefficient " + std::to_string(d) + " differs: expected " + orc::show(ref.v) + " got " + orc::show(got));
      run.count("traces");
    }
  }
  return true;
}
}
