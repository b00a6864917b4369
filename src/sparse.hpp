// Sparse named-variable numbers behind the same machine interface: a register is a first-order number over the names NAMES[0..n).
#pragma once
#include "subject_impl.hpp"

template <class S> struct SparseMachine : Machine {
  using T = hj::SScalar<S>;
  std::vector<std::string> names;
  std::vector<T> r, result;
  explicit SparseMachine(std::vector<std::string> n) : names(n) {}
  int order() const override { return 1; }
  int size() const override { return (int)names.size(); }
  std::string name() const override { return sizeof(S) == 4 ? "SScalar<float>" : sizeof(S) > 8 ? "SScalar<long double>" : "SScalar<double>"; }
  long double eps() const override { return std::numeric_limits<S>::epsilon(); }
  void regs(int k) override { r.assign(k, T()); result.clear(); result.reserve(1); }
  // mask: which names are stored; a name that is not stored must have derivative zero in d
  static T make(const std::vector<std::string> &names, const ops::Data &d, unsigned mask)
  {
    typename T::Data m;
    for (size_t i = 0; i < names.size(); i++) if (mask >> i & 1) m[names[i]] = S(d[1 + i]);
    return T(S(d[0]), m);
  }
  void load_mask(int i, const ops::Data &d, unsigned mask) { r[i] = make(names, d, mask); }
  void load(int i, const ops::Data &d) override
  {
    unsigned mask = 0;
    for (size_t k = 0; k < names.size(); k++) if (d[1 + k] != 0) mask |= 1u << k;
    load_mask(i, d, mask);
  }
  ops::Data get(const T &x)
  {
    ops::Data d;
    d.push_back(x.f());
    for (auto &n : names) d.push_back(x.d(n));
    return d;
  }
  ops::Data read(int i) override { return get(r[i]); }
  long reg_size(int) override { return size(); }
  void store(int i) override { r[i] = result[0]; }
  long double eval(int, const ops::Data &) override { return 0; }
  int compare(int o, int ra, int rb) override
  {
    const T &a = r[ra], &b = r[rb];
    switch (o) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a > b; case 4: return a <= b; default: return a >= b; }
  }
  int compare_num(int o, int ra, long double sl, bool left) override
  {
    const T &a = r[ra];
    const S s = S(sl);
    if (left) switch (o) { case 0: return s == a; case 1: return s != a; case 2: return s < a; case 3: return s > a; case 4: return s <= a; default: return s >= a; }
    switch (o) { case 0: return a == s; case 1: return a != s; case 2: return a < s; case 3: return a > s; case 4: return a <= s; default: return a >= s; }
  }
  Outcome exec(const ops::Call &c) override
  {
    Outcome o;
    o.in_place = ops::inplace(c.op);
    try {
      T &x = r[c.a[0]], &y = r[c.a[1]], &z = r[c.a[2]];
      o.ref_ok = perform(x, y, z, c, S(c.s), [this](T &&t) { result.clear(); result.push_back(std::move(t)); });
      o.data = get(o.in_place ? x : result[0]);
      o.size = size();
    } catch (const std::exception &e) {
      o.threw = true;
      o.what = e.what();
    }
    return o;
  }
};
