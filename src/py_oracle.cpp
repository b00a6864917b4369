// The reference model as a shared library for the Python explorers.
#include "oracle.hpp"
#include <cstring>

extern "C" int hj_ref(const char *op, int order, int n, const double *args, double s, double *val, double *tol)
{
  int id = -1;
  for (int i = 0; i < ops::NOPS; i++) if (!strcmp(ops::NAME[i], op)) id = i;
  if (id < 0) return -1;
  ops::Call c;
  c.op = id;
  c.s = s;
  const int len = orc::packed_len(order, n), k = ops::arity(id);
  std::vector<ops::Data> regs(k);
  for (int i = 0; i < k; i++) { c.a[i] = i; regs[i].assign(args + i * len, args + (i + 1) * len); }
  const auto r = orc::apply<long double>(order, n, c, regs);
  if (!r.ok) return 0;
  for (int i = 0; i < len; i++) { val[i] = (double)r.v[i]; tol[i] = (double)(512 * 2.220446049250313e-16L * r.s[i] + 1e-280L); }
  return 1;
}
extern "C" int hj_arity(const char *op)
{
  for (int i = 0; i < ops::NOPS; i++) if (!strcmp(ops::NAME[i], op)) return ops::arity(i);
  return -1;
}
