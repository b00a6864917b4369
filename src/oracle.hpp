// Reference model: truncated Taylor arithmetic in __float128 with a dense Hessian and one generic
// chain rule for every operation. Contains nothing from the repository under test.
#pragma once
#include "ops.hpp"
#include <cmath>
#include <cstdio>
#include <quadmath.h>

namespace orc
{
using Q = __float128;
using ops::Call;
using ops::Data;
inline Q qabs(Q x) { return x < 0 ? -x : x; }
inline bool qfin(Q x) { return finiteq(x); }

// value and partial derivatives of an operation with k operands; s* are error scales
struct Partials {
  int k = 1;
  Q f = 0, sf = 0;
  Q d[3] = {0, 0, 0}, sd[3] = {0, 0, 0};
  Q dd[3][3] = {{0}}, sdd[3][3] = {{0}};
  bool ok1 = true, ok2 = true; // once / twice differentiable here
};

inline void set1(Partials &p, Q x, Q f, Q d, Q dd, Q ddd, Q floor1 = 0, Q floor2 = 0)
{
  p.k = 1;
  p.f = f; p.d[0] = d; p.dd[0][0] = dd;
  // backward-stable allowance: a one-ulp change of the argument is tolerated
  const auto ulp = [x](Q t) { return x == 0 ? Q(0) : qabs(x * t); };
  p.sf = qabs(f) + ulp(d);
  p.sd[0] = qabs(d) + ulp(dd) + floor1;
  p.sdd[0][0] = qabs(dd) + ulp(ddd) + floor2;
  p.ok1 = qfin(f) && qfin(d);
  p.ok2 = p.ok1 && qfin(dd) && qfin(ddd);
}

inline Q ipow(Q x, Q b) // x^b with 0^0 = 1
{
  if (b == 0) return 1;
  return powq(x, b);
}

// base: strips the free-function suffix
inline int base_op(int op)
{
  using namespace ops;
  switch (op) {
  case SQRT_F: return SQRT; case CBRT_F: return CBRT; case COS_F: return COS; case SIN_F: return SIN; case TAN_F: return TAN;
  case ACOS_F: return ACOS; case ASIN_F: return ASIN; case ATAN_F: return ATAN; case COSH_F: return COSH; case SINH_F: return SINH;
  case TANH_F: return TANH; case ACOSH_F: return ACOSH; case ASINH_F: return ASINH; case ATANH_F: return ATANH; case EXP_F: return EXP;
  case LOG_F: return LOG; case LOG2_F: return LOG2; case LOG10_F: return LOG10; case ABS_F: return ABS;
  case ATAN2_F: return ATAN2; case HYPOT2_F: return HYPOT2; case HYPOT3_F: return HYPOT3; case POW_F: return POW; case POWI_F: return POW;
  case IADD: return ADD; case ISUB: return SUB; case IMUL: return MUL; case IDIV: return DIV;
  case IADDS: return ADDS; case ISUBS: return SUBS; case IMULS: return MULS; case IDIVS: return DIVS;
  default: return op;
  }
}

inline Partials partials(int op, const Q *v, Q s)
{
  using namespace ops;
  Partials p;
  const Q x = v[0];
  const Q nan = nanq("");
  switch (base_op(op)) {
  case ADD: p.k = 2; p.f = x + v[1]; p.sf = qabs(x) + qabs(v[1]); p.d[0] = p.d[1] = p.sd[0] = p.sd[1] = 1; break;
  case SUB: p.k = 2; p.f = x - v[1]; p.sf = qabs(x) + qabs(v[1]); p.d[0] = 1; p.d[1] = -1; p.sd[0] = p.sd[1] = 1; break;
  case MUL: p.k = 2; p.f = x * v[1]; p.sf = qabs(p.f); p.d[0] = v[1]; p.d[1] = x; p.sd[0] = qabs(v[1]); p.sd[1] = qabs(x);
    p.dd[0][1] = p.dd[1][0] = p.sdd[0][1] = p.sdd[1][0] = 1; break;
  case DIV: {
    const Q b = v[1];
    p.k = 2; p.f = x / b; p.d[0] = 1 / b; p.d[1] = -x / (b * b);
    p.dd[0][1] = p.dd[1][0] = -1 / (b * b); p.dd[1][1] = 2 * x / (b * b * b);
    p.ok1 = p.ok2 = b != 0;
    p.sf = qabs(p.f);
    for (int i = 0; i < 2; i++) { p.sd[i] = qabs(p.d[i]); for (int j = 0; j < 2; j++) p.sdd[i][j] = qabs(p.dd[i][j]); }
    break;
  }
  case ADDS: case SADD: set1(p, x, x + s, 1, 0, 0); p.sf = qabs(x) + qabs(s); break;
  case SUBS: set1(p, x, x - s, 1, 0, 0); p.sf = qabs(x) + qabs(s); break;
  case SSUB: set1(p, x, s - x, -1, 0, 0); p.sf = qabs(x) + qabs(s); break;
  case MULS: case SMUL: set1(p, x, x * s, s, 0, 0); break;
  case DIVS: set1(p, x, x / s, 1 / s, 0, 0); p.ok1 = p.ok2 = s != 0; break;
  case SDIV: set1(p, x, s / x, -s / (x * x), 2 * s / (x * x * x), -6 * s / (x * x * x * x)); p.ok1 = p.ok2 = x != 0; break;
  case NEG: set1(p, x, -x, -1, 0, 0); break;
  case RECIP: set1(p, x, 1 / x, -1 / (x * x), 2 / (x * x * x), -6 / (x * x * x * x)); p.ok1 = p.ok2 = x != 0; break;
  case POW: {
    const Q b = s;
    const Q c1 = b, c2 = b * (b - 1), c3 = b * (b - 1) * (b - 2);
    const Q f = ipow(x, b);
    const Q d = c1 == 0 ? 0 : c1 * ipow(x, b - 1), dd = c2 == 0 ? 0 : c2 * ipow(x, b - 2), ddd = c3 == 0 ? 0 : c3 * ipow(x, b - 3);
    set1(p, x, f, d, dd, x == 0 ? Q(0) : ddd);
    if (x == 0 && b < 0) p.ok1 = p.ok2 = false;
    break;
  }
  case SQRT: { const Q r = sqrtq(x); set1(p, x, r, 1 / (2 * r), -1 / (4 * r * x), 3 / (8 * r * x * x)); if (!(x > 0)) p.ok1 = p.ok2 = false; break; }
  case CBRT: { const Q r = cbrtq(x); set1(p, x, r, r / (3 * x), -2 * r / (9 * x * x), 10 * r / (27 * x * x * x)); if (x == 0) p.ok1 = p.ok2 = false; break; }
  case SIN: set1(p, x, sinq(x), cosq(x), -sinq(x), -cosq(x)); break;
  case COS: set1(p, x, cosq(x), -sinq(x), -cosq(x), sinq(x)); break;
  case TAN: { const Q c = cosq(x), t = sinq(x) / c, s2 = 1 / (c * c); set1(p, x, t, s2, 2 * t * s2, 2 * s2 * s2 + 4 * t * t * s2); break; }
  case ASIN: case ACOS: {
    const Q u = (1 - x) * (1 + x), r = sqrtq(u), sg = base_op(op) == ASIN ? 1 : -1;
    set1(p, x, base_op(op) == ASIN ? asinq(x) : acosq(x), sg / r, sg * x / (u * r), sg * (1 + 2 * x * x) / (u * u * r));
    if (!(u > 0)) p.ok1 = p.ok2 = false;
    break;
  }
  case ATAN: { const Q u = 1 + x * x; set1(p, x, atanq(x), 1 / u, -2 * x / (u * u), (6 * x * x - 2) / (u * u * u)); break; }
  case SINH: set1(p, x, sinhq(x), coshq(x), sinhq(x), coshq(x)); break;
  case COSH: set1(p, x, coshq(x), sinhq(x), coshq(x), sinhq(x)); break;
  case TANH: { const Q c = coshq(x), t = sinhq(x) / c, s2 = 1 / (c * c); set1(p, x, tanhq(x), s2, -2 * t * s2, -2 * s2 * s2 + 4 * t * t * s2, 1, 2); break; }
  case ASINH: { const Q u = 1 + x * x, r = sqrtq(u); set1(p, x, asinhq(x), 1 / r, -x / (u * r), (2 * x * x - 1) / (u * u * r)); break; }
  case ACOSH: { const Q u = (x - 1) * (x + 1), r = sqrtq(u); set1(p, x, acoshq(x), 1 / r, -x / (u * r), (2 * x * x + 1) / (u * u * r)); if (!(x > 1)) p.ok1 = p.ok2 = false; break; }
  case ATANH: { const Q u = (1 - x) * (1 + x); set1(p, x, atanhq(x), 1 / u, 2 * x / (u * u), (2 + 6 * x * x) / (u * u * u)); if (!(u > 0)) p.ok1 = p.ok2 = false; break; }
  case EXP: { const Q e = expq(x); set1(p, x, e, e, e, e); break; }
  case LOG: case LOG2: case LOG10: case LOGB: {
    const int o = base_op(op);
    const Q l = o == LOG ? Q(1) : o == LOG2 ? logq(2) : o == LOG10 ? logq(10) : logq(s);
    set1(p, x, logq(x) / l, 1 / (x * l), -1 / (x * x * l), 2 / (x * x * x * l));
    if (!(x > 0)) p.ok1 = p.ok2 = false;
    if (o == LOGB && (!(s > 0) || s == 1)) p.ok1 = p.ok2 = false;
    break;
  }
  case ABS: set1(p, x, x < 0 ? -x : x, x < 0 ? -1 : 1, 0, 0); if (x == 0) p.ok1 = p.ok2 = false; break;
  case ATAN2: {
    const Q b = v[1], r2 = x * x + b * b, r = sqrtq(r2);
    p.k = 2; p.f = atan2q(x, b); p.d[0] = b / r2; p.d[1] = -x / r2;
    p.dd[0][0] = -2 * x * b / (r2 * r2); p.dd[1][1] = 2 * x * b / (r2 * r2); p.dd[0][1] = p.dd[1][0] = (x - b) * (x + b) / (r2 * r2);
    p.sf = qabs(p.f) + qabs(x * b) / r2;
    p.sd[0] = p.sd[1] = 1 / r;
    p.sdd[0][0] = p.sdd[1][1] = p.sdd[0][1] = p.sdd[1][0] = 1 / r2;
    p.ok1 = p.ok2 = r2 != 0 && !(x == 0 && b <= 0); // not differentiable on the cut
    break;
  }
  case HYPOT2: case HYPOT3: {
    const int k = base_op(op) == HYPOT2 ? 2 : 3;
    Q r2 = 0;
    for (int i = 0; i < k; i++) r2 += v[i] * v[i];
    const Q r = sqrtq(r2);
    p.k = k; p.f = p.sf = r;
    for (int i = 0; i < k; i++) {
      p.d[i] = v[i] / r; p.sd[i] = qabs(p.d[i]);
      for (int j = 0; j < k; j++) {
        if (i == j) { p.dd[i][j] = 0; for (int l = 0; l < k; l++) if (l != i) p.dd[i][j] += v[l] * v[l]; p.dd[i][j] /= r2 * r; }
        else p.dd[i][j] = -v[i] * v[j] / (r2 * r);
        p.sdd[i][j] = qabs(p.dd[i][j]);
      }
    }
    p.ok1 = p.ok2 = r2 != 0;
    break;
  }
  default: p.f = nan; p.ok1 = p.ok2 = false;
  }
  return p;
}

inline int packed_len(int order, int n) { return order == 1 ? 1 + n : (n + 1) * (n + 2) / 2; }
inline int hidx(int n, int i, int j) // position of d2/didj in the packed row-wise upper triangle, by counting
{
  if (i > j) std::swap(i, j);
  int k = 1 + n;
  for (int r = 0; r < i; r++) k += n - r;
  return k + (j - i);
}

template <class A> struct RefT {
  std::vector<A> v, s; // packed coefficients and error scales
  bool ok = false;     // differentiable to the order asked for, all finite and within range
};
using Ref = RefT<long double>; // 64-bit mantissa: enough to judge double and float
using RefQ = RefT<Q>;          // to judge long double

inline long double absA(long double x) { return fabsl(x); }
inline Q absA(Q x) { return qabs(x); }

// generic chain rule
template <class A> inline RefT<A> chain(int order, int n, const Partials &p, const Data *const *u, A big = A(1e250))
{
  RefT<A> r;
  const int len = packed_len(order, n);
  r.v.assign(len, 0); r.s.assign(len, 0);
  r.ok = order == 1 ? p.ok1 : p.ok2;
  if (!r.ok) return r;
  A d[3], sd[3], dd[3][3], sdd[3][3];
  for (int k = 0; k < p.k; k++) {
    d[k] = A(p.d[k]); sd[k] = A(p.sd[k]);
    for (int l = 0; l < p.k; l++) { dd[k][l] = A(p.dd[k][l]); sdd[k][l] = A(p.sdd[k][l]); }
  }
  r.v[0] = A(p.f); r.s[0] = A(p.sf);
  for (int i = 0; i < n; i++)
    for (int k = 0; k < p.k; k++) {
      const A gk = (*u[k])[1 + i];
      r.v[1 + i] += d[k] * gk;
      r.s[1 + i] += sd[k] * absA(gk);
    }
  if (order == 2) {
    int t = 1 + n; // rows of the upper triangle, one after the other
    for (int i = 0; i < n; i++)
      for (int j = i; j < n; j++, t++) {
        A v = 0, s = 0;
        for (int k = 0; k < p.k; k++) {
          const A hk = (*u[k])[t];
          v += d[k] * hk;
          s += sd[k] * absA(hk);
          for (int l = 0; l < p.k; l++) {
            const A gg = A((*u[k])[1 + i]) * A((*u[l])[1 + j]);
            if (gg == 0) continue;
            v += dd[k][l] * gg;
            s += sdd[k][l] * absA(gg);
          }
        }
        r.v[t] = v; r.s[t] = s;
      }
  }
  for (int i = 0; i < len; i++)
    if (!(absA(r.v[i]) <= big) || !(r.s[i] <= big)) { r.ok = false; break; }
  return r;
}

// Values whose powers leave the range of the coefficient type are outside the claim.
inline bool in_range(long double x, long double lim)
{
  const long double a = fabsl(x);
  return a == 0 || (a >= 1 / lim && a <= lim);
}

// partial derivatives for a call on given register contents; ok1/ok2 false outside the domain
inline Partials call_partials(const Call &c, const std::vector<Data> &regs)
{
  Q v[3] = {0, 0, 0};
  for (int i = 0; i < ops::arity(c.op); i++) v[i] = regs[c.a[i]][0];
  Q s = c.s;
  if (c.own >= 0) s = regs[c.a[0]][c.own];
  return partials(c.op, v, s);
}
template <class A> inline RefT<A> apply(int order, int n, const Call &c, const std::vector<Data> &regs, const Partials &p, long double lim = 1e60L)
{
  const Data *u[3] = {nullptr, nullptr, nullptr};
  bool range = !ops::takes_number(c.op) || c.own >= 0 || in_range(c.s, lim);
  for (int i = 0; i < ops::arity(c.op); i++) {
    u[i] = &regs[c.a[i]];
    for (long double t : *u[i]) if (!in_range(t, lim)) range = false;
  }
  RefT<A> r = chain<A>(order, n, p, u, lim < 1e20L ? A(1e30) : A(1e250));
  r.ok = r.ok && range;
  return r;
}
template <class A = long double> inline RefT<A> apply(int order, int n, const Call &c, const std::vector<Data> &regs, long double lim = 1e60L)
{
  return apply<A>(order, n, c, regs, call_partials(c, regs), lim);
}

// index of the first coefficient that differs by more than the tolerance, or -1
template <class A> inline int differs(const RefT<A> &r, const Data &got, long double eps, long double K, long double floor)
{
  if (got.size() != r.v.size()) return (int)std::min(got.size(), r.v.size());
  for (size_t i = 0; i < got.size(); i++) {
    const A tol = A(K) * A(eps) * r.s[i] + A(floor);
    if (!(absA(A(got[i]) - r.v[i]) <= tol)) return (int)i;
  }
  return -1;
}

inline std::string show(const Data &d)
{
  std::string r = "[";
  char b[64];
  for (size_t i = 0; i < d.size() && i < 40; i++) { snprintf(b, sizeof b, "%s%.17Lg", i ? ", " : "", d[i]); r += b; }
  if (d.size() > 40) r += ", ...";
  return r + "]";
}
inline std::string show(const std::vector<Q> &d) { return show(Data(d.begin(), d.end())); }
}
