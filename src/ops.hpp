// Operation alphabet shared by the driver of the real code and by the reference model.
#pragma once
#include <string>
#include <vector>

namespace ops
{
enum Kind { UN, UNS, BIN, TER, INP, INPS }; // arity classes; S = takes a plain number
// name, kind, is free-function form of another op
#define HJ_OPS(X) \
  X(ADD, BIN) X(SUB, BIN) X(MUL, BIN) X(DIV, BIN) \
  X(ADDS, UNS) X(SADD, UNS) X(SUBS, UNS) X(SSUB, UNS) X(MULS, UNS) X(SMUL, UNS) X(DIVS, UNS) X(SDIV, UNS) \
  X(NEG, UN) X(RECIP, UN) \
  X(IADD, INP) X(ISUB, INP) X(IMUL, INP) X(IDIV, INP) \
  X(IADDS, INPS) X(ISUBS, INPS) X(IMULS, INPS) X(IDIVS, INPS) \
  X(POW, UNS) X(POW_F, UNS) X(POWI_F, UNS) X(LOGB, UNS) \
  X(SQRT, UN) X(CBRT, UN) X(COS, UN) X(SIN, UN) X(TAN, UN) X(ACOS, UN) X(ASIN, UN) X(ATAN, UN) \
  X(COSH, UN) X(SINH, UN) X(TANH, UN) X(ACOSH, UN) X(ASINH, UN) X(ATANH, UN) \
  X(EXP, UN) X(LOG, UN) X(LOG2, UN) X(LOG10, UN) X(ABS, UN) \
  X(SQRT_F, UN) X(CBRT_F, UN) X(COS_F, UN) X(SIN_F, UN) X(TAN_F, UN) X(ACOS_F, UN) X(ASIN_F, UN) X(ATAN_F, UN) \
  X(COSH_F, UN) X(SINH_F, UN) X(TANH_F, UN) X(ACOSH_F, UN) X(ASINH_F, UN) X(ATANH_F, UN) \
  X(EXP_F, UN) X(LOG_F, UN) X(LOG2_F, UN) X(LOG10_F, UN) X(ABS_F, UN) \
  X(ATAN2, BIN) X(ATAN2_F, BIN) X(HYPOT2, BIN) X(HYPOT2_F, BIN) X(HYPOT3, TER) X(HYPOT3_F, TER)

enum Op {
#define X(n, k) n,
  HJ_OPS(X)
#undef X
  NOPS
};
static const char *const NAME[] = {
#define X(n, k) #n,
  HJ_OPS(X)
#undef X
};
static const Kind KIND[] = {
#define X(n, k) k,
  HJ_OPS(X)
#undef X
};
inline bool inplace(int o) { return KIND[o] == INP || KIND[o] == INPS; }
inline int arity(int o) { return KIND[o] == TER ? 3 : (KIND[o] == BIN || KIND[o] == INP) ? 2 : 1; }
inline bool takes_number(int o) { return KIND[o] == UNS || KIND[o] == INPS; }

// One call: op on registers a[0..], optional plain number s; the plain number may instead be
// a reference to coefficient `own` of the target (own >= 0).
struct Call {
  int op = 0;
  int a[3] = {0, 0, 0};
  long double s = 0;
  int own = -1;
  std::string str() const
  {
    std::string r = NAME[op];
    r += "(";
    for (int i = 0; i < arity(op); i++) r += (i ? ",r" : "r") + std::to_string(a[i]);
    if (takes_number(op)) {
      char b[64];
      if (own >= 0) snprintf(b, sizeof b, ",coef[%d] of itself", own);
      else snprintf(b, sizeof b, ",%.17Lg", s);
      r += b;
    }
    return r + ")";
  }
};
using Data = std::vector<long double>; // carrier for coefficients: holds float, double and long double exactly
}
