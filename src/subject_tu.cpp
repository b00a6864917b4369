// One translation unit per group of instantiations: -DORDER= -DSIZES=a,b,c [-DSCALAR=float -DSC='f']
#include "subject_impl.hpp"
#ifndef SCALAR
#define SCALAR double
#define SC 'd'
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
static std::string nm(int order, long n)
{
  std::string sc = SC == 'x' ? "double, no exceptions" : SC == 'd' ? "double" : SC == 'f' ? "float" : "long double";
  return "DDScalar<" + std::to_string(order) + "," + sc + "," + (n < 0 ? std::string("Dynamic") : std::to_string(n)) + ">";
}
template <long N> static Machine *mk() { return new MachineT<hj::DDScalar<ORDER, SCALAR, N>>(nm(ORDER, N)); }
template <long... N> static Machine *find(long n)
{
  Machine *m = nullptr;
  ((n == N ? (void)(m = mk<N>()) : void()), ...);
  return m;
}
Machine *CAT(factory_, TUID)(int order, long size, char sc)
{
  if (order != ORDER || sc != SC) return nullptr;
  return find<SIZES>(size);
}
