#pragma once
// generated list of subject translation units is passed as -DTUS="F(0) F(1) ..."
#include "subject.hpp"
#define F(i) Machine *factory_##i(int, long, char);
TUS
#undef F
std::unique_ptr<Machine> make_machine(int order, int size, char sc)
{
  Machine *m = nullptr;
#define F(i) if (!m) m = factory_##i(order, size, sc);
  TUS
#undef F
  return std::unique_ptr<Machine>(m);
}
