// Everything the two configurations are compared on, as one table of scenarios.
#pragma once
#include "ops.hpp"
#include <string>
#include <vector>

namespace api
{
// Arguments of a scenario: sizes, lengths and indices.
struct Args { long n = 0, m = 0, k = 0, i = 0, j = 0; };
struct Reply { bool done = false, threw = false; std::string what; ops::Data data; };
enum Scenario {
  DEFAULT, PLAIN, EMPTY_N, ZERO_N, ZERO, CONSTANT, CONSTANT_N, VARIABLE, VARIABLE_N, VARIABLES, CREATE, RAW, LENGTHS, RESIZE, PAD_LEFT, PAD_RIGHT,
  EVAL, SET_HM, HM, FROM, GRADIENT, HESSIAN, SET_ADATA, INIT_LIST, PAIR, TRIPLE, COMPARE, TEXT, NSCENARIOS
};
static const char *const SCENARIO[] = {"default", "plain value", "empty(n)", "zero(n)", "zero()", "constant(f)", "constant(f,n)", "variable(i,f)", "variable(i,f,n)",
  "variables(n values)", "create(n coefficients)", "raw(m coefficients,n)", "size_from_data_length(n)", "resize(n,m)", "pad_left(n,m)", "pad_right(n,m)", "eval(n, m offsets)", "set_hm(n, mxk)", "hm(n)",
  "from arrays(n, mxk)", "gradient(n)", "hessian(n)", "set_adata(n, m values)", "initializer list(n values)", "operation(n,m)", "operation(n,m,k)", "comparisons(n,m)", "text(n)"};
using Exec = Reply (*)(int scenario, const Args &a, int op);
struct Type { int order; long size; const char *scalar; Exec run; };
}
