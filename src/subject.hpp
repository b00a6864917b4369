// Uniform driver over the instantiations of the real code. Only the public interface of the library is used.
#pragma once
#include "ops.hpp"
#include <memory>
#include <string>
#include <vector>

struct Outcome {
  bool threw = false;
  std::string what;
  bool in_place = false;
  bool ref_ok = true; // a compound assignment returned its target
  ops::Data data; // result (out of place) or new content of the target (in place)
  long size = 0;  // number of variables of the result
};

// A machine holds registers that are real objects of one type.
struct Machine {
  virtual ~Machine() {}
  virtual int order() const = 0;
  virtual int size() const = 0;       // fixed number of variables, or -1
  virtual std::string name() const = 0;
  virtual long double eps() const = 0;
  virtual void regs(int k) = 0;                     // number of registers
  virtual void load(int r, const ops::Data &d) = 0; // raw coefficients -> register
  virtual ops::Data read(int r) = 0;
  virtual long reg_size(int r) = 0;
  virtual Outcome exec(const ops::Call &c) = 0;      // result is not stored
  virtual void store(int r) = 0;                     // store the result of the last out-of-place exec
  virtual int compare(int op6, int ra, int rb) = 0;  // 0..5: == != < > <= >=, returns 0/1
  virtual int compare_num(int op6, int ra, long double s, bool num_left) = 0;
  virtual long double eval(int r, const ops::Data &d) = 0;
};

// order 1 or 2; size fixed (0..) or -1; scalar: 'd','f','l'
std::unique_ptr<Machine> make_machine(int order, int size, char scalar = 'd');
// sizes of fixed-size machines that were compiled in
const std::vector<int> &fixed_sizes();
