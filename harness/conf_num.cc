// Numeric option values: the number, or the program ends.
#include "hx.h"
#include "conf.hh"
extern "C" void sx_main(void) {
  std::string s = hx_str("len", 0, 4, "019-y");
  conf::Option o;
  o.name = "-o";
  o.value = s;
  size_t i = 0;
  bool neg = false;
  if (i < s.size() && s[i] == '-') { neg = true; i++; }
  int r = 0;
  size_t d0 = i;
  while (i < s.size() && s[i] >= '0' && s[i] <= '9') r = r * 10 + s[i++] - '0';
  bool good = i > d0 && i == s.size();
  if (!good) { sym_exit_ok(1); sym_cover("rejected"); }
  if (sym_fix(sym_int("double", 0, 1))) {
    double v = o.get_double();
    A(good, "a value that is not a number ends the program");
    A(v == (neg ? -r : r), "the value of a number");
  } else {
    int v = o.get_int();
    A(good, "a value that is not a number ends the program");
    A(v == (neg ? -r : r), "the value of a number");
  }
  sym_cover("number");
}
