#pragma once
#include "sym.h"
#include <algorithm>
#include <map>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <cmath>
#include <cstdlib>
#define A(c, m) sym_assert((c) ? 1 : 0, m)
typedef std::vector<std::string> SV;
// a character of the alphabet, left to the solver
static inline char hx_char(const char *name, const char *alphabet) {
  int n = (int)strlen(alphabet), k = sym_int(name, 0, n - 1);
  char c = alphabet[0];
  for (int i = 1; i < n; i++) c = k == i ? alphabet[i] : c;
  return c;
}
// one path per character
static inline char hx_charf(const char *name, const char *alphabet) {
  return alphabet[sym_fix(sym_int(name, 0, (int)strlen(alphabet) - 1))];
}
static inline std::string hx_str(const char *name, int minlen, int maxlen, const char *alphabet, bool fork = false) {
  int n = sym_fix(sym_int(name, minlen, maxlen));
  std::string s;
  for (int i = 0; i < n; i++) s += fork ? hx_charf("char", alphabet) : hx_char("char", alphabet);
  return s;
}
static inline FILE *hx_file(const std::string &s) {
  FILE *f = tmpfile();
  if (!s.empty()) fwrite(s.data(), 1, s.size(), f);
  rewind(f);
  return f;
}
static inline std::string hx_slurp(FILE *f) {
  std::string s;
  int c;
  rewind(f);
  while ((c = fgetc(f)) != EOF) s += (char)c;
  return s;
}
static inline bool near_(double a, double b, double tol) { double d = a - b; return d <= tol && -d <= tol; }
// probabilities: equal up to a fraction of their size
static inline bool same_p(double a, double b, double rel) { double d = a - b, t = rel * b + 1e-12; return d <= t && -d <= t; }
