// Running the command-line tools of /repo/app inside a harness.
#pragma once
#include "hx.h"
#define TOOL(x) extern "C" int app_##x##_main(int, char **)
typedef int (*Tool)(int, char **);
static inline int tool(Tool f, const SV &args) {
  char **v = (char **)malloc((args.size() + 2) * sizeof(char *));
  v[0] = strdup("tool");
  for (size_t i = 0; i < args.size(); i++) v[i + 1] = strdup(args[i].c_str());
  v[args.size() + 1] = 0;
  return f((int)args.size() + 1, v);
}
static inline void put(const char *name, const std::string &s) {
  FILE *f = fopen(name, "w");
  if (!s.empty()) fwrite(s.data(), 1, s.size(), f);
  fclose(f);
}
static inline std::string get(const char *name) {
  FILE *f = fopen(name, "r");
  A(f != NULL, "the tool wrote its output");
  std::string s = hx_slurp(f);
  fclose(f);
  return s;
}
