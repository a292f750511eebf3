// Native side of a harness: replays one assignment of the symbolic inputs.
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <exception>
#include <unistd.h>
#include <fcntl.h>
static std::map<std::string, std::string> vals;
static std::map<std::string, int> cnt;
static int exit_ok, finished;
static int report_fd = 2;
static void say(const char *k, const char *m) {
  std::string s = std::string(k) + " " + m + "\n";
  if (write(report_fd, s.data(), s.size())) {}
}
static std::string get(const char *n, bool *have) {
  std::string k(n);
  for (char &c : k) if (c == ' ') c = '_'; // as in the file of inputs
  int c = cnt[k]++;
  if (c) k += "#" + std::to_string(c);
  auto it = vals.find(k);
  *have = it != vals.end();
  return *have ? it->second : "";
}
extern "C" {
long sym_long(const char *n, long lo, long hi) {
  bool h;
  std::string v = get(n, &h);
  long x = h ? strtol(v.c_str(), 0, 10) : lo;
  if (x < lo) x = lo;
  if (x > hi) x = hi;
  return x;
}
int sym_int(const char *n, int lo, int hi) { return (int)sym_long(n, lo, hi); }
double sym_real(const char *n, double lo, double hi) {
  bool h;
  std::string v = get(n, &h);
  double x = h ? strtod(v.c_str(), 0) : lo;
  if (x < lo) x = lo;
  if (x > hi) x = hi;
  return x;
}
float sym_float(const char *n, double lo, double hi) { return (float)sym_real(n, lo, hi); }
static void quit(int c) { finished = 1; fflush(stdout); _exit(c); }
void sym_assume(int c) { if (!c) { say("SX-ASSUME", "assumption not met"); quit(0); } }
void sym_assert(int c, const char *m) { if (!c) { say("SX-FAIL", m); quit(77); } }
void sym_fail(const char *m) { say("SX-FAIL", m); quit(77); }
void sym_cover(const char *m) { say("SX-COVER", m); }
int sym_fix(int v) { return v; }
int sym_engine(void) { return 0; }
void sym_exit_ok(int on) { exit_ok = on; }
void sym_stop(void) { quit(0); }
void sym_trace(const char *, long) {}
int sx_open_files(void) {
  int n = 0;
  for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) != -1;
  return n;
}
}
static void atend() {
  if (!finished && !exit_ok) { say("SX-FAIL", "the program called exit()"); _exit(77); }
  if (!finished) _exit(0);
}
int main(int argc, char **argv) {
  report_fd = dup(2);
  if (argc > 1) {
    FILE *f = fopen(argv[1], "r");
    char n[256], v[256];
    while (f && fscanf(f, "%255s %255s", n, v) == 2) vals[n] = v;
    if (f) fclose(f);
  }
  atexit(atend);
  try {
    sx_main();
  } catch (std::exception &e) {
    say("SX-FAIL uncaught exception", e.what());
    quit(77);
  } catch (...) {
    say("SX-FAIL", "uncaught exception");
    quit(77);
  }
  finished = 1;
  fflush(stdout);
  say("SX-DONE", "");
  return 0;
}
