// Any history of sparse-matrix operations behaves as the same history on a map.
#include "sym.h"
#include "sikMatrix.hh"
#ifndef OPS
#define OPS 4
#endif
#ifndef HS
#define HS 2
#endif
#ifndef PRE
#define PRE 0
#endif
#ifndef DEF
#define DEF 0
#endif
#ifndef NK
#define NK 6
#endif
// colliding and non-colliding keys; memcmp order differs from numeric order
static const int KEYS[8][2] = {{0, 1}, {1, 0}, {256, 2}, {-1, 3}, {0, 6}, {5, 5}, {65536, 1}, {0, 256}};
static int model[NK];
static int pick(const char *n) { return sym_int(n, 0, NK - 1); }
static void key(int k, int *out) { out[0] = KEYS[k][0]; out[1] = KEYS[k][1]; }
extern "C" void sx_main(void) {
  sikMatrix<int, int> *m = new sikMatrix<int, int>(2, HS, DEF);
  for (int i = 0; i < NK; i++) model[i] = DEF;
  for (int i = 0; i < PRE; i++) {
    int kk[2]; key(i, kk);
    m->setvalue(kk, 10 + i); model[i] = 10 + i;
  }
  for (int o = 0; o < OPS; o++) {
    int op = sym_fix(sym_int("op", 0, 1));
    int k = sym_fix(pick("key")), kk[2];
    key(k, kk);
    int v = sym_int("v", -2, 2) + DEF;
    if (op == 0) { m->setvalue(kk, v); model[k] = v; }
    else {
      int r = m->increment(kk, v - DEF);
      model[k] += v - DEF;
      sym_assert(r == model[k], "increment returns the new value");
    }
  }
  int used = 0;
  for (int i = 0; i < NK; i++) {
    int kk[2]; key(i, kk);
    sym_assert(m->getvalue(kk) == model[i], "every key reads back its value after the history");
    if (model[i] != DEF) used++;
  }
  sym_assert(m->num_entries() == used, "the number of stored entries is the number of non-default keys");
  CheckConsistency(m->m);
  sym_cover("history done");
  if (used >= 4) sym_cover("four or more keys stored");
  delete m;
}
