// Walking a sparse matrix visits every stored entry exactly once, the ordered
// walk in the byte order of the keys; deleting the current entry while
// stepping loses nothing else; dropping default values leaves none.
#include "sym.h"
#include "sikMatrix.hh"
#include <cstring>
#ifndef N
#define N 4
#endif
#ifndef NK
#define NK 6
#endif
static const int KEYS[8][2] = {{0, 1}, {1, 0}, {256, 2}, {-1, 3}, {0, 6}, {5, 5}, {65536, 1}, {0, 256}};
static int model[8], seen[8];
static int keyno(const int *k) {
  for (int i = 0; i < NK; i++)
    if (KEYS[i][0] == k[0] && KEYS[i][1] == k[1]) return i;
  return -1;
}
extern "C" void sx_main(void) {
  sikMatrix<int, int> *m = new sikMatrix<int, int>(2, 2, 0);
  int order[N], used = 0;
  // a subset of the keys in any insertion order
  for (int i = 0; i < N; i++) {
    int k = order[i] = sym_fix(sym_int("key", 0, NK - 1));
    // values may become the default without the entry being removed
    int v = sym_int("v", -1, 2);
    model[k] += v;
    m->increment_wo_del(KEYS[k], v);
    seen[k] = -1;
  }
  for (int i = 0; i < NK; i++) {
    if (seen[i]) used++;
    seen[i] = 0;
  }
  sym_assert(m->num_entries() == used, "one entry per distinct key");
  int what = sym_fix(sym_int("what", 0, 3)), kk[2], v, n = 0;
  if (what == 0) {
    m->stepthrough(true, kk, &v);
    while (m->stepthrough(false, kk, &v)) {
      int k = keyno(kk);
      sym_assert(k >= 0, "step: a stored key");
      sym_assert(!seen[k], "step: no entry twice");
      seen[k] = 1;
      sym_assert(v == model[k], "step: the value of the entry");
      if (++n > N) break;
    }
    sym_assert(n == used, "step: every entry");
    sym_cover("step");
  } else if (what == 1) {
    int last[2];
    m->ordered_stepthrough(true, kk, &v);
    while (int *p = (int *)m->ordered_stepthrough(false, kk, &v)) {
      int k = keyno(kk);
      sym_assert(k >= 0, "ordered: a stored key");
      sym_assert(v == model[k] && *p == v, "ordered: the value of the entry");
      if (n) sym_assert(memcmp(last, kk, sizeof last) < 0, "ordered: keys strictly increasing in byte order");
      memcpy(last, kk, sizeof last);
      if (++n > N) break;
    }
    sym_assert(n == used, "ordered: every entry");
    sym_cover("ordered");
  } else if (what == 2) {
    // delete any subset while stepping
    int del = sym_int("del", 0, (1 << N) - 1), kept = 0;
    m->stepthrough(true, kk, &v);
    while (m->stepthrough(false, kk, &v)) {
      int k = keyno(kk);
      sym_assert(k >= 0 && !seen[k], "delete: a stored key, once");
      seen[k] = 1;
      sym_assert(v == model[k], "delete: the value of the entry");
      if ((del >> n) & 1) { m->delete_current_st(); model[k] = 0; seen[k] = 2; }
      else kept++;
      if (++n > N) break;
    }
    sym_assert(n == used, "delete: every entry visited");
    sym_assert(m->num_entries() == kept, "delete: exactly the deleted ones are gone");
    for (int i = 0; i < NK; i++) sym_assert(m->getvalue(KEYS[i]) == model[i], "delete: values of the remaining entries");
    CheckConsistency(m->m);
    sym_cover("delete");
  } else {
    RemoveDefaultValues(m->m);
    int kept = 0;
    for (int i = 0; i < NK; i++) {
      sym_assert(m->getvalue(KEYS[i]) == model[i], "remove defaults: every key reads the same");
      if (model[i]) kept++;
    }
    sym_assert(m->num_entries() == kept, "remove defaults: no default-valued entry is left");
    CheckConsistency(m->m);
    sym_cover("remove defaults");
  }
  delete m;
}
