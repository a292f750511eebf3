// The typed entry points (int, float, double) and the by-key deletion behave
// as the same history on a map, and the typed walks visit what is stored.
#include "sym.h"
#include "sikMatrix.hh"
#include <cstring>
#ifndef OPS
#define OPS 3
#endif
#ifndef TYPE
#define TYPE 0 // 0 int, 1 float, 2 double, 3 pointer overloads of sikMatrix<short,int>
#endif
#define NK 5
static const int KEYS[NK][2] = {{0, 1}, {1, 0}, {256, 2}, {-1, 3}, {0, 6}};
#if TYPE == 1
typedef float V;
#elif TYPE == 2
typedef double V;
#else
typedef int V;
#endif
static V DEFV = (V)1.5, model[NK];
static bool stored[NK];
static int seen[NK];
#if TYPE == 3
typedef short KK;
#else
typedef int KK;
#endif
static KK keys[NK][2];
static int keyno(const KK *k) {
  for (int i = 0; i < NK; i++)
    if (keys[i][0] == k[0] && keys[i][1] == k[1]) return i;
  return -1;
}
#if TYPE == 3
static sikMatrix<short, int> *m;
#define MM (m->m)
static void make() { m = new sikMatrix<short, int>(2, 2, DEFV); }
static void set(int k, V v) { m->setvalue(keys[k], &v); }
static V get(int k) { V v = -77; m->getvalue(keys[k], &v); return v; }
static V inc(int k, V v) { return m->increment(keys[k], &v); }
static void *walk(bool ord, bool init, KK *k, V *v) { m->stept_sortsearch = ord; return m->stept(init, k, v); }
static void done() { delete m; }
#else
static struct matrix *m;
#define MM m
#if TYPE == 0
static void make() { m = CreateMatrixI(2, 2, DEFV); }
static void set(int k, V v) { SetValueI(m, keys[k], v); }
static V get(int k) { return GetValueI(m, keys[k]); }
static V inc(int k, V v) { return IncrementI(m, keys[k], v); }
static void *walk(bool ord, bool init, KK *k, V *v) {
  return ord ? OrderedStepThroughI(init ? m : NULL, k, v) : StepThroughI(init ? m : NULL, k, v);
}
#elif TYPE == 1
static void make() { m = CreateMatrixF(2, 2, DEFV); }
static void set(int k, V v) { SetValueF(m, keys[k], v); }
static V get(int k) { return GetValueF(m, keys[k]); }
static V inc(int k, V v) { return IncrementF(m, keys[k], v); }
static void *walk(bool ord, bool init, KK *k, V *v) {
  return ord ? OrderedStepThroughF(init ? m : NULL, k, v) : StepThroughF(init ? m : NULL, k, v);
}
#else
static void make() { m = CreateMatrixD(2, 2, DEFV); }
static void set(int k, V v) { SetValueD(m, keys[k], v); }
static V get(int k) { return GetValueD(m, keys[k]); }
static V inc(int k, V v) { V n = GetValueD(m, keys[k]) + v; SetValueD(m, keys[k], n); return n; }
static void *walk(bool ord, bool init, KK *k, V *v) {
  return ord ? OrderedStepThroughD(init ? m : NULL, k, v) : StepThroughD(init ? m : NULL, k, v);
}
#endif
static void done() { DeleteMatrix(m); DeleteMatrix(NULL); }
#endif
extern "C" void sx_main(void) {
  for (int i = 0; i < NK; i++) { keys[i][0] = KEYS[i][0]; keys[i][1] = KEYS[i][1]; model[i] = DEFV; }
  make();
  for (int o = 0; o < OPS; o++) {
    int op = sym_fix(sym_int("op", 0, 3));
    int k = sym_fix(sym_int("key", 0, NK - 1));
    int sv = sym_int("v", -1, 2);
#if TYPE == 0 || TYPE == 3
    V v = sv;
#else
    V v = sym_fix(sv) * (V)0.25;
#endif
    if (op == 0) { set(k, DEFV + v); model[k] = DEFV + v; }
    else if (op == 1) {
      V r = inc(k, v);
      model[k] += v;
      sym_assert(r == model[k], "the increment returns the new value");
    } else if (op == 2) {
      sym_assert(FindEntry(MM, (byte *)keys[k], -1) == -1, "deleting returns no entry");
      model[k] = DEFV;
    } else if (o == OPS - 1) {
      ClearMatrix(MM);
      for (int i = 0; i < NK; i++) model[i] = DEFV;
    }
  }
  int used = 0;
  for (int i = 0; i < NK; i++) {
    sym_assert(get(i) == model[i], "every key reads back its value");
    stored[i] = model[i] != DEFV;
    if (stored[i]) used++;
  }
  sym_assert(MM->num_entries == used, "as many entries as non-default keys");
  CheckConsistency(MM);
  for (int ord = 0; ord < 2; ord++) {
    KK kk[2], last[2];
    V v;
    int n = 0;
    for (int i = 0; i < NK; i++) seen[i] = 0;
    walk(ord, true, kk, &v);
    while (walk(ord, false, kk, &v)) {
      int k = keyno(kk);
      sym_assert(k >= 0 && stored[k] && !seen[k], "walk: a stored key, once");
      seen[k] = 1;
      sym_assert(v == model[k], "walk: its value");
      if (ord && n) sym_assert(memcmp(last, kk, sizeof last) < 0, "walk: in key order");
      memcpy(last, kk, sizeof last);
      if (++n > NK) break;
    }
    sym_assert(n == used, "walk: every entry");
  }
  sym_cover("typed history");
  if (used >= 2) sym_cover("two stored");
  done();
}
