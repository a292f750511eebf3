// Growing and shrinking the storage keeps every entry.
#include "sym.h"
#include "sikMatrix.hh"
extern "C" void sx_main(void) {
  int hs = 1 + sym_fix(sym_int("hashsize", 0, 1));
  int n = sym_fix(sym_int("n", 1, 26));
  int keep = sym_fix(sym_int("keep", 0, 4)) * 2, add = sym_fix(sym_int("add", 0, 3));
  int a = sym_int("value", 1, 1000);
  sikMatrix<int, int> *m = new sikMatrix<int, int>(1, hs, 0);
  for (int i = 0; i < n; i++) m->setvalue(&i, a + i);
  sym_assert(m->num_entries() == n, "all inserted");
  for (int i = 0; i < n + 2; i++) sym_assert(m->getvalue(&i) == (i < n ? a + i : 0), "values after growing");
  for (int i = keep; i < n; i++) m->increment(&i, -(a + i));
  int left = keep < n ? keep : n;
  sym_assert(m->num_entries() == left, "removed");
  for (int i = 0; i < add; i++) { int k = 100 + i; m->setvalue(&k, a + i); }
  sym_assert(m->num_entries() == left + add, "added after removal");
  for (int i = 0; i < n; i++) sym_assert(m->getvalue(&i) == (i < left ? a + i : 0), "values after shrinking");
  int k0 = 0;
  for (int i = 0; i < add; i++) { int k = 100 + i; sym_assert(m->getvalue(&k) == a + i, "new values after shrinking"); }
  CheckConsistency(m->m);
  m->clear();
  sym_assert(m->num_entries() == 0 && m->getvalue(&k0) == 0, "cleared");
  m->setvalue(&k0, a);
  sym_assert(m->num_entries() == 1 && m->getvalue(&k0) == a, "usable after clearing");
  sym_cover("grown");
  delete m;
}
