// Finding a gram among many siblings (linear and binary search), for any
// subset of the siblings.
#define NV 9
#include "lm.h"
extern "C" void sx_main(void) {
  LM m(2);
  Gr g(1);
  for (int w = 0; w < NV; w++) { g[0] = w; lm_val(m, g, 2, false); }
  g.resize(2);
  int other = sym_fix(sym_int("other", 0, 2));
  for (int w = 0; w < NV; w++) {
    g[0] = 3; g[1] = w;
    if (sym_fix(sym_int("has", 0, 1))) {
      lm_val(m, g, 2, true);
      m.lp[2][m.at(g)] = sym_float("lp", -5, -1);
    }
  }
  if (other) { g[0] = 4; g[1] = 5; lm_val(m, g, 2, true); g[0] = 2; g[1] = 8; if (other == 2) lm_val(m, g, 2, true); }
  TreeGram *t = new TreeGram;
  lm_fill(t, m);
  Gr h(2);
  // the word asked for is left to the solver
  h[0] = sym_int("context", 2, 4);
  h[1] = sym_int("word", 0, NV - 1);
  int c = sym_fix(h[0]), w = sym_fix(h[1]);
  Gr k(2);
  k[0] = c; k[1] = w;
  bool there = m.in(k);
  int node = t->find_child(h[1], h[0]);
  A((node >= 0) == there, "a child is found exactly when it was added");
  float want = there ? m.lp[2][m.at(k)] : m.bo[1][c] + m.lp[1][w];
  A(near_(t->log_prob(h), want, 1e-5), "its value");
  A(t->find_child(w, -1) == w, "a unigram is at its own index");
  sym_cover("searched");
}
