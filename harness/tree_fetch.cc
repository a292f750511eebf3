// Look-ahead lists: the probabilities of a list of next words are the model's.
#define LPLO -99
#include "lm.h"
#ifndef ORDER
#define ORDER 3
#endif
extern "C" void sx_main(void) {
  LM m(ORDER);
  lm_any(m, 0);
  TreeGram *t = new TreeGram;
  lm_fill(t, m);
  // any list of words, with repetitions, in any order
  int k = sym_fix(sym_int("list", 0, 2));
  std::vector<int> next;
  if (k == 0) for (int w = 0; w < NV; w++) next.push_back(w);
  if (k == 1) for (int w = NV - 1; w >= 0; w--) next.push_back(w);
  if (k == 2) { next.push_back(NV - 1); next.push_back(1); next.push_back(1); }
  std::vector<float> buf(next.size());
  for (int w1 = 0; w1 < NV; w1++) {
    t->fetch_bigram_list(w1, next, buf);
    for (size_t i = 0; i < next.size(); i++) {
      Gr g(2); g[0] = w1; g[1] = next[i];
      A(near_(buf[i], m.bo_lp(g), 1e-4), "bigram list");
    }
    if (m.order < 3 || lm_order(m) < 2) continue;
    for (int w2 = 0; w2 < NV; w2++) {
      t->fetch_trigram_list(w1, w2, next, buf);
      for (size_t i = 0; i < next.size(); i++) {
        Gr g(3); g[0] = w1; g[1] = w2; g[2] = next[i];
        A(near_(buf[i], m.bo_lp(g), 1e-4), "trigram list");
      }
    }
  }
  sym_cover("lists");
  if (lm_order(m) == ORDER) sym_cover("full order");
}
