// Sorting grams keeps every gram with its values.
#include "hx.h"
#include "GramSorter.hh"
#ifndef N
#define N 5
#endif
extern "C" void sx_main(void) {
  int order = sym_fix(sym_int("order", 1, 2));
  GramSorter s(order, sym_fix(sym_int("reserved", 0, N)));
  for (int round = 0; round < 2; round++) {
    int n = round ? 2 : sym_fix(sym_int("grams", 0, N));
    std::vector<std::vector<int> > in(n);
    float lp[N];
    for (int i = 0; i < n; i++) {
      GramSorter::Gram g(order);
      for (int k = 0; k < order; k++) { g[k] = sym_int("word", 0, order == 1 ? 5 : 2); in[i].push_back(g[k]); }
      lp[i] = sym_float("lp", -5, 0);
      s.add_gram(g, lp[i], i);
    }
    s.sort();
    A(s.num_grams() == n, "the number of grams");
    std::vector<int> seen(n, 0);
    for (int i = 0; i < n; i++) {
      GramSorter::Gram g = s.gram(i);
      GramSorter::Data d = s.data(i);
      A((int)g.size() == order, "the order");
      int j = (int)d.back_off;
      A(j >= 0 && j < n && !seen[j], "every gram appears once");
      seen[j] = 1;
      A(d.log_prob == lp[j], "its values stay together");
      for (int k = 0; k < order; k++) A(g[k] == in[j][k], "its words stay with its values");
      if (i) {
        GramSorter::Gram h = s.gram(i - 1);
        int c = 0; // first difference decides
        for (int k = order - 1; k >= 0; k--) c = h[k] < g[k] ? -1 : h[k] > g[k] ? 1 : c;
        A(c <= 0, "ascending");
      }
    }
    sym_cover(round ? "reused" : "sorted");
    if (round == 0) { order = 3 - order; s.reset(order, 2); }
  }
}
