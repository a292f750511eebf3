// Walking a tree model: every gram once, parents first, siblings in order;
// walks of one order; moving up, down and sideways.
#define NV 4
#include "lm.h"
#ifndef ORDER
#define ORDER 3
#endif
extern "C" void sx_main(void) {
  LM m(ORDER);
  lm_any(m, 2);
  int real = lm_order(m);
  TreeGram *t = new TreeGram;
  lm_fill(t, m);
  std::vector<Gr> all; // depth first, dictionary order
  for (int n = 1; n <= real; n++) {
    Gr g(n, 0);
    do if (m.in(g)) all.push_back(g); while (nextgram(g));
  }
  std::sort(all.begin(), all.end());
  TreeGram::Iterator it(t);
  size_t k = 0;
  while (it.next()) {
    A(k < all.size(), "no gram twice");
    Gr g;
    for (int o = 1; o <= it.order(); o++) g.push_back(it.node(o).word);
    A(g == all[k], "depth first, in dictionary order");
    int n = (int)g.size();
    A(it.node().log_prob == m.lp[n][m.at(g)] && it.node().back_off == m.bo[n][m.at(g)], "the values of the gram");
    A(it.node().word == g.back(), "the last node is the current one");
    bool kids = k + 1 < all.size() && all[k + 1].size() > g.size();
    A(it.has_children() == kids, "whether there are longer grams");
    k++;
  }
  A(k == all.size(), "every gram");
  int order = sym_fix(sym_int("order", 1, real));
  it.reset(t);
  k = 0;
  while (it.next_order(order)) {
    while (k < all.size() && (int)all[k].size() != order) k++;
    A(k < all.size(), "one order: no gram twice");
    Gr g;
    for (int o = 1; o <= it.order(); o++) g.push_back(it.node(o).word);
    A(g == all[k], "one order: dictionary order");
    k++;
  }
  while (k < all.size() && (int)all[k].size() != order) k++;
  A(k == all.size(), "one order: every gram");
  // moves from any gram
  int s = sym_fix(sym_int("start", 0, (int)all.size() - 1));
  Gr g = all[s];
  TreeGram::Iterator a = t->iterator(g);
  A(a.order() == (int)g.size() && a.node().word == g.back(), "an iterator at a gram");
  int delta = sym_fix(sym_int("delta", -2, 2)), pos = -1;
  std::vector<int> sib;
  for (size_t i = 0; i < all.size(); i++)
    if (all[i].size() == g.size() && std::equal(g.begin(), g.end() - 1, all[i].begin())) {
      if (all[i] == g) pos = (int)sib.size();
      sib.push_back(all[i].back());
    }
  bool can = pos + delta >= 0 && pos + delta < (int)sib.size();
  TreeGram::Iterator b = a;
  A(b.move_in_context(delta) == can, "moving among the siblings: possible or not");
  A(b.node().word == (can ? sib[pos + delta] : g.back()), "moving among the siblings: where");
  A(b.order() == (int)g.size(), "moving among the siblings keeps the order");
  b = a;
  bool up = b.up();
  A(up == (g.size() > 1), "moving up");
  A(b.order() == (int)g.size() - up, "moving up: the order");
  A(b.node().word == (up ? g[g.size() - 2] : g.back()), "moving up: where");
  b = a;
  bool kids = s + 1 < (int)all.size() && all[s + 1].size() > g.size();
  A(b.down() == kids, "moving down");
  A(b.order() == (int)g.size() + kids && b.node().word == (kids ? all[s + 1].back() : g.back()), "moving down: the first child");
  sym_cover("walked");
  if (real == ORDER) sym_cover("full order");
  if (kids) sym_cover("children");
}
