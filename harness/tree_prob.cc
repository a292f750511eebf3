// Probabilities of a tree model: back-off recursion, interpolation, and the
// conversion from one to the other.
#define PLO 9.094947017729282e-13 // 2^-40
#define LPLO -99
#include "lm.h"
#ifndef ORDER
#define ORDER 3
#endif
#define TOL 1e-4
extern "C" void sx_main(void) {
#ifdef INTERP
  LM m(ORDER);
  lm_any(m, 1);
  m.order = lm_order(m); // weights of the highest order have no meaning
  for (size_t i = 0; i < m.b[m.order].size(); i++) { m.b[m.order][i] = 1; m.bo[m.order][i] = 0; }
  TreeGram *t = new TreeGram;
  lm_fill(t, m);
  t->set_type(TreeGram::INTERPOLATED);
#ifdef CONVERT
  t->convert_to_backoff();
  A(t->get_type() == TreeGram::BACKOFF, "converted");
#endif
  for (int n = 1; n <= ORDER + 1; n++) {
    Gr g(n, 0);
    do {
      double want = m.i_p(g);
#ifdef CONVERT
      if (n > ORDER) continue;
#endif
      double got = pow(10, t->log_prob(g));
      A(same_p(got, want, 1e-3), "interpolated probability");
#ifndef CONVERT
      int hit = -1;
      m.bo_lp(g, &hit);
      A(t->last_order() == hit, "the order of the longest gram used");
#endif
      std::vector<int> v(g.begin(), g.end());
      A(same_p(pow(10, t->log_prob(v)), want, 1e-3), "the same from a vector");
    } while (nextgram(g));
  }
  sym_cover("interpolated");
  if (lm_order(m) == ORDER) sym_cover("full order");
#else
  LM m(ORDER);
  lm_any(m, 0);
  TreeGram *t = new TreeGram;
  lm_fill(t, m);
  A(t->order() == lm_order(m), "the order of the model");
  for (int n = 1; n <= ORDER + 1; n++) {
    Gr g(n, 0);
    int cnt = 0;
    do {
      if (n <= ORDER && m.in(g)) cnt++;
      int hit = -1;
      float want = m.bo_lp(g, &hit);
      A(near_(t->log_prob(g), want, TOL), "back-off probability");
      A(t->last_order() == hit, "the order of the gram used");
      std::vector<int> v(g.begin(), g.end());
      std::vector<unsigned short> u(g.begin(), g.end());
      A(near_(t->log_prob(v), want, TOL) && near_(t->log_prob(u), want, TOL), "the same from a vector");
    } while (nextgram(g));
    if (n <= t->order()) A(t->gram_count(n) == cnt, "the number of grams of an order");
  }
  sym_cover("backoff");
  if (lm_order(m) == ORDER) sym_cover("full order");
#endif
}
