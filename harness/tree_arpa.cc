// ARPA files: the model read is the model written.
#include "lm.h"
#ifndef ORDER
#define ORDER 3
#endif
extern "C" void sx_main(void) {
  LM m(ORDER);
#ifdef INTERP
  lm_any(m, 1);
#else
  lm_any(m, 0);
#endif
  lm_leaves(m);
  TreeGram *t = new TreeGram;
  lm_fill(t, m);
#ifdef INTERP
  t->set_type(TreeGram::INTERPOLATED);
#endif
  const char *sep = sym_fix(sym_int("separator", 0, 1)) ? "\t" : " ";
  FILE *f = tmpfile();
  t->write(f, false, sep);
  rewind(f);
  TreeGram *r = new TreeGram;
  r->read(f, false);
  fclose(f);
  A(r->get_type() == TreeGram::BACKOFF, "an ARPA file holds a back-off model");
  A(r->order() == t->order(), "the order");
  A(r->num_words() == NV, "the number of words");
  for (int w = 0; w < NV; w++) A(r->word(w) == WORDS[w] && r->word_index(WORDS[w]) == w, "the vocabulary");
  for (int n = 1; n <= t->order(); n++) A(r->gram_count(n) == t->gram_count(n), "gram counts");
  TreeGram::Iterator a(t), b(r);
  while (a.next()) {
    A(b.next(), "every gram is read");
    A(a.order() == b.order() && a.node().word == b.node().word, "the same grams");
    A(near_(a.node().back_off, b.node().back_off, 1e-4), "the same back-off weights");
  }
  A(!b.next(), "no other grams");
  m.order = lm_order(m);
  for (int n = 1; n <= ORDER; n++) {
    Gr g(n, 0);
    do {
#ifdef INTERP
      A(same_p(pow(10, r->log_prob(g)), m.i_p(g), 1e-3), "the same probabilities");
#else
      A(near_(r->log_prob(g), m.bo_lp(g), 1e-3), "the same probabilities");
#endif
    } while (nextgram(g));
  }
  if (m.order == ORDER) sym_cover("full order");
  sym_cover("read back");
}
