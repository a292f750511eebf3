// From raw counts to the model's statistics.
#include "kn.h"
// which grams may occur (any counts): candidates of the top order
#ifndef CAND
#define CAND {1, 2, 1}, {2, 2, 1}, {0, 2, 1}, {1, 2, 2}, {2, 1, 0}
#endif
#ifdef NORM // the counts enumerated, the discounts left to the solver
#define CFIX sym_fix
#else
#define CFIX
#endif
static const int C[][N > 3 ? N : 3] = {CAND};
#ifndef STARTS // texts, and sentences with SENT
#define STARTS 2
#endif
extern "C" void sx_main(void) {
  Tab t;
  for (size_t i = 0; i < sizeof(C) / sizeof(C[0]); i++) {
    Kv g(C[i], C[i] + N);
    t.at(g) = CFIX(sym_int("count", 0, MAXC));
  }
  // text and history starts
  Kv s1(1, 1), s2(2, 2);
  s2[0] = 1;
  t.at(s1) = CFIX(sym_int("start1", 1, STARTS));
  if (N > 2) t.at(s2) = CFIX(sym_int("start2", 0, 1));
  Kn *k = kn_new();
  A(k->order() == N, "the order");
  A(k->vocab.num_words() == NW, "the vocabulary");
  kn_load(k, t);
  kn_lower(t);
  for (int o = 1; o <= N; o++) {
    Kv g(o, 0);
    do A(k->moc->GetCount(g) == t.at(g), ABSD ? "counts of occurrences" : "counts of different left neighbours"); while (knext(g));
  }
  kn_consistent(k, "the total of a context is the sum of its counts", false);
  sym_cover("statistics");
#ifdef SENT
  int other = 0; // (a text of sentence starts only has no model without them)
  for (int w = 0; w < NW; w++) other += w != 1 ? t.c[1][w] : 0;
  sym_assume(other > 0);
  // word 1 only starts sentences; it loses its own probability
  k->set_sentence_boundary_symbol(KW[1]);
  k->remove_sent_start_prob();
  t.at(s1) = 0;
  for (int o = 1; o <= N; o++) {
    Kv g(o, 0);
    do A(k->moc->GetCount(g) == t.at(g), "only the sentence start loses its count"); while (knext(g));
  }
  kn_consistent(k, "the total of a context is the sum of its counts, sentence starts removed", false);
#endif
#ifdef NORM
  kn_disc(k, true);
  kn_normal(k);
  sym_cover("normalised");
#endif
}
