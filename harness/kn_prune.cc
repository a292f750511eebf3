// Pruning by count cutoffs, by unknown words, of everything, of nothing.
#include "kn.h"
#ifndef CAND
#define CAND {1, 2, 1}, {2, 2, 1}, {0, 2, 1}, {1, 2, 2}, {2, 1, 0}
#endif
#ifndef GROW
#define GROW 0
#endif
static const int C[][3] = {CAND};
extern "C" void sx_main(void) {
  Tab t;
  for (size_t i = 0; i < sizeof(C) / sizeof(C[0]); i++) {
    Kv g(C[i], C[i] + N);
    t.at(g) = sym_fix(sym_int("count", 0, MAXC));
  }
  Kv s1(1, 1);
  t.at(s1) = 1;
  Kn *k = kn_new();
  kn_load(k, t);
  kn_lower(t);
  kn_disc(k, false);
#if D3
  for (int o = 1; o <= N; o++)
    for (int j = 0; j < 3; j++) k->m_discount[o][j] = .4f + .6f * j;
#endif
  int how = sym_fix(sym_int("how", 0, 3)); // 0: cutoffs, 1: unknown words, 2: everything, 3: nothing
  bool lose = how == 0 && sym_fix(sym_int("cutoffs discarded", 0, 1));
  std::vector<int> cut;
  if (how == 0) {
    cut.push_back(0);
    cut.push_back(sym_fix(sym_int("cutoff", 0, 2)));
    if (N > 2 && sym_fix(sym_int("third cutoff", 0, 1))) cut.push_back(1);
  }
  k->cutoffs = cut;
  k->discard_cutoffs = lose;
  k->discard_ngrams_with_unk = how == 1;
  bool kn = !ABSD && !sym_fix(sym_int("counts left alone", 0, 1));
  k->prune_model(how == 2 ? 1e9 : -1e9, kn, (Storage_t<KT, ICT> *)NULL);
  // what should be left
  bool some = false;
  for (int o = N; o >= 2; o--) {
    int lim = cut.empty() ? 0 : o > (int)cut.size() ? cut.back() : cut[o - 1];
    Kv g(o, 0);
    do {
      ICT c = t.at(g);
      bool out = how == 2 || (how == 1 && std::find(g.begin(), g.end(), 0) != g.end()) || c <= lim;
      if (!c || !out) continue;
      some = true;
      t.at(g) = 0;
      Kv h(g.begin() + 1, g.end());
      if (kn && !lose && t.at(h) > 0) t.at(h) += c - 1; // Kneser-Ney counts get the occurrences back
    } while (knext(g));
  }
  for (int o = 1; o <= N; o++) {
    Kv g(o, 0);
    do A(k->moc->GetCount(g) == t.at(g), "the counts left"); while (knext(g));
  }
  kn_consistent(k, "the total of a context is the sum of its counts and of the pruned ones", true);
  kn_normal(k);
  if (some && how == 0) sym_cover("cut off");
  if (some && how == 1) sym_cover("unknown words discarded");
  if (some && how == 2) sym_cover("all pruned");
}
