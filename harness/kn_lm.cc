// The trained model as a TreeGram gives the probabilities of the trainer.
#include "HashGram.hh"
#include "kn.h"
#include "TreeGram.hh"
#include "TreeGramArpaReader.hh"
#ifndef CAND
#define CAND {1, 2, 1}, {2, 2, 1}, {0, 2, 1}, {1, 2, 2}, {2, 1, 0}
#endif
#ifndef PRUNE
#define PRUNE 0
#endif
static const int C[][N > 3 ? N : 3] = {CAND};
extern "C" void sx_main(void) {
  Tab t;
  for (size_t i = 0; i < sizeof(C) / sizeof(C[0]); i++) {
    Kv g(C[i], C[i] + N);
    t.at(g) = sym_fix(sym_int("count", 0, MAXC));
  }
  Kv s1(1, 1);
  t.at(s1) = 1;
  Kn *k = kn_new();
  kn_load(k, t);
  kn_disc(k, false);
#if D3
  for (int o = 1; o <= N; o++)
    for (int j = 0; j < 3; j++) k->m_discount[o][j] = .35f + .6f * j;
#endif
  if (PRUNE) {
#ifdef CUTS // the middle orders go, the highest stays
    static const int CU[] = {CUTS};
    std::vector<int> cut(CU, CU + sizeof(CU) / sizeof(CU[0]));
    k->discard_cutoffs = sym_fix(sym_int("discard", 0, 1));
#else
    std::vector<int> cut(1, 0);
    cut.push_back(1);
#endif
    k->cutoffs = cut;
    k->prune_model(sym_fix(sym_int("threshold", 0, 1)) * 0.02, 1, (Storage_t<KT, ICT> *)NULL);
  }
  // before: counts2lm may add zero counts but must not change a probability
  std::vector<double> p;
  for (int n = 0; n <= N; n++) {
    Kv g(n + 1, 0);
    do p.push_back(k->tableprob(g)); while (knext(g));
  }
#ifdef ARPA
  FILE *f = tmpfile();
  k->zeroprobgrams = sym_fix(sym_int("grams without probability written", 0, 1));
  k->counts2asciilm(f);
  std::string text = hx_slurp(f);
  { // the numbers of grams said are those written
    size_t at = 0;
    int said[N + 1], have[N + 1], sec = 0;
    for (int n = 0; n <= N; n++) said[n] = have[n] = 0;
    while (at < text.size()) {
      size_t e = text.find('\n', at);
      A(e != std::string::npos, "whole lines are written");
      const char *l = text.c_str() + at;
      if (!strncmp(l, "ngram ", 6)) { A(l[6] > '0' && l[6] <= '0' + N, "an order of the model"); said[l[6] - '0'] = atoi(l + 8); }
      else if (*l == '\\') sec = l[1] > '0' && l[1] <= '0' + N ? l[1] - '0' : 0;
      else if (*l != '\n') have[sec]++;
      at = e + 1;
    }
    A(!have[0], "grams are written in their sections");
    for (int n = 1; n <= N; n++) A(said[n] == have[n], "the number of grams is that said");
  }
  rewind(f);
  double tol = 0.02;
  if (!k->zeroprobgrams) { // such a model is not a tree
    HashGram_t<int> h;
    h.read(f);
    for (int n = 0; n <= N; n++) {
      Kv g(n + 1, 0);
      do {
        std::vector<int> q;
        bool all = true;
        for (int j = 0; j <= n; j++) {
          q.push_back(h.word_index(KW[g[j]]));
          all = all && h.word(q[j]) == KW[g[j]];
        }
        double was = k->tableprob(g);
        // (words without counts of their own are left out)
        if (all && k->moc->GetCount(1, &g[n]) > 0) A(near_(pow(10, h.log_prob(q)), was, tol * was + 1e-9), "the hashed model's probability is the trainer's");
      } while (knext(g));
    }
    sym_cover("hashed");
    return;
  }
  TreeGram *lm = new TreeGram;
  TreeGramArpaReader r;
  r.read(f, lm);
#else
  TreeGram *lm = new TreeGram;
  k->counts2lm(lm);
  double tol = 0.005;
#endif
  A(lm->num_words() == NW, "the vocabulary of the model");
  A(lm->get_type() == TreeGram::INTERPOLATED, "an interpolated model");
  size_t i = 0;
  for (int n = 0; n <= N; n++) {
    Kv g(n + 1, 0);
    do {
      double was = p[i++], now = k->tableprob(g);
      A(near_(was, now, 1e-9), "writing the model does not change the trained one");
      TreeGram::Gram q;
      for (int j = 0; j <= n; j++) q.push_back(lm->word_index(KW[g[j]]));
      double l = pow(10, lm->log_prob(q));
      A(near_(l, was, tol * was + 1e-9), "the model's probability is the trainer's");
    } while (knext(g));
  }
  TreeGram::Iterator it(lm);
  while (it.next())
    A(it.order() == 1 || it.node().log_prob > MINLOGPROB || it.has_children() || it.node().back_off < -1e-4,
      "a gram without probability is the start of another or has a weight");
  sym_cover("compared");
  if (lm->order() == N) sym_cover("full order");
}
