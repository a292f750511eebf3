// Counts written to a file and read back give the same model; a model made from
// a file of highest-order counts has its vocabulary and statistics.
#include "kn.h"
#ifndef CAND
#define CAND {1, 2, 1}, {2, 2, 1}, {0, 2, 1}, {1, 2, 2}, {2, 1, 0}
#endif
#ifndef PRUNE
#define PRUNE 0
#endif
#ifndef HIGH
#define HIGH 0
#endif
static const int C[][3] = {CAND};
static void vocfile(void) {
  FILE *f = fopen("voc.txt", "w");
  for (int i = 1; i < NW; i++) fprintf(f, "%s\n", KW[i]);
  fclose(f);
}
static void same(Kn *k, Kn *r) {
  A(r->vocab.num_words() == NW, "the vocabulary");
  for (int i = 0; i < NW; i++) A(r->vocab.word(i) == KW[i], "the words");
  A(r->order() >= 1 && r->order() <= k->order(), "the order"); // an order without counts need not be there
  for (int o = 1; o <= N; o++) {
    Kv g(o, 0);
    do A((o > r->order() ? 0 : r->moc->GetCount(g)) == k->moc->GetCount(g), "the counts"); while (knext(g));
    if (o > r->order()) continue;
    Kv h(o - 1, 0);
    do {
      Bo a, b;
      KT none = 0;
      k->moc->GetBackoff(o, o > 1 ? &h[0] : &none, &a);
      r->moc->GetBackoff(o, o > 1 ? &h[0] : &none, &b);
      A(a.den == b.den && a.prune_den == b.prune_den, "the totals of a context");
      for (int j = 0; j < (D3 ? 3 : 1); j++) A(getb(a, j) == getb(b, j), "the classes of a context");
    } while (o > 1 && knext(h));
  }
  for (int o = 1; o <= N; o++) {
    Kv g(o, 0);
    do A(near_(k->tableprob(g), r->tableprob(g), 1e-6), "the probabilities"); while (knext(g));
  }
}
extern "C" void sx_main(void) {
  Tab t;
  int full = 0;
  for (size_t i = 0; i < sizeof(C) / sizeof(C[0]); i++) {
    Kv g(C[i], C[i] + N);
    int c = sym_fix(sym_int("count", 0, MAXC));
#ifdef LONGC
    t.at(g) = c == 2 ? 3000000000L : c;
#else
    t.at(g) = c;
#endif
    full += t.at(g) > 0;
  }
#if HIGH
  // the same counts as a file of the highest order
  FILE *f = fopen("high.txt", "w");
  Kv g(N, 0);
  do if (t.at(g) > 0) {
    for (int i = 0; i < N; i++) fprintf(f, "%d ", (int)g[i]);
    fprintf(f, "%ld\n", (long)t.at(g));
  } while (knext(g));
  fclose(f);
  vocfile();
  Kn *k = kn_new();
  kn_load(k, t);
  k->init_disc(0.5f);
  Kn *r = new Kn(ABSD, "high.txt", "voc.txt", "", -1, N, 0, -1, NULL, "high.txt", "", 4);
  r->init_disc(0.5f);
  // an order is there once it has counts
  if (!full) { sym_cover("empty"); return; }
  same(k, r);
  sym_cover("read back");
#else
  Kv s1(1, 1);
  t.at(s1) = 1;
  Kn *k = kn_new();
  kn_load(k, t);
  kn_disc(k, false);
  if (PRUNE) {
    k->cutoffs.assign(1, 0);
    k->cutoffs.push_back(1);
    k->prune_model(0, 1, (Storage_t<KT, ICT> *)NULL);
  }
  FILE *f = fopen("counts.txt", "w");
  k->write_counts(f);
  fclose(f);
  vocfile();
  Kn *r = new Kn(ABSD, "counts.txt", "voc.txt", "", 1, N, 0, -1, NULL, "counts.txt", "", 4);
  r->init_disc(0.5f);
  same(k, r);
  // and again
  f = fopen("again.txt", "w");
  r->write_counts(f);
  fclose(f);
  Kn *q = new Kn(ABSD, "again.txt", "voc.txt", "", 1, N, 0, -1, NULL, "counts.txt", "", 4);
  q->init_disc(0.5f);
  same(k, q);
  if (full) sym_cover("read back");
  else sym_cover("empty");
#endif
}
