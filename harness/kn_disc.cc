// Discounts: the leave-one-out estimates by their formula and within range, the
// optimisation text's log-probability from the model's own probabilities, and
// optimised discounts within range and no worse than the estimates.
#include "kn.h"
#include "Storage.hh"
#ifndef CAND
#define CAND {1, 2, 1}, {2, 2, 1}, {0, 2, 1}, {1, 2, 2}, {2, 1, 0}
#endif
#ifndef MODE
#define MODE 0
#endif
#ifndef LEN
#define LEN 3
#endif
#ifndef SLACK
#define SLACK .01
#endif
#ifndef CLEAR
#define CLEAR 0
#endif
static const int C[][3] = {CAND};
static double dget(Kn *k, int o, int j) {
#if D3
  return k->m_discount[o][j];
#else
  return k->m_discount[o];
#endif
}
#if CLEAR
#define W1 "<s>"
#else
#define W1 KW[1]
#endif
static const char *word(int i) { return i == 1 ? W1 : i ? KW[i] : "zz"; }
static SV opti;
static std::string optitext(void) {
  std::string s;
  for (int i = 0; i < LEN; i++) {
    int w = sym_fix(sym_int("word", 0, NW - 1));
    opti.push_back(word(w));
    s += std::string(word(w)) + (i % 2 ? "\n" : " ");
  }
  return s;
}
// the mean over the known words, each after the words before it
static double mean(Kn *k, int *n) {
  double s = 0;
  *n = 0;
  Kv h;
  for (int i = 0; i < LEN; i++) {
    int w = k->vocab.word_index(opti[i]);
    if (CLEAR && opti[i] == "<s>") { h.assign(1, w); continue; }
    h.push_back(w);
    if ((int)h.size() > N) h.erase(h.begin());
    if (w == 0) continue;
    ++*n;
    s += log10(k->tableprob(h));
  }
  return -s;
}
extern "C" void sx_main(void) {
  Tab t;
#if MODE == 0
  for (size_t i = 0; i < sizeof(C) / sizeof(C[0]); i++) {
    Kv g(C[i], C[i] + N);
    t.at(g) = sym_fix(sym_int("count", 0, MAXC));
  }
  Kv s1(1, 1);
  t.at(s1) = 1;
  Kn *k = kn_new();
  kn_load(k, t);
  k->init_disc(0.37f);
  int all = 0;
  for (int o = 1; o <= N; o++) {
    ICT n[5] = {0, 0, 0, 0, 0};
    Kv g(o, 0);
    do {
      ICT c = k->moc->GetCount(g);
      if (c >= 1 && c <= 4) n[c]++;
    } while (knext(g));
    k->set_leaveoneout_discounts(o);
    for (int p = 1; p <= N; p++)
      for (int j = 0; j < (D3 ? 3 : 1); j++) {
        double want = 0.37;
        if (p > o) { A(near_(dget(k, p, j), want, 1e-6), "the discounts of other orders stay"); continue; }
        if (p < o) continue;
        if (n[1] && n[2] && n[j + 1]) {
          double y = (double)n[1] / (n[1] + 2.0 * n[2]);
          want = j + 1 - (j + 2) * y * n[j + 2] / n[j + 1];
          if (want > j + 0.8) want = j + 0.8;
          if (want < 0.1) want = 0.1;
          all |= 1 << j;
        }
        A(near_(dget(k, p, j), want, 1e-4), "the leave-one-out discount");
        A(dget(k, p, j) > 0 && dget(k, p, j) <= j + 1, "a discount lies within its range");
      }
  }
  kn_normal(k);
  sym_cover(all == (D3 ? 7 : 1) ? "estimated" : all ? "some estimated" : "kept");
#else
  std::string s = optitext();
  FILE *f = fopen("opti.txt", "w");
  fputs(s.c_str(), f);
  fclose(f);
  f = fopen("train.txt", "w");
  fprintf(f, "%s %s %s %s %s %s %s %s\n", W1, KW[2], KW[2], W1, KW[2], KW[NW - 1], W1, W1);
  fclose(f);
  Kn *k = new Kn(ABSD, "train.txt", "", MODE == 2 ? "opti.txt" : "", 0, N, 0, -1, NULL, "train.txt", CLEAR ? "<s>" : "", 4);
  kn_disc(k, false);
#if MODE == 1
  f = fopen("opti.txt", "r");
  Storage<KT> st;
  st.read(f, k->vocab);
  double r = k->logprob_datastorage(st);
  int n;
  double m = mean(k, &n);
  if (n) { A(near_(r * n, m, 1e-4), "the log-probability of the text"); sym_cover("scored"); }
#else
  for (int o = 1; o <= N; o++) k->set_leaveoneout_discounts(o);
  int n;
  double before = mean(k, &n);
  if (!n) return;
  k->find_coeffs(-0.1f, 1e-1f, 5e-2f);
  double after = mean(k, &n);
  for (int o = 1; o <= N; o++)
    for (int j = 0; j < (D3 ? 3 : 1); j++) A(dget(k, o, j) >= 0 && dget(k, o, j) <= j + 1, "an optimised discount lies within its range");
  A(after <= before + 0.05 * n, "optimised discounts are no worse than the first ones");
  kn_normal(k, k->vocab.num_words());
  // changing one of them does not help much
  for (int o = 1; o <= N; o++)
    for (int j = 0; j < (D3 ? 3 : 1); j++)
      for (int x = 0; x <= 20; x++) {
#if D3
        float &d = k->m_discount[o][j];
#else
        float &d = k->m_discount[o];
#endif
        float was = d;
        d = x * (j + 1) / 20.0f;
        int n2;
        A(mean(k, &n2) >= after - SLACK * n, "no other discount is much better");
        d = was;
      }
  sym_cover(after < before - 0.01 * n ? "better" : "no better");
#endif
#endif
}
