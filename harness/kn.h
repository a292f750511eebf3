// A Kneser-Ney / absolute-discounting model over any small table of counts, and
// the oracle that computes its statistics from the definitions.
#pragma once
#include "hx.h"
#include "InterKn.hh"
#include <map>
#ifdef SHORTK
#define KT unsigned short
#else
#define KT int
#endif
#ifdef LONGC
typedef long ICT;
#else
typedef int ICT;
#endif
#ifndef N
#define N 3 // order
#endif
#ifndef NW
#define NW 3 // words, the unknown word included
#endif
#ifndef D3
#define D3 0 // three discounts per order
#endif
#ifndef ABSD
#define ABSD false
#endif
#ifndef MAXC
#define MAXC 3
#endif
#if D3
typedef InterKn_int_disc3<KT, ICT> Kn;
typedef MultiOrderCounts<KT, ICT>::bo_3c Bo;
#else
typedef InterKn_int_disc<KT, ICT> Kn;
typedef MultiOrderCounts<KT, ICT>::bo_c Bo;
#endif
typedef std::vector<KT> Kv;
static const char *KW[] = {"<UNK>", "a", "b", "c", "d", "e"};
static inline bool knext(Kv &g, int v = NW) {
  int i = (int)g.size() - 1;
  while (i >= 0 && ++g[i] == v) g[i--] = 0;
  return i >= 0;
}
static inline int kat(const KT *g, int n, int v = NW) { int x = 0; for (int i = 0; i < n; i++) x = x * v + g[i]; return x; }
static inline int kpow(int n, int v = NW) { int r = 1; while (n--) r *= v; return r; }
struct Tab { // dense counts of every order
  std::vector<ICT> c[N + 1];
  Tab() { for (int o = 0; o <= N; o++) c[o].assign(kpow(o), 0); }
  ICT &at(const Kv &g) { return c[g.size()][kat(&g[0], (int)g.size())]; }
};
static inline Kn *kn_new(int order = N, const char *opti = "") {
  FILE *f = fopen("train.txt", "w");
  for (int i = 0; i < (order > NW - 1 ? order : NW - 1); i++) fprintf(f, "%s ", KW[1 + i % (NW - 1)]);
  fclose(f);
  return new Kn(ABSD, "train.txt", "", opti, 0, order, 0, -1, NULL, "train.txt", "", 4);
}
// the raw counts go into the model, which derives the rest
static inline void kn_load(Kn *k, Tab &t) {
  MultiOrderCounts<KT, ICT> *m = k->moc;
  m->clear_derived_counts();
  for (int o = 1; o <= N; o++) m->m_counts[o]->clear();
  for (int o = N; o >= 1; o--) {
    Kv g(o, 0);
    do if (t.at(g) > 0) m->IncrementCount(g, t.at(g)); while (knext(g));
  }
  k->set_order(N);
  k->estimate_bo_counts(true);
  k->estimate_nzer_counts();
}
// lower orders from the definition: the number of different left neighbours
// (Kneser-Ney) or of occurrences (absolute discounting), plus the raw lower
// order occurrences (text start, history start)
static inline void kn_lower(Tab &t) {
  for (int o = N; o > 1; o--) {
    Kv g(o, 0);
    do {
      ICT c = t.at(g);
      Kv h(g.begin() + 1, g.end());
      t.at(h) += ABSD ? c : c > 0 ? 1 : 0;
    } while (knext(g));
  }
}
static inline int cls(ICT c) { return c > 2 ? 2 : (int)c - 1; }
static inline ICT getb(const Bo &b, int j) {
#if D3
  return b.nzer[j];
#else
  return b.nzer;
#endif
}
// the statistics of every context are those of the counts (pruned mass aside)
static inline void kn_consistent(Kn *k, const char *what, bool pruned) {
  for (int o = 1; o <= N; o++) {
    Kv h(o - 1, 0);
    do {
      Bo b;
      KT none = 0;
      k->moc->GetBackoff(o, o > 1 ? &h[0] : &none, &b);
      ICT sum = 0, nz[3] = {0, 0, 0};
      Kv g(h);
      g.push_back(0);
      for (int w = 0; w < NW; w++) {
        g[o - 1] = w;
        ICT c = k->moc->GetCount(g);
        A(c >= 0, "no negative counts");
        sum += c;
        for (int j = 0; j < 3; j++) nz[j] += c > 0 && (D3 ? cls(c) == j : j == 0);
      }
      if (!pruned) A(b.prune_den == 0, "no pruned mass");
      A(b.prune_den >= 0, "pruned mass is not negative");
      A(b.den == sum + b.prune_den, what);
      for (int j = 0; j < (D3 ? 3 : 1); j++) A(getb(b, j) == nz[j], "the number of grams of every count class");
    } while (o > 1 && knext(h));
  }
}
static inline void kn_disc(Kn *k, bool sym) {
  k->init_disc(0.5f);
  if (!sym) return;
  for (int o = 1; o <= N; o++) {
#if D3
    for (int j = 0; j < 3; j++) k->m_discount[o][j] = sym_float("discount", 0, j + 1);
#else
    k->m_discount[o] = sym_float("discount", 0, 1);
#endif
  }
}
// sums to one after every context, and every probability is one
static inline void kn_normal(Kn *k, int v = NW, double tol = 1e-5) {
  for (int n = 0; n <= N; n++) {
    Kv h(n, 0);
    do {
      double s = 0;
      for (int w = 0; w < v; w++) {
        Kv g(h);
        g.push_back(w);
        double p = k->tableprob(g);
        A(p >= -tol && p <= 1 + tol, "a probability lies between zero and one");
        s += p;
      }
      A(near_(s, 1, tol), "the probabilities after a context sum to one");
    } while (n > 0 && knext(h));
  }
}
