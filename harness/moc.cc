// Trial changes made through the caches are visible at once and undone exactly.
#include "hx.h"
#include "InterKn.hh"
#ifndef KT
#define KT int
#endif
#ifndef PRE
#define PRE 3
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
#if D3
typedef MultiOrderCounts_3nzer<KT, int> Moc;
typedef MultiOrderCounts<KT, int>::bo_3c Bo;
#else
typedef MultiOrderCounts_1nzer<KT, int> Moc;
typedef MultiOrderCounts<KT, int>::bo_c Bo;
#endif
static const int G[][3] = {{1}, {2}, {1, 2}, {2, 1}, {1, 1}, {1, 2, 1}, {2, 1, 1}};
static const int GN[] = {1, 1, 2, 2, 2, 3, 3};
#define NG 7
#define NC 5 // contexts: the empty one, 1, 2, 12, 21
static const int CN[] = {1, 2, 2, 3, 3}; // the order they belong to
static const int CW[][2] = {{0}, {1}, {2}, {1, 2}, {2, 1}};
struct State { int c[NG]; int b[NC][5]; };
static void key(KT *k, const int *w, int n) { for (int i = 0; i < n; i++) k[i] = w[i]; }
static void check(Moc &m, const State &s, const char *what) {
  KT k[4] = {0, 0, 0, 0};
  for (int i = 0; i < NG; i++) {
    key(k, G[i], GN[i]);
    A(m.GetCount(GN[i], k) == s.c[i], what);
  }
  for (int i = 0; i < NC; i++) {
    key(k, CW[i], CN[i] - 1);
    A(m.GetBackoffDen(CN[i], k) == s.b[i][0], what);
#if D3
    int z[3];
    m.GetBackoffNzer_3nzer(CN[i], k, z);
    for (int j = 0; j < 3; j++) {
      A(z[j] == s.b[i][1 + j], what);
    }
#else
    A(m.GetBackoffNzer(CN[i], k) == s.b[i][1], what);
#endif
    if (m.order() < CN[i]) continue;
    Bo b;
    m.GetBackoff(CN[i], k, &b);
    A(b.den == s.b[i][0] && b.prune_den == s.b[i][4], what);
  }
}
// what a walk over each order yields
static void walk(Moc &m, const State &s, const char *what) {
  KT k[4];
  int v;
  for (int o = 1; o <= m.order(); o++) {
    int seen[NG] = {0};
    m.StepCountsOrder(true, o, k, &v);
    while (m.StepCountsOrder(false, o, k, &v)) {
      int hit = -1;
      for (int i = 0; i < NG; i++) if (GN[i] == o) {
        bool same = true;
        for (int j = 0; j < o; j++) if (k[j] != (KT)G[i][j]) same = false;
        if (same) hit = i;
      }
      A(hit >= 0 && !seen[hit]++, "a walk meets each gram once");
      A(v == s.c[hit], what);
    }
    for (int i = 0; i < NG; i++) if (GN[i] == o) A(seen[i] || s.c[i] == 0, "a walk meets every gram");
  }
}
extern "C" void sx_main(void) {
  Moc m;
  m.vocabsize = 3;
  m.hashsize = 4;
  State s;
  memset(&s, 0, sizeof s);
  KT k[4] = {0, 0, 0, 0};
  m.IncrementBackoffDen(1, k, 2);
  s.b[0][0] = 2;
  for (int i = 0; i < PRE; i++) {
    int w = sym_fix(sym_int("what before", 0, NG + NC - 1)), v = sym_int("value", 1, 3);
    if (w < NG) { key(k, G[w], GN[w]); m.IncrementCount(GN[w], k, v); s.c[w] += v; continue; }
    w -= NG;
    key(k, CW[w], CN[w] - 1);
    Bo b;
    m.zero_bo(b);
    b.den = v; s.b[w][0] += v;
    b.prune_den = 1; s.b[w][4] += 1;
#if D3
    b.nzer[v - 1] = 1;
    for (int j = 0; j < 3; j++) s.b[w][1 + j] += v == j + 1;
#else
    b.nzer = 1; s.b[w][1] += 1;
#endif
    m.IncrementBackoff(CN[w], k, &b);
  }
  check(m, s, "the counts before");
  for (int r = 0; r < ROUNDS; r++) {
    State t = s;
    indextype n[4], bn[4];
    for (int o = 1; o <= 3; o++) n[o] = m.order_size(o);
    for (int o = 2; o <= 3; o++) bn[o] = m.bo_order_size(o);
    int ord = m.order();
    size_t bos = m.m_backoffs.size();
    m.ResetCaches();
    for (int i = 0; i < OPS; i++) {
      // a trial adds at most one order
      int w = sym_fix(sym_int("what", 0, NG + 2 * NC - 1)), v = sym_int("by", -3, 3);
      sym_assume(v != 0);
      if (w < NG) {
        sym_assume(GN[w] <= ord + 1);
        key(k, G[w], GN[w]);
        A(m.IncrementCountCache(GN[w], k, v) == t.c[w] + v, "the new count");
        t.c[w] += v;
        continue;
      }
      int c = (w - NG) % NC;
      sym_assume(CN[c] <= (int)bos);
      key(k, CW[c], CN[c] - 1);
      if (w - NG < NC) {
        m.IncrementBackoffCacheDen(CN[c], k, v);
        t.b[c][0] += v;
      } else {
#if D3
        int p = sym_fix(sym_int("class", 0, 3));
        if (p == 3) {
          int z[3] = {v, -v, 1};
          m.IncrementBackoffCacheNzer(CN[c], k, z);
          t.b[c][1] += v; t.b[c][2] -= v; t.b[c][3] += 1;
        } else {
          m.IncrementBackoffCacheNzer(CN[c], k, p, v);
          t.b[c][1 + p] += v;
        }
#else
        m.IncrementBackoffCacheNzer(CN[c], k, v);
        t.b[c][1] += v;
#endif
      }
    }
    check(m, t, "the counts during the trial");
    walk(m, t, "a walk during the trial");
    if (r + 1 == ROUNDS || sym_fix(sym_int("undo", 0, 1))) {
      m.UndoCached();
      check(m, s, "the counts after undoing");
      walk(m, s, "a walk after undoing");
      for (int o = 1; o <= 3; o++) A(m.order_size(o) == (o <= ord ? n[o] : 0), "the number of grams after undoing");
      for (int o = 2; o <= 3; o++) A(m.bo_order_size(o) == bn[o], "the number of contexts after undoing");
      sym_cover("undone");
    } else {
      s = t;
      sym_cover("kept");
    }
  }
}
