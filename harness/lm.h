// A small language model with any shape and any values, next to a dense table
// that serves as the oracle.
#pragma once
#include "hx.h"
#include "TreeGram.hh"
#include <algorithm>
#include <deque>
#ifndef PLO
#define PLO 0.0009765625
#endif
#ifndef LPLO // the smallest log-probability
#define LPLO -6
#endif
#ifndef NV
#define NV 3
#endif
typedef std::deque<int> Gr;
struct LM {
  int order, v;
  std::vector<char> has[5];       // by order 1..4
  std::vector<float> lp[5], bo[5]; // log-probability, back-off weight
  std::vector<double> p[5], b[5];  // the same, not as logarithms
  LM(int o, int nv = NV) : order(o), v(nv) {
    int n = 1;
    for (int k = 1; k <= o; k++) {
      n *= v;
      has[k].assign(n, 0); lp[k].assign(n, 0); bo[k].assign(n, 0);
      p[k].assign(n, 0); b[k].assign(n, 1);
    }
  }
  int at(const Gr &g, size_t from = 0, size_t to = 100) const {
    int x = 0;
    for (size_t i = from; i < g.size() && i < to; i++) x = x * v + g[i];
    return x;
  }
  bool in(const Gr &g, size_t from = 0, size_t to = 100) const {
    if (to > g.size()) to = g.size();
    if (to - from > (size_t)order) return false;
    return has[to - from][at(g, from, to)];
  }
  // back-off: the longest stored suffix, plus the weights of the longer contexts
  float bo_lp(const Gr &g, int *hit = 0) const {
    float r = 0;
    for (size_t n = 0; n < g.size(); n++) {
      if (in(g, n)) { if (hit) *hit = (int)(g.size() - n); return r + lp[g.size() - n][at(g, n)]; }
      if (in(g, n, g.size() - 1)) r += bo[g.size() - n - 1][at(g, n, g.size() - 1)];
    }
    return r;
  }
  // interpolation: p(w|h) = stored + weight(h) * p(w|shorter h)
  double i_p(const Gr &g) const {
    double r = 0;
    for (size_t n = 1; n <= g.size() && n <= (size_t)order; n++) {
      size_t s = g.size() - n;
      if (n > 1 && !in(g, s, g.size() - 1)) continue;
      if (n > 1) r = r * b[n - 1][at(g, s, g.size() - 1)];
      if (in(g, s)) r = r + p[n][at(g, s)];
    }
    return r;
  }
};
#ifdef SHORTW
#define WORD1 "a"
#else // a word longer than most, with bytes of any kind
#define WORD1 "a\xc3\xa4-0123456789_abcdefghijklmnopqrstuvwxyz_0123456789\xff(ABCDEFGHIJKLMNOPQRSTUVWXYZ'\"%\x80"
#endif
static const char *WORDS[] = {"<UNK>", WORD1, "b", "c", "d", "e", "f", "g", "h", "i", "j"};
// next gram of the same order in dictionary order
static inline bool nextgram(Gr &g, int v = NV) {
  int i = (int)g.size() - 1;
  while (i >= 0 && ++g[i] == v) g[i--] = 0;
  return i >= 0;
}
// values: 0 plain reals, 1 logarithms of reals, 2 fixed numbers (distinct, exact)
static inline void lm_val(LM &m, const Gr &g, int how, bool top) {
  int n = (int)g.size(), x = m.at(g);
  m.has[n][x] = 1;
  if (how == 0) {
    m.lp[n][x] = sym_float("lp", LPLO, -0.125);
    m.bo[n][x] = top ? 0 : sym_float("bo", -3, 1);
  } else if (how == 1) {
    m.p[n][x] = sym_real("p", PLO, 0.3125);
    m.b[n][x] = top ? 1 : sym_real("b", PLO, 1);
    m.lp[n][x] = (float)log10(m.p[n][x]);
    m.bo[n][x] = top ? 0.0f : (float)log10(m.b[n][x]);
  } else {
    m.lp[n][x] = -(float)(n * 2 + x % 7) / 8 - 1;
    m.bo[n][x] = top ? 0 : -(float)(x % 5 + 1) / 16;
    m.p[n][x] = pow(10, m.lp[n][x]);
    m.b[n][x] = pow(10, m.bo[n][x]);
  }
}
static const int C2[][2] = {{1, 2}, {2, 1}, {1, 1}, {0, 2}, {2, 2}, {2, 0}};
static const int C3[][3] = {{1, 2, 1}, {2, 1, 0}, {1, 1, 1}, {1, 2, 2}, {2, 2, 1}, {0, 2, 2}, {2, 1, 1}};
static const int C4[][4] = {{1, 2, 1, 2}, {2, 1, 0, 0}, {2, 2, 1, 1}};
#ifndef N2
#define N2 4
#endif
#ifndef N3
#define N3 4
#endif
#ifndef N4
#define N4 0
#endif
// which grams exist: any prefix-closed subset of the candidates
static inline void lm_any(LM &m, int how, bool unk = true) {
  Gr g(1);
  for (int w = unk ? 0 : 1; w < m.v; w++) { g[0] = w; lm_val(m, g, how, m.order == 1); }
  if (!unk) { m.has[1][0] = 1; m.lp[1][0] = -99; }
  g.resize(2);
  for (int i = 0; i < N2 && m.order >= 2; i++) {
    g[0] = C2[i][0]; g[1] = C2[i][1];
    if (g[0] >= m.v || g[1] >= m.v) continue;
    if (sym_fix(sym_int("bigram", 0, 1))) lm_val(m, g, how, m.order == 2);
  }
  g.resize(3);
  for (int i = 0; i < N3 && m.order >= 3; i++) {
    g[0] = C3[i][0]; g[1] = C3[i][1]; g[2] = C3[i][2];
    if (m.in(g, 0, 2) && sym_fix(sym_int("trigram", 0, 1))) lm_val(m, g, how, m.order == 3);
  }
  g.resize(4);
  for (int i = 0; i < N4 && m.order >= 4; i++) {
    for (int k = 0; k < 4; k++) g[k] = C4[i][k];
    if (m.in(g, 0, 3) && sym_fix(sym_int("fourgram", 0, 1))) lm_val(m, g, how, m.order == 4);
  }
}
static inline int lm_order(const LM &m) {
  for (int n = m.order; n > 1; n--)
    for (size_t i = 0; i < m.has[n].size(); i++) if (m.has[n][i]) return n;
  return 1;
}
static inline void lm_words(Vocabulary *t, int v) {
  for (int w = 1; w < v; w++) t->add_word(WORDS[w]);
}
static inline void lm_fill(TreeGram *t, const LM &m) {
  lm_words(t, m.v);
  t->reserve_nodes(4);
  for (int n = 1; n <= m.order; n++) {
    Gr g(n, 0);
    do {
      int x = m.at(g);
      if (m.has[n][x]) t->add_gram(g, m.lp[n][x], m.bo[n][x]);
    } while (nextgram(g, m.v));
  }
  t->finalize();
}
// contexts without successors carry no weight (as in every model this tool makes)
static inline void lm_leaves(LM &m) {
  for (int n = 1; n <= m.order; n++) {
    Gr g(n, 0);
    do {
      bool kid = false;
      Gr h = g;
      h.push_back(0);
      for (int w = 0; w < m.v && n < m.order; w++) { h[n] = w; if (m.in(h)) kid = true; }
      if (!kid) { m.bo[n][m.at(g)] = 0; m.b[n][m.at(g)] = 1; }
    } while (nextgram(g, m.v));
  }
}
