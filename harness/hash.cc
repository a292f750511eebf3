// The hash model: scores by definition, is written and read back unchanged, and
// adding the grams a prefix tree needs changes no score.
#include "lm.h"
#include "HashGram.hh"
#ifndef ORDER
#define ORDER 3
#endif
#ifdef SHORTK
#define KT unsigned short
#else
#define KT int
#endif
#ifdef APP
#include "tool.h"
TOOL(add_zeroprob_grams);
#endif
static std::string num(float x) { char b[40]; snprintf(b, sizeof b, "%.9g", x); return b; }
static bool interp;
static LM *M;
static double want(const Gr &g, int *hit) {
  size_t top = g.size() < (size_t)M->order ? g.size() : M->order;
  *hit = interp ? 0 : 1;
  if (interp) {
    double r = 0;
    for (size_t n = 1; n <= top; n++) {
      size_t s = g.size() - n;
      if (n > 1 && M->in(g, s, g.size() - 1)) r = r * pow(10, M->bo[n - 1][M->at(g, s, g.size() - 1)]);
      if (M->in(g, s)) { r = r + pow(10, M->lp[n][M->at(g, s)]); *hit = (int)n; }
    }
    return r;
  }
  double r = 0;
  for (size_t n = top; n >= 1; n--) {
    size_t s = g.size() - n;
    if (M->in(g, s)) { *hit = (int)n; return r + M->lp[n][M->at(g, s)]; }
    if (n > 1 && M->in(g, s, g.size() - 1)) r = r + M->bo[n - 1][M->at(g, s, g.size() - 1)];
  }
  return r - 60;
}
static void check(NGram *t, const char *what, bool order_too, int slack) {
  int w[NV];
  for (int i = 0; i < NV; i++) {
    w[i] = t->word_index(WORDS[i]);
    A(t->word(w[i]) == WORDS[i], what);
  }
  for (int n = 1; n <= ORDER + 1; n++) {
    Gr g(n, 0);
    do {
      // longer grams than the order: a few, to see that the first words do not count
      if (n > ORDER && (g[0] != 1 || (n > 4 && g[1] != 2))) continue;
      Gr h(n);
      std::vector<int> v(n);
      for (int i = 0; i < n; i++) v[i] = h[i] = w[g[i]];
      int hit;
      double e = want(g, &hit);
      if (n > ORDER && slack) continue; // the tree scores no longer grams
      double s = t->log_prob(h);
      if (interp) A(near_(pow(10, s), e, slack ? 2e-3 : 1e-4), what);
      // below -50 it is the same as no probability
      else A(near_(s, e, slack ? 1e-3 : 1e-4) || (s < -50 && e < -50), what);
      if (order_too && t->last_order() != hit) A(0, "the length of the match");
      A(near_(t->log_prob(v), s, 1e-6), "the two argument types");
#ifdef SHORTK
      if (!slack) {
        std::vector<unsigned short> u(v.begin(), v.end());
        A(near_(t->log_prob(u), s, 1e-6), "short indices");
      }
#endif
    } while (nextgram(g));
  }
}
extern "C" void sx_main(void) {
  LM m(ORDER);
  M = &m;
#ifdef INTERP
  interp = true;
#endif
  int how = 2;
  bool sparse = false;
#ifdef SYMV
  how = 0;
#endif
#ifdef ADDZ
  sparse = true;
#endif
  Gr g(1);
  bool missing1 = sparse && sym_fix(sym_int("no unigram", 0, 1));
  for (int w = 0; w < NV; w++) if (!(missing1 && w == 1)) { g[0] = w; lm_val(m, g, how, ORDER == 1); }
  g.resize(2);
  for (int i = 0; i < N2 && ORDER >= 2; i++) {
    g[0] = C2[i][0]; g[1] = C2[i][1];
    if (sym_fix(sym_int("bigram", 0, 1))) lm_val(m, g, how, ORDER == 2);
  }
  g.resize(3);
  for (int i = 0; i < N3 && ORDER >= 3; i++) {
    for (int k = 0; k < 3; k++) g[k] = C3[i][k];
    if ((sparse || m.in(g, 0, 2)) && sym_fix(sym_int("trigram", 0, 1))) lm_val(m, g, how, ORDER == 3);
  }
  g.resize(4);
  for (int i = 0; i < N4 && ORDER >= 4; i++) {
    for (int k = 0; k < 4; k++) g[k] = C4[i][k];
    if ((sparse || m.in(g, 0, 3)) && sym_fix(sym_int("fourgram", 0, 1))) lm_val(m, g, how, true);
  }
  int real = lm_order(m);
  m.order = real;
  if (missing1) sym_assume(real > 1);
  std::string text = interp ? "\\interpolated\n" : "", body;
  text += "\\data\\\n";
  for (int n = 1; n <= real; n++) {
    int k = 0;
    body += std::string("\n\\") + std::to_string(n) + "-grams:\n";
    if (n == 1 && missing1) { // the word is known all the same
      body += std::string("-99 ") + WORDS[1];
      if (real > 1) body += " -0.25", m.bo[1][1] = -0.25, k++;
      else k++;
      body += "\n";
    }
    Gr g(n, 0);
    do {
      if (!m.in(g)) continue;
      k++;
      body += num(m.lp[n][m.at(g)]) + " ";
      for (int i = 0; i < n; i++) body += (i ? std::string(" ") : std::string()) + WORDS[g[i]];
      if (n < real) body += " " + num(m.bo[n][m.at(g)]);
      body += "\n";
    } while (nextgram(g));
    text += "ngram " + std::to_string(n) + "=" + std::to_string(k) + "\n";
  }
  text += body + "\n\\end\\\n";
  if (missing1) {
    // a word without probability of its own, with a back-off weight
    m.has[1][1] = 1; m.lp[1][1] = -60; m.p[1][1] = 0;
  }
#ifdef APP
  put("in.arpa", text);
  SV args;
  if (sizeof(KT) == 2) args.push_back("-s");
  args.push_back("in.arpa");
  args.push_back("out.arpa");
  tool(app_add_zeroprob_grams_main, args);
  FILE *o = fopen("out.arpa", "r");
  A(o != NULL, "the tool wrote its output");
#else
  FILE *f = hx_file(text);
  HashGram_t<KT> *t = new HashGram_t<KT>;
  t->read(f);
  fclose(f);
  A(t->order() == real, "the order");
  check(t, "the score of every gram", !missing1, 0);
#ifdef ADDZ
  t->add_zeroprob_grams();
  check(t, "the score of every gram after adding grams", false, 0);
#endif
  FILE *o = tmpfile();
  const char *sep = sym_fix(sym_int("tab", 0, 1)) ? "\t" : " ";
  t->write(o, false, sep);
  check(t, "the score of every gram after writing", false, 0);
  rewind(o);
#endif
  NGram *b;
  bool tree = sym_fix(sym_int("tree", 0, 1));
  if (tree) b = new TreeGram;
  else b = new HashGram_t<KT>;
  b->read(o);
  A(b->order() == real, "the order read back");
  A((b->get_type() == NGram::INTERPOLATED) == interp, "the type");
  check(b, tree ? "the score of every gram in the tree read back" : "the score of every gram read back", false, 1);
  sym_cover(tree ? "tree" : "hash");
  if (real == ORDER) sym_cover("full order");
}
