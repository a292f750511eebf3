// Interpolating tree models: the probability is the weighted sum over the models,
// also when their vocabularies differ.
#define PLO 9.094947017729282e-13 // 2^-40
#include "lm.h"
#include "InterTreeGram.hh"
#ifndef ORDER
#define ORDER 2
#endif
#define W 4
static void put(const char *name, LM &m, bool interp, const char **names) {
  FILE *f = fopen(name, "w");
  if (interp) fprintf(f, "\\interpolated\n");
  int real = lm_order(m);
  fprintf(f, "\\data\\\n");
  for (int n = 1; n <= real; n++) {
    int c = 0; Gr g(n, 0);
    do c += m.in(g); while (nextgram(g));
    fprintf(f, "ngram %d=%d\n", n, c);
  }
  for (int n = 1; n <= real; n++) {
    fprintf(f, "\n\\%d-grams:\n", n);
    Gr g(n, 0);
    do {
      if (!m.in(g)) continue;
      fprintf(f, "%.9g ", m.lp[n][m.at(g)]);
      for (int i = 0; i < n; i++) fprintf(f, "%s%s", i ? " " : "", names[g[i]]);
      if (n < real) fprintf(f, " %.9g", m.bo[n][m.at(g)]);
      fprintf(f, "\n");
    } while (nextgram(g));
  }
  fprintf(f, "\n\\end\\\n");
  fclose(f);
}
extern "C" void sx_main(void) {
  static const char *NA[] = {"<UNK>", "a", "b"}, *NB[] = {"<UNK>", "b", "a"}, *NC[] = {"<UNK>", "c", "a"};
  // the words of the second model: the same in another order, or another word
  int kind = sym_fix(sym_int("vocabulary", 0, 1));
  const char **nb = kind ? NC : NB;
  LM a(ORDER), b(ORDER);
  lm_any(a, 1); lm_any(b, 1);
  lm_leaves(a); lm_leaves(b);
  put("a.arpa", a, false, NA);
  bool bi = false;
#ifdef INTERP
  bi = true;
#endif
  put("b.arpa", b, bi, nb);
  float lam = sym_float("weight", 0, 1);
  std::vector<std::string> names; names.push_back("a.arpa"); names.push_back("b.arpa");
  std::vector<float> co; co.push_back(lam); co.push_back(1 - lam);
  InterTreeGram t(names, co);
  int nw = kind ? 4 : 3;
  A(t.num_words() == nw, "the united vocabulary");
  A(t.order() == std::max(lm_order(a), lm_order(b)), "the order");
  static const char *ALL[] = {"<UNK>", "a", "b", "c"};
  a.order = lm_order(a); b.order = lm_order(b);
  std::vector<int> next;
  for (int w = 0; w < nw; w++) next.push_back(t.word_index(ALL[w]));
  std::vector<float> buf(nw);
  for (int n = 1; n <= ORDER; n++) {
    Gr g(n, 0);
    do {
      Gr h(n), ga(n), gb(n);
      bool ina = true, inb = true;
      for (int i = 0; i < n; i++) {
        h[i] = t.word_index(ALL[g[i]]);
        ga[i] = gb[i] = -1;
        for (int k = 0; k < 3; k++) {
          if (!strcmp(NA[k], ALL[g[i]])) ga[i] = k;
          if (!strcmp(nb[k], ALL[g[i]])) gb[i] = k;
        }
        ina = ina && ga[i] >= 0; inb = inb && gb[i] >= 0;
      }
      // a word one model does not know has no probability there
      double pa = ga[n - 1] < 0 ? 0 : 1, pb = gb[n - 1] < 0 ? 0 : 1;
      if (pa > 0) { while (ga.size() > 1 && ga[ga.size() - 2] < 0) { ga.erase(ga.begin(), ga.begin() + ga.size() - 1); } pa = pow(10, a.bo_lp(ga)); }
      if (pb > 0) { while (gb.size() > 1 && gb[gb.size() - 2] < 0) { gb.erase(gb.begin(), gb.begin() + gb.size() - 1); } pb = bi ? b.i_p(gb) : pow(10, b.bo_lp(gb)); }
      double want = (double)lam * pa + (1 - (double)lam) * pb;
      double got = pow(10, t.log_prob(h));
      A(same_p(got, want, 1e-3), "the weighted sum");
      if (n == 2 && g[1] == 0 && !bi) {
        t.fetch_bigram_list(h[0], next, buf);
        for (int w = 0; w < nw; w++) {
          Gr k(2); k[0] = h[0]; k[1] = next[w];
          A(same_p(pow(10, buf[w]), pow(10, t.log_prob(k)), 1e-3), "look-ahead list");
        }
      }
    } while (nextgram(g, nw));
  }
  sym_cover(kind ? "other words" : "same words");
}
