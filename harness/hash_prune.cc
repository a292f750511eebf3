// Entropy pruning of the hash model: what goes is what costs at most the
// threshold, what stays keeps its probability, and contexts stay normalised.
#include "lm.h"
#include "HashGram.hh"
#ifdef SHORTK
#define KT unsigned short
#else
#define KT int
#endif
static const double U[3][NV] = {{0.25, 0.25, 0.5}, {0.125, 0.75, 0.125}, {0.5, 0.3, 0.2}};
static const double PV[] = {0, 0.0625, 0.25, 0.4375};
static const int CB[][2] = {{1, 2}, {1, 1}, {2, 1}, {0, 2}};
#define NB 4
static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.9g", x); return b; }
static double u[NV], p[NV][NV];
static double weight(int h, unsigned kept) {
  double a = 1, b = 1;
  for (int w = 0; w < NV; w++) if (kept >> w & 1) a -= p[h][w], b -= u[w];
  return a / b;
}
static double cost(int h, int w, unsigned kept) {
  double a1 = weight(h, kept), a2 = weight(h, kept & ~(1u << w)), left = 1;
  for (int i = 0; i < NV; i++) if (kept >> i & 1) left -= p[h][i];
  return -u[h] * (p[h][w] * (log10(u[w]) + log10(a2) - log10(p[h][w])) + left * (log10(a2) - log10(a1)));
}
extern "C" void sx_main(void) {
  int un = sym_fix(sym_int("unigrams", 0, 2));
  unsigned has[NV] = {0};
  int nb = 0;
  for (int i = 0; i < NV; i++) u[i] = U[un][i];
  for (int i = 0; i < NB; i++) {
    int v = sym_fix(sym_int("bigram", 0, 3));
    if (v) p[CB[i][0]][CB[i][1]] = PV[v], has[CB[i][0]] |= 1u << CB[i][1], nb++;
  }
  sym_assume(nb > 0);
  std::string text = "\\data\\\nngram 1=" + std::to_string(NV) + "\nngram 2=" + std::to_string(nb) + "\n\n\\1-grams:\n";
  for (int i = 0; i < NV; i++)
    text += num(log10(u[i])) + " " + WORDS[i] + (has[i] ? " " + num(log10(weight(i, has[i]))) : std::string()) + "\n";
  text += "\n\\2-grams:\n";
  for (int i = 0; i < NB; i++)
    if (has[CB[i][0]] >> CB[i][1] & 1)
      text += num(log10(p[CB[i][0]][CB[i][1]])) + " " + WORDS[CB[i][0]] + " " + WORDS[CB[i][1]] + "\n";
  text += "\n\\end\\\n";
  HashGram_t<KT> *t = new HashGram_t<KT>;
  FILE *f = hx_file(text);
  t->read(f);
  fclose(f);
  double th = sym_real("threshold", -0.05, 0.5);
  // the costs of what may be pruned first or later, away from the threshold
  for (int h = 0; h < NV; h++)
    for (unsigned k = 1; k < 8; k++) if ((k & has[h]) == k)
      for (int w = 0; w < NV; w++) if (k >> w & 1) {
        double c = cost(h, w, k);
        sym_assume(th > c + 1e-4 || th < c - 1e-4);
      }
  t->prune(th);
  FILE *o = tmpfile();
  t->write(o);
  rewind(o);
  HashGram_t<KT> *r = new HashGram_t<KT>;
  r->read(o);
  Gr g(1);
  for (int w = 0; w < NV; w++) {
    g[0] = t->word_index(WORDS[w]);
    A(near_(t->log_prob(g), log10(u[w]), 1e-4), "single words");
    A(near_(r->log_prob(g), log10(u[w]), 1e-3), "single words read back");
  }
  g.resize(2);
  int gone = 0;
  for (int h = 0; h < NV; h++) {
    unsigned kept = 0;
    double sum = 0;
    for (int w = 0; w < NV; w++) {
      g[0] = t->word_index(WORDS[h]); g[1] = t->word_index(WORDS[w]);
      double s = t->log_prob(g);
      if (t->last_order() == 2) kept |= 1u << w;
      sum += pow(10, s);
    }
    A((kept & ~has[h]) == 0, "no gram appears");
    A(near_(sum, 1, 1e-3), "every context sums to one");
    for (int w = 0; w < NV; w++) {
      g[0] = t->word_index(WORDS[h]); g[1] = t->word_index(WORDS[w]);
      double s = t->log_prob(g), e = kept >> w & 1 ? log10(p[h][w]) : log10(weight(h, kept)) + log10(u[w]);
      A(near_(s, e, 1e-3), kept >> w & 1 ? "what stays keeps its probability" : "what went is backed off to");
      g[0] = r->word_index(WORDS[h]); g[1] = r->word_index(WORDS[w]);
      A(near_(r->log_prob(g), e, 1e-3), "the pruned model read back");
    }
    if (kept != has[h]) gone++;
    // one order of visiting the grams explains what is left
    bool ok = false;
    int perm[NV] = {0, 1, 2};
    do {
      unsigned k = has[h];
      for (int i = 0; i < NV; i++)
        if (k >> perm[i] & 1) { if (cost(h, perm[i], k) <= th) k &= ~(1u << perm[i]); }
      if (k == kept) ok = true;
    } while (!ok && std::next_permutation(perm, perm + NV));
    A(ok, "what goes is what costs at most the threshold");
  }
  sym_cover(gone ? "pruned" : "kept");
}
