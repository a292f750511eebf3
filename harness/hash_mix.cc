// The single model standing for a mixture: the grams of either model carry the
// mixed probability and every context sums to one.
#include "lm.h"
#include "HashGram.hh"
#ifdef SHORTK
#define KT unsigned short
#else
#define KT int
#endif
#ifndef ORDER
#define ORDER 2
#endif
#ifndef NB
#define NB 3
#endif
static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.9g", x); return b; }
static const double U[4][NV] = {{0.25, 0.25, 0.5}, {0.125, 0.75, 0.125}, {0.5, 0.375, 0.125}, {0.25, 0.5, 0}};
static const double PV[2][4] = {{0, 0.0625, 0.25, 0.375}, {0, 0.125, 0.3125, 0.0625}};
static int nsum;
// a normalised back-off model over NV words with any set of candidate grams
struct Mod {
  int order;
  std::vector<double> p[4], b[4];
  std::vector<char> has[4];
  int at(const Gr &g, size_t from, size_t to) const { int x = 0; for (size_t i = from; i < to; i++) x = x * NV + g[i]; return x; }
  double score(const Gr &g, size_t s = 0) const {
    if (g.size() - s > (size_t)order) s = g.size() - order;
    double r = 1;
    for (; s + 1 < g.size(); s++) {
      size_t n = g.size() - s;
      if (has[n][at(g, s, g.size())]) return r * p[n][at(g, s, g.size())];
      r *= b[n - 1][at(g, s, g.size() - 1)];
    }
    return r * p[1][g.back()];
  }
  void norm(int n) { // the weights of the contexts of length n
    Gr h(n, 0);
    do {
      double x = 1, y = 1;
      Gr g = h;
      g.push_back(0);
      for (int w = 0; w < NV; w++) { g[n] = w; if (has[n + 1][at(g, 0, n + 1)]) { x -= p[n + 1][at(g, 0, n + 1)]; y -= score(g, 1); } }
      b[n][at(h, 0, n)] = x / y;
    } while (nextgram(h));
  }
  Mod(int which, int o) : order(o) {
    int k = 1;
    for (int n = 1; n <= 3; n++) { k *= NV; p[n].assign(k, 0); b[n].assign(k, 1); has[n].assign(k, 0); }
    int un = which ? sym_fix(sym_int("unigrams", 0, 2)) : (nsum ? 3 : 0);
    for (int w = 0; w < NV; w++) p[1][w] = U[un][w], has[1][w] = U[un][w] > 0;
    for (int i = 0; i < NB && o >= 2; i++) {
      int v = sym_fix(sym_int("bigram", 0, which ? 2 : 3));
      if (v) p[2][C2[i][0] * NV + C2[i][1]] = PV[which][v], has[2][C2[i][0] * NV + C2[i][1]] = 1;
    }
    if (o >= 2) norm(1);
    for (int i = 0; i < 2 && o >= 3; i++) {
      const int *c = C3[which ? 1 - i : i * 3];
      if (!has[2][c[0] * NV + c[1]] || !sym_fix(sym_int("trigram", 0, 1))) continue;
      int x = (c[0] * NV + c[1]) * NV + c[2];
      p[3][x] = PV[which][3 - i]; has[3][x] = 1;
    }
    if (o >= 3) norm(2);
  }
  HashGram_t<KT> *make() const {
    std::string head = "\\data\\\n", body;
    for (int n = 1; n <= order; n++) {
      int k = 0;
      Gr g(n, 0);
      body += "\n\\" + std::to_string(n) + "-grams:\n";
      do {
        int x = at(g, 0, n);
        if (!has[n][x] && n > 1) continue;
        k++;
        body += (has[n][x] ? num(log10(p[n][x])) : std::string("-99")) + " ";
        for (int i = 0; i < n; i++) body += (i ? " " : "") + std::string(WORDS[g[i]]);
        if (n < order && b[n][x] != 1) body += " " + num(log10(b[n][x]));
        body += "\n";
      } while (nextgram(g));
      head += "ngram " + std::to_string(n) + "=" + std::to_string(k) + "\n";
    }
    FILE *f = hx_file(head + body + "\n\\end\\\n");
    HashGram_t<KT> *t = new HashGram_t<KT>;
    for (int i = 1; i < NV; i++) t->add_word(WORDS[i]);
    if (nsum) t->add_word("none"); // a word without probability
    t->read(f);
    fclose(f);
    return t;
  }
};
extern "C" void sx_main(void) {
#ifdef NSUM
  nsum = 1;
#endif
  int o1 = ORDER, o2 = ORDER;
#ifdef DIFF
  (sym_fix(sym_int("first shorter", 0, 1)) ? o1 : o2)--;
#endif
  Mod a(0, o1), b(1, o2);
  HashGram_t<KT> *t = a.make(), *s = b.make();
#ifdef SYMW
  double l = sym_real("weight", 0.0625, 0.9375);
#else
  double l = 0.125 * (1 + 3 * sym_fix(sym_int("weight", 0, 2)));
#endif
  t->fake_interpolate(*s, (float)l);
  A(t->order() == ORDER, "the order is the larger of the two");
  NGram *r = t;
#ifdef READ
  FILE *f = tmpfile();
  t->write(f);
  rewind(f);
  if (sym_fix(sym_int("tree", 0, 1))) r = new TreeGram; else r = new HashGram_t<KT>;
  r->read(f);
#endif
  for (int n = 1; n <= ORDER; n++) {
    Gr h(n - 1, 0);
    do {
      double sum = 0;
      Gr g = h, q(n);
      g.push_back(0);
      for (int w = 0; w < NV; w++) {
        g[n - 1] = w;
        for (int i = 0; i < n; i++) q[i] = r->word_index(WORDS[g[i]]);
        double e = pow(10, r->log_prob(q));
        sum = sum + e;
        bool in = (n <= o1 && a.has[n][a.at(g, 0, n)]) || (n <= o2 && b.has[n][b.at(g, 0, n)]);
        if (!in || (n == 1 && nsum)) continue;
        A(near_(e, l * a.score(g) + (1 - l) * b.score(g), 1e-3), "grams of either model carry the mixed probability");
        A(r->last_order() == n, "grams of either model are kept");
      }
      A(near_(sum, 1, 2e-3), n == 1 ? "single words sum to one" : "every context sums to one");
    } while (n > 1 && nextgram(h));
  }
  for (int n = 1; n <= o2; n++) { // the other model is only read
    Gr g(n, 0), q(n);
    do {
      for (int i = 0; i < n; i++) q[i] = s->word_index(WORDS[g[i]]);
      if (b.has[1][g.back()]) A(near_(s->log_prob(q), log10(b.score(g)), 1e-4), "the second model is as before");
    } while (nextgram(g));
  }
  sym_cover("mixed");
}
