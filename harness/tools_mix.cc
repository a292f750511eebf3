// The interpolation tool: models with different vocabularies, two or three of
// them, any order of arguments.
#define NV 4
#include "lm.h"
#include "tool.h"
#include "HashGram.hh"
TOOL(simpleinterpolate2arpa);
#ifndef THREE
#define THREE 0
#endif
static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.9g", x); return b; }
struct Mod { // order 2
  double p1[NV], p2[NV][NV], bo[NV];
  bool has1[NV], has2[NV][NV];
  double p(int h, int w) const { return h < 0 ? p1[w] : has2[h][w] ? p2[h][w] : bo[h] * p1[w]; }
  std::string text() const {
    std::string u, b;
    int n1 = 0, n2 = 0;
    for (int w = 0; w < NV; w++) {
      if (!has1[w]) continue;
      n1++;
      u += num(log10(p1[w])) + " " + WORDS[w] + (bo[w] != 1 ? " " + num(log10(bo[w])) : std::string()) + "\n";
      for (int v = 0; v < NV; v++)
        if (has2[w][v]) n2++, b += num(log10(p2[w][v])) + " " + WORDS[w] + " " + WORDS[v] + "\n";
    }
    return "\\data\\\nngram 1=" + std::to_string(n1) + "\nngram 2=" + std::to_string(n2) + "\n\n\\1-grams:\n" + u + "\n\\2-grams:\n" + b + "\n\\end\\\n";
  }
};
static Mod any(int which) {
  static const double U[3][NV] = {{.2, .5, .3, 0}, {.1, 0, .4, .5}, {.25, .25, 0, .5}};
  static const double V[] = {0, .0625, .25};
  Mod m;
  int un = which;
#ifdef SAMEV
  static const double S[3][NV] = {{.2, .4, .3, .1}, {.1, .1, .3, .5}, {.25, .25, .3, .2}};
  for (int w = 0; w < NV; w++) m.p1[w] = S[un][w];
#else
  for (int w = 0; w < NV; w++) m.p1[w] = U[un][w];
#endif
  for (int w = 0; w < NV; w++) {
    m.has1[w] = m.p1[w] > 0;
    m.bo[w] = 1;
    for (int v = 0; v < NV; v++) m.has2[w][v] = false;
  }
  static const int C[][2] = {{1, 2}, {2, 2}, {2, 3}, {3, 2}};
  for (int i = 0; i < 4; i++) {
    int h = C[i][0], w = C[i][1];
    if (!m.has1[h] || !m.has1[w]) continue;
    int v = sym_fix(sym_int("bigram", 0, which ? 1 : 2)) * (which ? 2 : 1);
    if (v) m.has2[h][w] = true, m.p2[h][w] = V[v];
  }
  for (int h = 0; h < NV; h++) {
    double x = 1, y = 1;
    bool some = false;
    for (int w = 0; w < NV; w++) if (m.has2[h][w]) x -= m.p2[h][w], y -= m.p1[w], some = true;
    if (some) m.bo[h] = x / y;
  }
  return m;
}
extern "C" void sx_main(void) {
  Mod m[3];
  for (int i = 0; i < (THREE ? 3 : 2); i++) m[i] = any(i);
  int n = THREE ? 3 : 2, ord[3] = {0, 1, 2};
  if (sym_fix(sym_int("swap", 0, 1))) ord[0] = 1, ord[1] = 0;
  static const double L[3] = {.5, .25, .875};
  double w[3] = {L[sym_fix(sym_int("weight", 0, 2))], .5, .25}, tot = 0;
  w[1] = THREE ? .25 : 1 - w[0];
  for (int i = 0; i < n; i++) tot += w[i];
  std::string arg;
  for (int i = 0; i < n; i++) {
    std::string f = "m" + std::to_string(i) + ".arpa";
    put(f.c_str(), m[ord[i]].text());
    arg += (i ? ";" : "") + f + "," + num(w[i]);
  }
  tool(app_simpleinterpolate2arpa_main, SV{arg, "out.arpa"});
  NGram *r;
  if (sym_fix(sym_int("tree", 0, 1))) r = new TreeGram; else r = new HashGram_t<int>;
  FILE *f = fopen("out.arpa", "r");
  A(f != NULL, "the tool wrote its output");
  r->read(f, false);
  fclose(f);
  bool some = false;
  for (int i = 0; i < n; i++) for (int h = 0; h < NV; h++) for (int k = 0; k < NV; k++) some = some || m[i].has2[h][k];
  A(r->order() == 2 || !some, "the order");
  int id[NV];
  bool used[NV] = {};
  for (int k = 0; k < NV; k++) {
    id[k] = r->word_index(WORDS[k]);
    for (int i = 0; i < n; i++) used[k] = used[k] || m[ord[i]].has1[k];
    if (used[k]) A(r->word(id[k]) == WORDS[k], "words of every model");
  }
  for (int h = -1; h < NV; h++) {
    if (h >= 0 && !used[h]) continue;
    double sum = 0;
    for (int k = 0; k < NV; k++) {
      if (!used[k]) continue;
      Gr g;
      if (h >= 0) g.push_back(id[h]);
      g.push_back(id[k]);
      double e = pow(10, r->log_prob(g)), want = 0;
      bool in = h < 0;
      sum += e;
      for (int i = 0; i < n; i++) {
        if (h >= 0 && i < 2) in = in || m[ord[i]].has2[h][k]; // (grams of the third alone mix with an approximation)
        want += w[i] / tot * m[ord[i]].p(h, k);
      }
      if (!in) continue;
      A(near_(e, want, 1e-3), "grams of any model carry the mixed probability");
      A(r->last_order() == (h < 0 ? 1 : 2), "grams of any model are kept");
    }
    A(near_(sum, 1, 2e-3), h < 0 ? "single words sum to one" : "every context sums to one");
  }
  sym_cover("mixed");
}
