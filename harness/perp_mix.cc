// Scoring with two models: every token gets the weighted sum of the two
// models' probabilities, whichever model has the larger order, whenever the
// weight is given, and for words only one of the models has.
#include "hx.h"
#include "PerplexityFuncs.hh"
#ifndef HASH
#define HASH 1
#endif
#ifndef LEN
#define LEN 3
#endif
#ifndef ORDA
#define ORDA 1
#endif
#ifndef ORDB
#define ORDB 2
#endif
#ifndef BEFORE
#define BEFORE 0 // the weight is given before the second model
#endif
#ifdef APP
#include "tool.h"
TOOL(perplexity);
#endif
static const char *VA[] = {"<UNK>", "a", "b", "c"}, *VB[] = {"<UNK>", "b", "d", "a"};
struct M {
  const char **v;
  int order;
  float lp[4], bo[4], lp2[4][4];
  bool has[4][4];
  int id(const std::string &w) { for (int i = 1; i < 4; i++) if (w == v[i]) return i; return 0; }
  double p(const std::string *prev, const std::string &w, bool known_other) {
    int i = id(w);
    double u = i == 0 && w != "<UNK>" && known_other ? 1e-60 : pow(10, lp[i]);
    if (!prev || order == 1) return u;
    int h = id(*prev);
    bool gone = h == 0 && *prev != "<UNK>";
    if (gone) return u; // set by the caller when the word is in neither model
    if (!(i == 0 && w != "<UNK>" && known_other) && has[h][i]) return pow(10, lp2[h][i]);
    return pow(10, bo[h]) * u;
  }
};
static void make(M &m, const char **v, int order, int s, const char *name) {
  m.v = v;
  m.order = order;
  FILE *f = fopen(name, "w");
  int n2 = 0;
  for (int i = 0; i < 4; i++) {
    m.lp[i] = -(float)((i * 3 + s) % 5 + 2) / 8;
    m.bo[i] = order == 2 && i != 2 ? -(float)((i + s) % 3 + 1) / 16 : 0;
    for (int j = 0; j < 4; j++) {
      m.has[i][j] = order == 2 && i != 2 && (i * 2 + j + s) % 3 == 0;
      m.lp2[i][j] = -(float)((i + j * 3 + s) % 7 + 1) / 8;
      n2 += m.has[i][j];
    }
  }
  fprintf(f, "\\data\\\nngram 1=4\n");
  if (order == 2) fprintf(f, "ngram 2=%d\n", n2);
  fprintf(f, "\n\\1-grams:\n");
  for (int i = 0; i < 4; i++) fprintf(f, "%g %s %g\n", m.lp[i], v[i], m.bo[i]);
  if (order == 2) {
    fprintf(f, "\n\\2-grams:\n");
    for (int i = 0; i < 4; i++)
      for (int j = 0; j < 4; j++) if (m.has[i][j]) fprintf(f, "%g %s %s\n", m.lp2[i][j], v[i], v[j]);
  }
  fprintf(f, "\n\\end\\\n");
  fclose(f);
}
extern "C" void sx_main(void) {
  M a, b;
  make(a, VA, ORDA, 0, "a.arpa");
  make(b, VB, ORDB, 2, "b.arpa");
  const char *T[] = {"a", "b", "c", "d", "zz"};
#ifdef APP
  // the tool; its weight is that of the second model
  static const char *NUM[] = {NULL, "0", "0.25", "0.5", "0.9", "1"};
  int wi = sym_fix(sym_int("weight", 0, 5)), how = sym_fix(sym_int("reader", 0, 2));
  double w = wi ? 1 - atof(NUM[wi]) : 0.5;
  std::string text;
  std::vector<std::string> tok;
  for (int i = 0; i < LEN; i++) {
    tok.push_back(T[sym_fix(sym_int("token", 0, 4))]);
    text += tok.back() + (i % 2 ? "\n" : " ");
  }
  put("text.txt", text);
  SV args;
  args.push_back("-a"); args.push_back("a.arpa");
  args.push_back("-i"); args.push_back("b.arpa");
  if (wi) { args.push_back("-I"); args.push_back(NUM[wi]); }
  if (how) args.push_back("-f");
  if (how > 1) args.push_back("-s");
  args.push_back("-S"); args.push_back("stream.txt");
  args.push_back("text.txt");
  args.push_back("res.txt");
  tool(app_perplexity_main, args);
  std::string l = get("stream.txt");
  size_t at = 0;
  double all = 0;
  int scored = 0;
#else
  float w = sym_float("weight", 0, 1);
  Perplexity p("a.arpa", 0, "", "", "", "", HASH, true);
  p.set_unk_warn(false);
  if (BEFORE) p.set_alpha(w);
  p.set_interpolation("b.arpa");
  if (!BEFORE) p.set_alpha(w);
#endif
  std::string prev, w0;
  for (int i = 0; i < LEN; i++) {
#ifdef APP
    w0 = tok[i];
    A(l.compare(at, w0.size(), w0) == 0, "the stream names every token");
    double lp = log10(strtod(l.c_str() + at + w0.size(), 0));
    at = l.find('\n', at) + 1;
#else
    w0 = T[sym_fix(sym_int("token", 0, 4))];
    float lp = p.token_logprob(w0.c_str());
#endif
    bool any = a.id(w0) || b.id(w0), pany = i && (a.id(prev) || b.id(prev));
    std::string unk = "<UNK>", *h = i ? (pany ? &prev : &unk) : 0;
    if (!any) { A(lp == 0, "words neither model has are dropped"); sym_cover("dropped"); }
    else {
      double q = w * a.p(h, w0, true) + (1 - w) * b.p(h, w0, true);
#ifdef APP
      all += lp;
      scored++;
      A(same_p(pow(10, lp), q, 1e-3), "a token gets the weighted sum of the probabilities");
#else
      A(same_p(pow(10, lp), q, 1e-3), "a token gets the weighted sum of the probabilities");
#endif
      sym_cover(a.id(w0) && b.id(w0) ? "in both" : "in one");
    }
    prev = w0;
  }
#ifdef APP
  std::string r = get("res.txt");
  const char *x = strstr(r.c_str(), "\nLogprob ");
  A(x && near_(atof(x + 9), all, 1e-2), "the log-probability printed");
  x = strstr(r.c_str(), "Processed: ");
  A(x && atoi(x + 11) == scored, "the words printed");
#endif
}
