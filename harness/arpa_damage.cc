// An ARPA text with one line deleted, repeated, moved, inserted or changed: what
// still describes the same model is read as that model, anything else refused.
#define SHORTW
#include "lm.h"
#include "HashGram.hh"
#ifndef KIND
#define KIND 0
#endif
#ifndef L
#define L 4
#endif
static const char *GOOD[] = {
    "\\data\\", "ngram 1=3", "ngram 2=2", "ngram 3=1", "", "\\1-grams:", "-1 <UNK> -0.5", "-1.5 a -0.75", "-1.25 b -0.25", "",
    "\\2-grams:", "-0.5 a b -0.125", "-0.625 b a", "", "\\3-grams:", "-0.25 a b a", "", "\\end\\"};
#define NL 18
static bool blank(const std::string &s) { return s.find_first_not_of(" \t") == std::string::npos; }
// the lines that say something, those of an order sorted, from the start mark to the end mark
static SV canon(const SV &l) {
  SV r, sec;
  size_t i = 0;
  while (i < l.size() && l[i] != "\\data\\") i++;
  bool grams = false, end = false;
  for (; i < l.size() && !end; i++) {
    if (blank(l[i])) continue;
    if (l[i][0] == '\\') {
      std::sort(sec.begin(), sec.end());
      r.insert(r.end(), sec.begin(), sec.end());
      sec.clear();
      if (l[i] != "\\data\\") grams = true;
      end = l[i] == "\\end\\";
      r.push_back(l[i]);
    } else if (grams) sec.push_back(l[i]);
    else r.push_back(l[i]);
  }
  r.insert(r.end(), sec.begin(), sec.end());
  return r;
}
extern "C" void sx_main(void) {
  SV good(GOOD, GOOD + NL), l = good;
  bool tree = sym_fix(sym_int("tree", 0, 1));
  bool ok = true;
  LM m(3);
  Gr g(1);
  static const float P[] = {-1, -1.5, -1.25}, B[] = {-0.5, -0.75, -0.25};
  for (int w = 0; w < 3; w++) { g[0] = w; m.has[1][w] = 1; m.lp[1][w] = P[w]; m.bo[1][w] = B[w]; }
  m.has[2][1 * NV + 2] = 1; m.lp[2][1 * NV + 2] = -0.5; m.bo[2][1 * NV + 2] = -0.125;
  m.has[2][2 * NV + 1] = 1; m.lp[2][2 * NV + 1] = -0.625;
  int tri = (1 * NV + 2) * NV + 1;
  bool lax = false; // may be refused or read as it is without the damage
  bool known = true; // whether it is decided that the text is good or bad
#if KIND == 0 // lines deleted, repeated or exchanged
  int how = sym_fix(sym_int("how", 0, 2)), k = sym_fix(sym_int("line", 0, NL - 1));
  if (how == 0) l.erase(l.begin() + k);
  if (how == 1) l.insert(l.begin() + k, l[k]);
  if (how == 2) {
    int j = sym_fix(sym_int("other", 0, NL - 1));
    // (a gram line may be well-formed in another order; what it means there is not decided here)
    std::swap(l[k], l[j]);
    if (l[k][0] == '-' && l[j][0] == '-') sym_assume(canon(l) == canon(good));
  }
  ok = canon(l) == canon(good);
#elif KIND == 1 // any short line more
  int k = sym_fix(sym_int("line", 0, NL));
  std::string x = hx_str("length", 1, L, "-1 \\ab", true);
  l.insert(l.begin() + k, x);
  ok = canon(l) == canon(good);
  lax = !ok && x[0] == '\\'; // (unknown commands after the counts are passed over)
#elif KIND == 2 // the counts and the numbers of the orders
  int o = sym_fix(sym_int("order", 1, 3)), c = sym_fix(sym_int("count", -1, 4)), n = sym_fix(sym_int("number", 0, 12));
  if (sym_fix(sym_int("section", 0, 1))) l[o == 1 ? 5 : o == 2 ? 10 : 14] = "\\" + std::to_string(n) + "-grams:", ok = n == o;
  else l[o] = "ngram " + std::to_string(n) + "=" + std::to_string(c), ok = n == o && c == (int)(4 - o);
#elif KIND == 3 // any trigram
  int w[3];
  std::string t = "-0.25";
  static const char *X[] = {"<UNK>", "a", "b", "c"};
  bool newword = false;
  for (int i = 0; i < 3; i++) { w[i] = sym_fix(sym_int("word", 0, 3)); t += std::string(" ") + X[w[i]]; newword |= w[i] == 3; }
  l[15] = t;
  bool prefix = (w[0] == 1 && w[1] == 2) || (w[0] == 2 && w[1] == 1);
  ok = prefix && !newword;
  known = tree; // the hash model needs no prefixes
  if (!newword) tri = (w[0] * NV + w[1]) * NV + w[2];
  else tri = -1;
#else // a gram line with any characters after the score
  int o = sym_fix(sym_int("order", 1, 3));
  std::string x = hx_str("length", 0, L, " ab\t.", true);
  l[o == 1 ? 8 : o == 2 ? 11 : 15] = "-0.25 " + x;
  int f = 0;
  for (size_t i = 0; i < x.size(); i++) f += (x[i] != ' ' && x[i] != '\t') && (i == 0 || x[i - 1] == ' ' || x[i - 1] == '\t');
  ok = false;
  known = f != o && f != o + 1; // too few or too many columns
#endif
  if (tri >= 0) { m.has[3][tri] = 1; m.lp[3][tri] = -0.25; }
  std::string text;
  for (size_t i = 0; i < l.size(); i++) text += l[i] + "\n";
  NGram *t2;
  if (tree) t2 = new TreeGram;
  else t2 = new HashGram_t<int>;
  FILE *f2 = hx_file(text);
  if (!known || !ok) { sym_exit_ok(1); sym_cover("refused"); }
  try {
    t2->read(f2);
  } catch (std::exception &e) {
    A(!known || !ok, "a good model is read");
    return;
  } catch (...) {
    A(!known || !ok, "a good model is read");
    return;
  }
  A(!known || ok || lax, "a malformed model is refused");
  if (KIND == 4 || tri < 0) return;
  A(t2->order() == 3, "the order");
  for (int n = 1; n <= 3; n++) {
    Gr g(n, 0), h(n);
    do {
      for (int i = 0; i < n; i++) h[i] = t2->word_index(WORDS[g[i]]);
      A(near_(t2->log_prob(h), m.bo_lp(g), 1e-4), "the model read is the one described");
    } while (nextgram(g));
  }
  sym_cover("accepted");
}
