// The model read from an ARPA text is the model the text describes, whatever
// the order of the lines within a section, by both readers.
#include "lm.h"
#include "HashGram.hh"
#ifndef ORDER
#define ORDER 3
#endif
static std::string num(float x) { char b[40]; snprintf(b, sizeof b, "%.9g", x); return b; }
extern "C" void sx_main(void) {
  LM m(ORDER);
#ifdef SYMV
  lm_any(m, 0);
#else
  lm_any(m, 2);
#endif
  lm_leaves(m);
  int real = lm_order(m);
  int last = real; // how many orders the text has
#ifdef EMPTY
  last = sym_fix(sym_int("orders", 1, ORDER)); // orders without grams at the end
  sym_assume(last > real);
#endif
  bool interp = false;
#ifdef INTERP
  interp = true;
#endif
  int style = sym_fix(sym_int("style", 0, 3)); // how the text is laid out
  const char *sep = style & 1 ? "\t" : " ";
  std::string text;
  if (style == 2) text += "junk before\nngram 1=77\n\n";
  if (interp) text += style & 1 ? "iARPA\n" : "\\interpolated\n";
  text += "\\data\\\n";
  std::string body;
  for (int n = 1; n <= last; n++) {
    SV lines;
    Gr g(n, 0);
    do {
      if (!m.in(g)) continue;
      std::string l = num(m.lp[n][m.at(g)]) + sep;
      for (int i = 0; i < n; i++) l += (i ? std::string(" ") : std::string()) + WORDS[g[i]];
      if (n < last && (style != 3 || m.bo[n][m.at(g)] != 0)) l += sep + num(m.bo[n][m.at(g)]);
      if (style == 2) l = " " + l + " ";
      lines.push_back(l);
    } while (nextgram(g));
    text += "ngram " + std::to_string(n) + (style == 1 ? " = " : "=") + std::to_string(lines.size()) + "\n";
    body += std::string("\n\\") + std::to_string(n) + "-grams:\n";
    if (style == 2) body += "\n";
    // any order of the lines (the first and the last two are free)
    size_t k = lines.size();
    bool swap = k >= 2 && sym_fix(sym_int("swap", 0, 1));
    int rot = k >= 3 ? sym_fix(sym_int("rotate", 0, k > 3 ? 3 : (int)k - 1)) : 0;
    if (swap) std::swap(lines[k - 1], lines[k - 2]);
    std::rotate(lines.begin(), lines.begin() + rot, lines.end());
    for (size_t i = 0; i < k; i++) body += lines[i] + "\n";
  }
  text += body + (style == 1 ? "\\end\\\n" : "\n\\end\\\n");
  FILE *f = hx_file(text);
  NGram *t;
  bool tree = sym_fix(sym_int("tree", 0, 1));
  if (tree) t = new TreeGram;
  else t = new HashGram_t<int>;
  t->read(f);
  fclose(f);
  A(t->order() >= real && t->order() <= last, "the order");
  A(t->num_words() == NV, "the number of words");
  A((t->get_type() == NGram::INTERPOLATED) == interp, "the type");
  int w[NV];
  for (int i = 0; i < NV; i++) {
    w[i] = t->word_index(WORDS[i]);
    A(w[i] >= 0 && w[i] < NV && t->word(w[i]) == WORDS[i], "the vocabulary");
  }
  A(w[0] == 0, "the unknown word is index 0");
  m.order = real;
  for (int n = 1; n <= ORDER; n++) {
    Gr g(n, 0);
    do {
      Gr h(n);
      for (int i = 0; i < n; i++) h[i] = w[g[i]];
      if (interp) A(same_p(pow(10, t->log_prob(h)), m.i_p(g), 1e-3), "the probability of every gram (interpolated)");
      else A(near_(t->log_prob(h), m.bo_lp(g), 1e-3), "the probability of every gram");
    } while (nextgram(g));
  }
  sym_cover(tree ? "tree" : "hash");
  if (last == ORDER) sym_cover("full order");
}
