// The conversion tools: whatever the formats a model goes through, it scores
// the same.
#include "lm.h"
#include "tool.h"
#include "HashGram.hh"
TOOL(arpa2bin);
TOOL(bin2arpa);
TOOL(arpa2arpa);
TOOL(arpasize);
#ifndef ORDER
#define ORDER 3
#endif
static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.9g", x); return b; }
static NGram *load(const char *name, bool bin, bool hash) {
  NGram *t;
  if (hash) t = new HashGram_t<int>;
  else t = new TreeGram;
  FILE *f = fopen(name, "r");
  A(f != NULL, "the tool wrote its output");
  t->read(f, bin);
  fclose(f);
  return t;
}
extern "C" void sx_main(void) {
  LM m(ORDER);
  lm_any(m, 2);
  lm_leaves(m);
  int real = lm_order(m);
  bool interp = sym_fix(sym_int("interpolated", 0, 1));
  std::string head, body;
  int count[5] = {0}, kept[5] = {0};
  for (int n = 1; n <= real; n++) {
    body += "\n\\" + std::to_string(n) + "-grams:\n";
    Gr g(n, 0);
    do {
      if (!m.in(g)) continue;
      count[n]++;
      body += num(m.lp[n][m.at(g)]) + " ";
      for (int i = 0; i < n; i++) body += (i ? " " : "") + std::string(WORDS[g[i]]);
      if (m.bo[n][m.at(g)] != 0) body += " " + num(m.bo[n][m.at(g)]);
      body += "\n";
    } while (nextgram(g));
    head += "ngram " + std::to_string(n) + "=" + std::to_string(count[n]) + "\n";
  }
  put("in.arpa", std::string(interp ? "\\interpolated\n" : "") + "\\data\\\n" + head + body + "\n\\end\\\n");
  m.order = real;
  const char *last = "in.arpa";
  bool bin = false, tabs = false;
#ifdef SIZE
  bool simple = sym_fix(sym_int("simple", 0, 1));
  bool ab = !simple && sym_fix(sym_int("binary", 0, 1));
  if (ab) tool(app_arpa2bin_main, SV{"in.arpa", "m.bin"});
  SV a;
  if (simple) a.push_back("-S");
  if (!ab) a.push_back(sym_fix(sym_int("long option", 0, 1)) ? "--arpa" : "-a");
  a.push_back(ab ? "m.bin" : "in.arpa");
  a.push_back("size.txt");
  sym_assume(!interp || simple || ab);
  tool(app_arpasize_main, a);
  // the grams that say more than the shorter ones do
  int tot = 0;
  std::string want;
  for (int n = 1; n <= real; n++) {
    Gr g(n, 0);
    do {
      if (!m.in(g)) continue;
      Gr s(g.begin() + 1, g.end());
      double p = interp ? log10(m.i_p(g)) : m.bo_lp(g);
      bool more = n == 1 || m.bo[n][m.at(g)] < -1e-6;
      if (!more) {
        double q = interp ? log10(m.i_p(s)) : m.bo_lp(s), d = fabs((p - q) / p);
        sym_assume(d < 0.0049 || d > 0.0051);
        more = d >= 0.005;
      }
      kept[n] += simple || more;
    } while (nextgram(g));
    tot += kept[n];
    want += std::to_string(n) + "-grams: " + std::to_string(kept[n]) + "\n";
  }
  // the numbers, in order, whatever stands around them
  std::string got = get("size.txt"), gn, wn;
  want += "total " + std::to_string(tot) + "\n";
  for (char c : got) gn += isdigit(c) ? c : ' ';
  for (char c : want) wn += isdigit(c) ? c : ' ';
  std::vector<int> gv, wv;
  for (int k = 0; k < 2; k++) {
    const std::string &s = k ? wn : gn;
    for (size_t i = 0; i < s.size(); i++)
      if (s[i] != ' ') {
        int x = 0;
        while (i < s.size() && s[i] != ' ') x = x * 10 + (s[i++] - '0');
        (k ? wv : gv).push_back(x);
      }
  }
  A(gv == wv, "the numbers of grams");
  sym_cover(simple ? "simple" : ab ? "binary" : "text");
  return;
#endif
#ifdef CHAIN
  int c = sym_fix(sym_int("chain", 0, 3));
#else
  int c = 4;
#endif
  if (c == 0 || c == 4) { // to binary, and back
    tool(app_arpa2bin_main, SV{"in.arpa", "m.bin"});
    last = "m.bin";
    bin = true;
    if (sym_fix(sym_int("back", 0, 1))) {
      tool(app_bin2arpa_main, SV{"m.bin", "out.arpa"});
      last = "out.arpa";
      bin = false;
      sym_cover("and back");
    }
  } else {
    tabs = c == 2;
    SV a;
    if (tabs) a.push_back("-t");
    a.push_back("in.arpa");
    a.push_back("out.arpa");
    tool(app_arpa2arpa_main, a);
    last = "out.arpa";
    if (c == 3) {
      tool(app_arpa2bin_main, SV{"out.arpa", "m.bin"});
      tool(app_bin2arpa_main, SV{"m.bin", "out2.arpa"});
      last = "out2.arpa";
    }
    if (tabs) {
      std::string s = get(last);
      size_t p = s.find("-grams:"), e = s.find('\n', p + 8);
      A(s.find('\t', p) < e, "tabs between the fields");
    }
  }
  NGram *t = load(last, bin, !bin && sym_fix(sym_int("hash", 0, 1)));
  A(t->get_type() == NGram::BACKOFF, "what the tools write is a back-off model");
  A(t->order() == real, "the order");
  A(t->num_words() == NV, "the number of words");
  int w[NV];
  for (int i = 0; i < NV; i++) {
    w[i] = t->word_index(WORDS[i]);
    A(t->word(w[i]) == WORDS[i], "the vocabulary");
  }
  for (int n = 1; n <= ORDER; n++) {
    Gr g(n, 0);
    do {
      Gr h(n);
      for (int i = 0; i < n; i++) h[i] = w[g[i]];
      if (interp) A(same_p(pow(10, t->log_prob(h)), m.i_p(g), 1e-3), "the probability of every gram (interpolated)");
      else A(near_(t->log_prob(h), m.bo_lp(g), 1e-3), "the probability of every gram");
      if (m.in(g)) A(t->last_order() == n, "every gram is kept");
    } while (nextgram(g));
  }
  sym_cover(interp ? "interpolated" : "backoff");
}
