// Scoring a text: which tokens are scored, with which history, and how words,
// unknown words, context cues and sentence ends are counted.
#include "hx.h"
#include "PerplexityFuncs.hh"
#include "TreeGram.hh"
#include "InterTreeGram.hh"
#include <deque>
#ifndef LEN
#define LEN 4
#endif
#ifndef MODE
#define MODE 0 // 0 every token a word, 1 word break symbols, 2 postfixes, 3 prefixes
#endif
#ifndef SKIP
#define SKIP 1
#endif
#ifndef CUES
#define CUES 0
#endif
#ifndef INIT
#define INIT 0
#endif
#ifndef SENT
#define SENT 0 // read as one sentence, not as a file
#endif
#ifndef SYMV
#define SYMV 1
#endif
#ifndef ORD
#define ORD 2
#endif
#ifdef APP
#include "tool.h"
TOOL(perplexity);
#endif
#ifdef LONGM
#define MK "+#"
#else
#define MK "+"
#endif
#ifdef OOVALT // another name of the unknown word
#define OOVW "[oov]"
#else
#define OOVW "<UNK>"
#endif
static const char *V0[] = {OOVW, "a", "b" MK, "<w>", "<s>", "</s>"}, *V3[] = {OOVW, "a", MK "b", "<w>", "<s>", "</s>"};
static const char **V = MODE == 3 ? V3 : V0;
static float lp1[6], bo1[6], lp2[6][6], bo2[6][6], lp3[6][6][6];
static bool has2[6][6], has3[6][6][6];
static int bi[][2] = {{1, 2}, {4, 1}, {1, 5}, {2, 1}, {0, 1}, {3, 1}}, tri[][3] = {{4, 1, 2}, {1, 2, 1}, {2, 1, 5}};
static float val(const char *n, int k, float lo, float hi) { return SYMV ? sym_float(n, lo, hi) : lo + (hi - lo) * (float)(k % 16) / 16; }
static double score(const std::vector<int> &h, int *hit) { // the longest stored ending, plus the weights of the longer contexts
  int n = (int)h.size();
  double r = 0;
#if ORD == 3
  if (n >= 3 && has2[h[n - 3]][h[n - 2]]) {
    if (has3[h[n - 3]][h[n - 2]][h[n - 1]]) { *hit = 3; return lp3[h[n - 3]][h[n - 2]][h[n - 1]]; }
    r += bo2[h[n - 3]][h[n - 2]];
  }
#endif
  if (n >= 2) {
    if (has2[h[n - 2]][h[n - 1]]) { *hit = 2; return r + lp2[h[n - 2]][h[n - 1]]; }
    r += bo1[h[n - 2]];
  }
  *hit = 1;
  return r + lp1[h[n - 1]];
}
static bool ends(const std::string &s, const char *e) { size_t n = strlen(e); return s.size() >= n && s.substr(s.size() - n) == e; }
static bool starts(const std::string &s, const char *e) { return s.compare(0, strlen(e), e) == 0; }
extern "C" void sx_main(void) {
  std::shared_ptr<TreeGram> t(new TreeGram);
  t->set_oov(V[0]);
  for (int w = 1; w < 6; w++) t->add_word(V[w]);
  t->reserve_nodes(4);
  std::deque<int> g(1);
  for (int w = 0; w < 6; w++) {
    g[0] = w;
    lp1[w] = val("lp", w, -4, -0.5); bo1[w] = val("bo", w + 3, -2, 0);
#ifdef APP
    if (w == 5) bo1[w] = 0; // (no weights without continuations: text models do not carry them)
#endif
    t->add_gram(g, lp1[w], bo1[w]);
  }
  g.resize(2);
  for (int i = 0; i < 6; i++)
    for (int j = 0; j < 6; j++)
      for (int k = 0; k < 6; k++)
        if (bi[k][0] == i && bi[k][1] == j) {
          has2[i][j] = true;
          lp2[i][j] = val("lp", k * 5 + 1, -4, -0.5);
          bo2[i][j] = ORD == 3 && (SYMV || k < 2 || k == 3) ? val("bo", k * 3, -2, 0) : 0;
          g[0] = i; g[1] = j;
          t->add_gram(g, lp2[i][j], bo2[i][j]);
        }
#if ORD == 3
  g.resize(3);
  for (int i = 0; i < 6; i++)
    for (int j = 0; j < 6; j++)
      for (int l = 0; l < 6; l++)
        for (int k = 0; k < 3; k++)
          if (tri[k][0] == i && tri[k][1] == j && tri[k][2] == l) {
            has3[i][j][l] = true;
            lp3[i][j][l] = val("lp", k * 7 + 2, -4, -0.5);
            g[0] = i; g[1] = j; g[2] = l;
            t->add_gram(g, lp3[i][j][l], 0);
          }
#endif
  t->finalize();
  FILE *f = fopen("marks.txt", "w");
  fputs(MODE == 1 ? "<w>\n</s>\n" : MODE == 2 ? MK "$\n" : "^" MK "\n^<s>\n", f);
  fclose(f);
  f = fopen("cues.txt", "w");
  fputs("<s>\n", f);
  fclose(f);
#define SETUP(p) \
  Perplexity p(t, CUES ? "cues.txt" : "", MODE == 1 ? "marks.txt" : "", MODE > 1 ? "marks.txt" : "", V[0][0] == '<' ? "" : V[0], SKIP); \
  p.set_unk_warn(false); \
  if (INIT) p.set_init_hist(INIT);
#ifdef APP
  int fmt = sym_fix(sym_int("model format", 0, 3)); // text, binary, text without prefixes needed (also short indices)
  f = fopen("model", "w");
  t->write(f, fmt == 1);
  fclose(f);
#elif defined BINFILE
  f = fopen("model", "w");
  t->write(f, true);
  fclose(f);
  Perplexity p("model");
#else
  SETUP(p)
#endif
  // the text; tokens the model does not know are marked by their form too
  const char *T[] = {V[1], V[2], V[3], V[4], V[5], "xx", MODE == 3 ? MK "xx" : "xx" MK, "+", "#"};
  SV text;
  std::string s;
  for (int i = 0; i < LEN; i++) {
    text.push_back(T[sym_fix(sym_int("token", 0, MODE > 1 ? (sizeof MK > 2 ? 8 : 6) : 5))]);
    s += (i == 0 ? "" : i % 2 ? " " : SENT ? "\t" : "\n") + text[i];
  }
  if (SENT ? sym_fix(sym_int("newline", 0, 1)) : 1) s += "\n";
  // by definition
  std::vector<int> h;
  int init = INIT, ptok = 0, pw = 0, cue = 0, unkt = 0, unkw = 0, se = 0, hits[4] = {0, 0, 0, 0};
  double each[LEN];
  for (int i = 0; i < LEN; i++) each[i] = 0;
  double all = 0, words = 0, part = 0, rem = 0;
  bool bad = false, first = false, known = false;
  int parts = 0;
  for (int i = 0; i < LEN; i++) {
    int w = 0, hit = 0;
    for (int k = 1; k < 6; k++) if (text[i] == V[k]) w = k;
    if (INIT && init == INIT) h.clear(); // a new sentence
    bool end = MODE == 0 || (MODE == 1 && (w == 3 || w == 5)) || (MODE == 2 && !ends(text[i], MK)) ||
               (MODE == 3 && !starts(text[i], MK) && text[i] != "<s>");
    if (init > 0) { // known beforehand
      init--;
      h.push_back(w);
      if (w != 4 && end) pw++; // a break met here counts as a word
      continue;
    }
    if (text[i] == "</s>") { init = INIT; se++; }
    if (!w) {
      unkt++;
      if (SKIP) { h.push_back(0); }
    }
    if (w == 4 && CUES) { cue++; h.push_back(w); continue; }
    double lp = 0;
    if (w || !SKIP) {
      h.push_back(w);
      lp = score(h, &hit);
      hits[hit]++;
      hits[0]++;
      ptok++;
      all += lp;
      each[i] = lp;
    }
    // which words are dropped here is known not to be right
    bool odd = MODE == 3 ? !w && starts(text[i], MK) && (SKIP || bad) : MODE == 2 && !w && end && parts && (SKIP || bad);
#ifdef KNOWN
    known |= odd;
#else
    if (odd) sym_stop();
#endif
    if (MODE == 3) { // a token without the prefix starts a word
      words += lp;
      rem += lp;
      if (end) rem = 0;
      if (end) { // the one before is complete
        if (bad && !first) unkw++;
        if (w || !SKIP) pw++;
        bad = first = !w;
        if (!w) unkw++;
      } else if (!w) bad = true;
      continue;
    }
    part += lp;
    parts++;
    if (!w) bad = true;
    if (end) { // the word is complete
      if (bad) unkw++;
      if (!bad || !SKIP) { pw++; words += part; }
      part = 0;
      parts = 0;
      bad = false;
    }
  }
#ifdef KNOWN
  if (!known) sym_stop();
#endif
  words += part;
  rem += part;
#ifndef APP
  // as computed
  if (SENT) {
    float r = p.sentence_logprob(s.c_str());
    A(near_(r, -all, 1e-4), "the score of a sentence is that of its tokens");
    A(p.processed_tokens() == ptok, "the tokens scored");
    A(p.processed_words() == pw, "the words counted");
    sym_cover("sentence");
    return;
  }
#endif
  f = fopen("text.txt", "w");
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
  f = fopen("text.txt", "r");
#ifdef APP
  fclose(f);
  SV a;
  a.push_back(fmt == 1 ? "-A" : "-a");
  a.push_back("model");
  if (fmt >= 2) a.push_back("-f");
  if (fmt == 3) a.push_back("-s");
  if (V[0][0] != '<') a.push_back("-u"), a.push_back(V[0]);
  if (CUES) a.push_back("-C"), a.push_back("cues.txt");
  if (MODE) a.push_back(MODE == 1 ? "-W" : "-X"), a.push_back("marks.txt");
  if (!SKIP) a.push_back("-o");
  if (INIT) a.push_back("-t"), a.push_back(std::to_string(INIT));
  a.push_back("--probstream=stream.txt");
  a.push_back("text.txt");
  a.push_back("res.txt");
  tool(app_perplexity_main, a);
  FILE *o = fopen("stream.txt", "r");
  A(o != NULL, "the tool wrote the stream");
#else
  FILE *o = SYMV ? NULL : tmpfile();
#ifdef INTERVAL
  double r = p.logprob_file(f, o, INTERVAL);
#else
  double r = p.logprob_file(f, o);
#endif
  A(near_(r, all, 1e-4), "the log-probability of a text is that of its tokens");
  A(p.processed_tokens() == ptok, "the tokens scored");
  A(p.processed_words() == pw, "the words counted");
  A(p.get_num_tunks() == (MODE ? unkt : 0), "the unknown tokens");
  for (int k = 0; k <= ORD; k++) A(p.get_hitorder(k) == hits[k], "the n-gram hits of every order");
#endif
#ifdef INTERVAL
  if (o) { // the sum over every so many tokens, to the base of two
    std::string l = hx_slurp(o);
    size_t at = 0;
    for (int i = 0; i + INTERVAL <= LEN; i += INTERVAL) {
      double want = 0;
      for (int k = i; k < i + INTERVAL; k++) want += each[k];
      A(at < l.size() && near_(strtod(l.c_str() + at, 0) * log10(2.0), want, 1e-3), "the stream gives the sums of the interval");
      at = l.find('\n', at) + 1;
    }
    A(at == l.size(), "the stream has a line per interval");
    o = NULL;
  }
#endif
  if (o) { // one line per token: the token and its probability
    std::string l = hx_slurp(o);
    size_t at = 0;
    double sum = 0;
    for (int i = 0; i < LEN; i++) {
      A(l.compare(at, text[i].size(), text[i]) == 0, "the stream names every token");
      sum += log10(strtod(l.c_str() + at + text[i].size(), 0));
      at = l.find('\n', at) + 1;
    }
    A(at == l.size(), "the stream has a line per token");
    A(near_(sum, all, 1e-3), "the stream gives the probability of every token");
  }
  if (SYMV) { // the words one by one
    SETUP(w)
    double sum = 0, tok = 0;
    for (int i = 0; i < LEN; i++) {
      float cur = 0;
      tok += w.logprob(text[i].c_str(), cur);
      sum += cur;
    }
    A(near_(tok, all, 1e-4), "the scores of tokens");
    A(near_(sum + rem, words, 1e-4), "the log-probability of words is that of their tokens");
  } else {
#ifdef APP
    std::string l = get("res.txt");
#else
    FILE *q = tmpfile();
    double e = p.print_results(q);
    if (pw > 0) A(near_(e * log10(2.0) * pw, -words, 1e-3), "the entropy of the words");
    p.print_hitrates(q);
    std::string l = hx_slurp(q);
#endif
    const char *x = strstr(l.c_str(), "\nLogprob ");
    A(x && near_(atof(x + 9), words, 1e-3), "the log-probability printed");
    x = strstr(l.c_str(), "Processed: ");
    A(x && atoi(x + 11) == pw, "the words printed");
    x = strstr(l.c_str(), SKIP ? "Dropped:   " : "Found:     ");
    A(x && atoi(x + 11) == unkw, "the unknown words printed");
    x = strstr(l.c_str(), "\nPerplexity ");
    if (pw > 0) { A(x && near_(atof(x + 12) / pow(10, -words / pw), 1, 2e-2), "the perplexity printed"); }
    if (pw > se) {
      x = strstr(l.c_str(), "normalization) ");
      A(x && near_(atof(x + 15) / pow(10, -words / (pw - se)), 1, 2e-2), "the perplexity without sentence ends printed");
    }
    if (MODE) {
      x = strstr(l.c_str(), " TUNKS");
      while (x > l.c_str() && x[-1] >= '0' && x[-1] <= '9') x--;
      A(x && atoi(x) == unkt, "the unknown tokens printed");
    }
    int allw = pw + cue + (SKIP ? unkw : 0), allt = ptok + cue + (SKIP ? unkt : 0);
    x = strstr(l.c_str(), " UNKS, ");
    if (allw > 0) A(x && near_(atof(x + 7), 100.0 * unkw / allw, 0.011), "the share of unknown words printed");
    x = strstr(l.c_str(), "Total: ");
    A(x && atoi(x + 7) == allw, "all words printed");
    if (MODE) {
      x = strchr(x, '\n');
      A(x && atoi(x) == allt && strstr(x, "tokens"), "all tokens printed");
      x = strstr(l.c_str(), "Processed: ");
      x = strchr(x, '\n');
      A(x && atoi(x) == ptok && strstr(x, "tokens"), "the tokens printed");
      x = strstr(l.c_str(), " TUNKS, ");
      if (allt > 0) A(x && near_(atof(x + 8), 100.0 * unkt / allt, 0.011), "the share of unknown tokens printed");
    }
    x = strstr(l.c_str(), "\nPerplexity ");
    for (int k = 0; k < 2; k++) { // with and without sentence ends
      const char *y = x ? strstr(x, "(- ") : NULL, *z = x ? strstr(x, "= ") : NULL;
      A(y && z && atoi(y + 3) == pw - k * se, "the number of words in the perplexity printed");
      if (pw - k * se > 0) A(near_(atof(z + 2) * log10(2.0) * (pw - k * se), -words, 2e-2), "the bits per word printed");
      x = strchr(x + 1, '\n');
    }
    if (pw != ptok) {
      x = strstr(l.c_str(), "Tokenwise logprob ");
      A(x && near_(atof(x + 18), all, 1e-3), "the log-probability of the tokens printed");
      x = strstr(l.c_str(), "Tokenwise perplexity ");
      const char *y = x ? strstr(x, "(- ") : NULL, *z = x ? strstr(x, "= ") : NULL;
      A(y && z && atoi(y + 3) == ptok, "the number of tokens printed");
      if (ptok > 0) {
        A(near_(atof(x + 21) / pow(10, -all / ptok), 1, 2e-2), "the perplexity of the tokens printed");
        A(near_(atof(z + 2) * log10(2.0) * ptok, -all, 2e-2), "the bits per token printed");
      }
    }
    x = strstr(l.c_str(), "hit rates:\n");
    A(x != NULL, "the hit rates are printed");
    x += 11;
    for (int k = 1; k <= ORD; k++) {
      A(x && atoi(x) == k, "the hit rate of every order");
      if (hits[0]) A(near_(atof(strchr(x, ':') + 1), 100.0 * hits[k] / hits[0], 2e-3), "the hit rates printed");
      x = strchr(x, '\n') + 1;
    }
    if (CUES) {
      x = strstr(l.c_str(), " context cues");
      while (x > l.c_str() && x[-1] >= '0' && x[-1] <= '9') x--;
      A(x && atoi(x) == cue, "the context cues printed");
    }
    sym_cover("printed");
  }
  sym_cover(unkt ? "unknown" : "known");
  if (se) sym_cover("sentence end");
}
