// The growing tool: for every text, the model that comes out is the one that
// the counts it reports define, and output form, count width, index width and
// memory use do not change it.
#include "ref.h"
#include "tool.h"
#include "TreeGram.hh"
#include "HashGram.hh"
TOOL(varigram_kn);
#ifndef LEN
#define LEN 5
#endif
#ifndef N
#define N 3
#endif
#ifndef ABSD
#define ABSD 0
#endif
#ifndef D3
#define D3 0
#endif
#ifndef CLEAR
#define CLEAR 0
#endif
#ifndef GROUP
#define GROUP 0
#endif
#define MAXO 8
struct Model {
  SV voc;
  std::map<Rv, long> c[MAXO];
  std::vector<double> p;
  std::vector<Rv> g;
  int order;
};
static void counts(const std::string &s, Ref &r) {
  int o = 0;
  bool back = false;
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find('\n', i);
    if (e == std::string::npos) e = s.size();
    std::string l = s.substr(i, e - i);
    i = e + 1;
    if (l.empty()) continue;
    if (l[0] == '\\') { o = l[1] - '0'; back = l.find("backoffs") != std::string::npos; continue; }
    Rv g;
    std::vector<long> v;
    const char *x = l.c_str();
    bool in = false, past = false;
    while (*x) {
      if (*x == ' ') { x++; continue; }
      if (*x == '[') { in = true; x++; continue; }
      if (*x == ']') { past = true; x++; continue; }
      A(in, "a line of the counts file");
      char *n;
      long k = strtol(x, &n, 10);
      A(n != x, "a number of the counts file");
      x = n;
      if (past) v.push_back(k);
      else { A(k >= 0 && k < r.nw, "a word of the counts file"); g.push_back(k); }
    }
    A(!v.empty(), "a line of the counts file");
    if (!back) { A((int)g.size() == o, "a gram of the counts file"); if (o <= r.n) r.c[o][g] = v[0]; else A(v[0] == 0, "the largest order is kept to"); }
    else if (o <= r.n && v.back()) r.pr[o][g] = v.back();
  }
}
static void train(const SV &opt, Model &m, int form) {
  SV a(opt);
  a.push_back("-U"); a.push_back("words.txt");
  if (form == 1) a.push_back("-a");
  if (form > 1) a.push_back("-x");
  if (form == 3) a.push_back("-Z");
  a.push_back("train.txt");
  a.push_back("model");
  tool(app_varigram_kn_main, a);
  Vocabulary x;
  FILE *f = fopen("words.txt", "r");
  A(f != NULL, "the vocabulary is written");
  x.read(f);
  fclose(f);
  m.voc.clear();
  for (int i = 0; i < x.num_words(); i++) m.voc.push_back(x.word(i));
  f = fopen("model", "r");
  A(f != NULL, "a model is written");
  NGram *lm;
  if (form == 3) lm = new HashGram_t<int>;
  else lm = new TreeGram;
  lm->read(f, form == 0);
  fclose(f);
  m.order = lm->order();
  int nw = m.voc.size();
  A(lm->num_words() == nw, "the vocabulary of the model");
  for (int i = 0; i < nw; i++) A(lm->word(lm->word_index(m.voc[i])) == m.voc[i], "the words of the model");
  for (int o = 1; o <= N; o++) {
    Rv g(o, 0);
    while (true) {
      NGram::Gram q;
      for (int j = 0; j < o; j++) q.push_back(lm->word_index(m.voc[g[j]]));
      m.p.push_back(pow(10, lm->log_prob(q)));
      m.g.push_back(g);
      int i = o - 1;
      while (i >= 0 && ++g[i] == nw) g[i--] = 0;
      if (i < 0) break;
    }
  }
}
extern "C" void sx_main(void) {
  const char *W[] = {"a", "b", CLEAR ? "<s>" : "c"};
  SV text;
#ifdef FIRST
  const char *fi[] = FIRST;
  for (size_t i = 0; i < sizeof(fi) / sizeof(fi[0]); i++) text.push_back(fi[i]);
#else
  if (CLEAR) text.push_back("<s>");
  text.push_back("b");
#endif
  for (int i = 0; i < LEN; i++) text.push_back(W[sym_fix(sym_int("word", 0, 2))]);
  std::string s;
  for (size_t i = 0; i < text.size(); i++) s += text[i] + (i % 3 == 2 ? "\n" : " ");
  put("train.txt", s);
  put("voc.txt", CLEAR ? "<s>\nb\n" : "b\na\n");
  SV a;
#define ADD(x) a.push_back(x)
#if GROUP != 2
  ADD("-n");
  ADD(std::to_string(N));
#endif
  if (ABSD) ADD("-A");
  if (D3) ADD("-3");
  if (CLEAR) ADD("-C");
  int form = 0;
  bool unk = false;
  long target = 0;
  std::vector<int> cut;
#if GROUP == 3
  int v = sym_fix(sym_int("variant", 0, 5));
  double scale = 1e-5, thr = 0;
  bool dif = true;
  if (v == 1) { scale = .001; ADD("-D"); ADD(".001"); }
  if (v == 2) { scale = .005; ADD("-D"); ADD("0.005"); }
  if (v == 3) { scale = .02; ADD("--dscale=.02"); }
  if (v == 4) { scale = .001; thr = .005; ADD("-D"); ADD(".001"); ADD("-E"); ADD("0.005"); }
  if (v == 5) { scale = .001; thr = .02; ADD("-D"); ADD(".001"); ADD("-E"); ADD("0.02"); }
  Model m;
  train(a, m, 0);
  int nw = m.voc.size(), start = -1;
  Rv t;
  for (size_t i = 0; i < text.size(); i++) {
    t.push_back(std::find(m.voc.begin(), m.voc.end(), text[i]) - m.voc.begin());
    A(t.back() < nw, "the vocabulary of the text");
  }
  if (CLEAR) start = std::find(m.voc.begin(), m.voc.end(), "<s>") - m.voc.begin();
  Ref r(1, nw, ABSD, D3);
  Ref::Grow gp = {N, scale, std::map<Rv, long>(), false, 3000};
  for (size_t i = 0; i < t.size(); i++) {
    Rv g;
    for (size_t j = i; j < t.size() && (int)g.size() < N; j++) {
      if (CLEAR && t[j] == start && j > i) break;
      g.push_back(t[j]);
      gp.text[g]++;
    }
    r.c[1][Rv(1, t[i])]++;
  }
  std::vector<Ref> may;
  bool ok = false;
  int some = 0;
  for (int any = 0; any < 2 && !ok; any++) {
    gp.any = any;
    gp.left = any ? 8000 : 3000;
    std::vector<Ref> grown;
    r.grow(gp, grown);
    Ref::Prune p = {cut, false, false, thr * (log2(nw) + 20), &t, any != 0, gp.left};
    may.clear();
    for (size_t i = 0; i < grown.size(); i++) {
      if (CLEAR) grown[i].nostart(start);
      grown[i].prune(p, may);
    }
    if (any) sym_assume(p.left >= 0);
    A(p.left >= 0 && !may.empty(), "the oracle's limits");
    for (size_t k = 0; k < may.size() && !ok; k++) {
      ok = true;
      for (size_t i = 0; i < m.p.size() && ok; i++) {
        double want = may[k].prob(m.g[i]);
#ifdef SHOW
        fprintf(stderr, "P");
        for (size_t j = 0; j < m.g[i].size(); j++) fprintf(stderr, " %s", m.voc[m.g[i][j]].c_str());
        fprintf(stderr, ": %g want %g\n", m.p[i], want);
#endif
        ok = near_(m.p[i], want, .005 * want + 1e-6);
      }
      for (int o = 2; o <= may[k].n; o++) some += may[k].c[o].size();
    }
  }
  A(ok, "the model grown by definition");
  sym_cover("grown");
  if (some) sym_cover("with longer grams");
  if (may.size() > 1) sym_cover("on the line");
#elif GROUP == 0
  int v = sym_fix(sym_int("variant", 0, 8));
  SV b(a);
  if (v == 0) form = 1;
  if (v == 1) form = 2;
  if (v == 2) form = 3;
  if (v == 3) ADD("-s");
  if (v == 4) ADD("-L");
  if (v == 5) { ADD("-s"); ADD("-L"); }
  if (v == 6) ADD("-S");
  if (v == 7) { ADD("-S"); ADD("-s"); }
  if (v == 8) { ADD("-H"); ADD("20"); }
  Model x, y;
  train(b, x, 0);
  train(a, y, form);
  A(y.order <= N, "the order of the model");
  A(x.voc.size() == y.voc.size(), "the same vocabulary");
  for (size_t i = 0; i < x.p.size(); i++) {
    Rv g;
    if (form == 3 && std::find(x.g[i].begin(), x.g[i].end(), 0) != x.g[i].end()) continue;
    for (size_t j = 0; j < x.g[i].size(); j++) g.push_back(std::find(y.voc.begin(), y.voc.end(), x.voc[x.g[i][j]]) - y.voc.begin());
    size_t k = std::find(y.g.begin(), y.g.end(), g) - y.g.begin();
    A(k < y.g.size(), "the same words");
#ifdef SHOW
    fprintf(stderr, "P"); for (size_t j = 0; j < x.g[i].size(); j++) fprintf(stderr, " %s", x.voc[x.g[i][j]].c_str()); fprintf(stderr, ": %g %g\n", x.p[i], y.p[k]);
#endif
    A(near_(x.p[i], y.p[k], (form ? 0.02 : 0.002) * x.p[i] + 1e-6), "the same probabilities");
  }
  if (y.order == N) sym_cover("full order");
  sym_cover("grown");
#else
  int v = sym_fix(sym_int("variant", 0, 5));
  double d = 0.5;
  ADD("-F");
  if (v == 1) { d = 0.8; ADD("0.8"); } else ADD("0.5");
#if GROUP == 1
  if (v == 1) { ADD("-D"); ADD("0.02"); }
  if (v == 2) { ADD("-E"); ADD(".02"); }
  if (v == 3) { ADD("-E"); ADD("1000000"); }
  if (v == 4) { cut.push_back(0); cut.push_back(1); ADD("-O"); ADD("0 1"); }
  if (v == 5) { unk = true; ADD("-B"); ADD("voc.txt"); ADD("-N"); }
#else
  int no = 0;
  if (v < 3) { no = v + 1; ADD("-n"); ADD(std::to_string(no)); }
  if (v == 3) { target = 5; ADD("-V"); ADD("5"); }
  if (v == 4) { target = 1; ADD("--numngramstarget=1"); }
  if (v == 5) { target = 1000; ADD("-V"); ADD("1000"); ADD("-n"); ADD("3"); }
  if (target) { sym_assume(text.size() <= 6); }
#endif
  ADD("-W"); ADD("counts.txt");
  Model m;
  train(a, m, 0);
  int nw = m.voc.size();
  Ref r(MAXO - 1, nw, ABSD, D3);
  for (int o = 0; o < MAXO; o++) r.d[o].assign(3, d);
  counts(get("counts.txt"), r);
  std::map<SV, int> n;
  for (size_t i = 0; i < text.size(); i++) {
    SV g;
    for (size_t j = i; j < text.size(); j++) {
      if (CLEAR && text[j] == "<s>" && j > i) break;
      g.push_back(std::find(m.voc.begin(), m.voc.end(), text[j]) == m.voc.end() ? m.voc[0] : text[j]);
      n[g]++;
    }
  }
  long grams = 0, longer = 0;
  for (int o = 1; o < MAXO; o++)
    for (std::map<Rv, long>::iterator i = r.c[o].begin(); i != r.c[o].end(); ++i) {
      if (!i->second) continue;
      SV g;
      for (int j = 0; j < o; j++) g.push_back(m.voc[i->first[j]]);
      A(n.count(g), "only grams of the text");
      A(i->second > 0 && i->second <= n[g], "counts within those of the text");
      grams++;
      if (o < 2) continue;
      longer++;
      A(i->second > r.limit(cut, o), "grams at the cutoff are left out");
      A(!unk || std::find(i->first.begin(), i->first.end(), 0) == i->first.end(), "no unknown words in longer grams");
#if GROUP == 2
      if (no) A(o <= no, "the largest order is kept to");
#else
      A(o <= N, "the largest order is kept to");
#endif
    }
  if (target) A(grams <= target * 1.03 || !longer, "as few grams as asked");
#if GROUP == 1
  if (v == 3) A(!longer, "everything is pruned");
#endif
  for (size_t i = 0; i < m.p.size(); i++) {
    double want = r.prob(m.g[i]);
#ifdef SHOW
    fprintf(stderr, "P");
    for (size_t j = 0; j < m.g[i].size(); j++) fprintf(stderr, " %s", m.voc[m.g[i][j]].c_str());
    fprintf(stderr, ": %g want %g\n", m.p[i], want);
#endif
    A(near_(m.p[i], want, .005 * want + 1e-6), "the probability its counts define");
  }
  sym_cover("grown");
  if (longer) sym_cover("with longer grams");
#endif
}
