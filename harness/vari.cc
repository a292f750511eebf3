// Growing a model from a text: the counts are those the definition gives for the
// grams taken in, extreme costs take in everything or nothing, the model is
// normalised and keeps to the largest order.
#include "hx.h"
#include "VarigramFuncs.hh"
#include "TreeGram.hh"
#define N 3
#include "kn.h"
#ifndef LEN
#define LEN 6 // words
#endif
#ifndef CLEAR
#define CLEAR 0
#endif
#ifndef SMALL
#define SMALL false
#endif
#ifndef MAXO
#define MAXO 3
#endif
#ifndef ITER
#define ITER 1
#endif
#ifndef PRUNE
#define PRUNE 0
#endif
typedef std::map<SV, long> Cnt;
struct Line { SV ctx; std::vector<long> v; };
// the counts file: "[ i j ] n ..." under "\k-gram counts" and "\k-gram backoffs"
static void parse(FILE *f, Vocabulary &voc, Cnt *c, std::map<SV, std::vector<long> > *b) {
  std::string s = hx_slurp(f), tok;
  int o = 0;
  bool back = false;
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find('\n', i);
    if (e == std::string::npos) e = s.size();
    std::string l = s.substr(i, e - i);
    i = e + 1;
    if (l.empty()) continue;
    if (l[0] == '\\') {
      o = l[1] - '0';
      back = l.find("backoffs") != std::string::npos;
      continue;
    }
    size_t p = l.find('['), q = l.find(']');
    A(p != std::string::npos && q != std::string::npos, "a line of the counts file");
    SV g;
    std::vector<long> v;
    const char *x = l.c_str() + p + 1;
    char *n;
    while (true) {
      while (*x == ' ') x++;
      if (*x == ']') break;
      long k = strtol(x, &n, 10);
      A(n != x && k >= 0 && k < voc.num_words(), "a word index of the counts file");
      g.push_back(voc.word(k));
      x = n;
    }
    x++;
    while (true) {
      while (*x == ' ') x++;
      if (!*x) break;
      long k = strtol(x, &n, 10);
      A(n != x, "a number of the counts file");
      v.push_back(k);
      x = n;
    }
    if (back) { A((int)g.size() == o - 1, "a context of the counts file"); b[o][g] = v; }
    else { A((int)g.size() == o && v.size() == 1, "a gram of the counts file"); c[o][g] = v[0]; }
  }
}
extern "C" void sx_main(void) {
  const char *W[] = {"a", "b", CLEAR ? "<s>" : "c"};
  SV text;
#ifdef FIRST
  text.push_back(FIRST);
#endif
  for (int i = 0; i < LEN; i++) text.push_back(W[sym_fix(sym_int("word", 0, 2))]);
#if CLEAR
  int words = 0;
  for (size_t i = 0; i < text.size(); i++) words += text[i] != "<s>";
  sym_assume(words > 0);
#endif
  FILE *f = fopen("train.txt", "w");
  for (size_t i = 0; i < text.size(); i++) fprintf(f, "%s%s", text[i].c_str(), i % 3 == 2 ? "\n" : " ");
  fclose(f);
#if CLEAR
  f = fopen("voc.txt", "w");
  fputs("<s>\na\nb\n", f);
  fclose(f);
#endif
  int cost = sym_fix(sym_int("cost", 0, 2)); // take in all, none, what pays
  Varigram_t<KT, ICT> *vg = new Varigram_t<KT, ICT>(D3, ABSD);
  vg->initialize("train.txt", 4, 0, -1, "", CLEAR ? "<s>" : "", SMALL, CLEAR ? "voc.txt" : "");
  vg->set_datacost_scale(cost == 0 ? -1e6 : cost == 1 ? 1e6 : 0.01);
  vg->set_datacost_scale2(PRUNE ? (sym_fix(sym_int("prune", 0, 1)) ? 0.03 : 1e6) : -1e9);
  vg->set_max_order(MAXO);
  vg->grow(ITER);
  // what came out
  Vocabulary voc;
  FILE *vf = tmpfile();
  vg->write_vocab(vf);
  rewind(vf);
  voc.read(vf);
  Cnt c[N + 3];
  std::map<SV, std::vector<long> > b[N + 3];
  f = tmpfile();
  vg->write_debug_counts(f);
  parse(f, voc, c, b);
  // the text's own counts
  Cnt n[N + 1];
  SV win;
  for (size_t i = 0; i < text.size(); i++) {
    if (CLEAR && text[i] == "<s>") win.clear();
    win.push_back(text[i]);
    if (win.size() > N) win.erase(win.begin());
    for (size_t k = 1; k <= win.size(); k++) n[k][SV(win.end() - k, win.end())]++;
  }
  for (int o = MAXO + 1; o <= N + 2; o++) A(c[o].empty() && b[o].empty(), "the largest order is kept to");
  int grams = 0;
  for (int o = 1; o <= N; o++)
    for (Cnt::iterator i = c[o].begin(); i != c[o].end(); ++i) {
      A(n[o].count(i->first) || o == 1, "only grams of the text");
      A(i->second > 0, "no negative counts");
      if (o > 1) grams++;
      if (PRUNE) continue;
      long want = n[o][i->first];
      if (!ABSD && o < N)
        for (Cnt::iterator j = c[o + 1].begin(); j != c[o + 1].end(); ++j)
          if (std::equal(i->first.begin(), i->first.end(), j->first.begin() + 1)) want -= n[o + 1][j->first] - 1;
      if (CLEAR && o == 1 && i->first[0] == "<s>") want = 0;
      A(i->second == want, "the counts of the grams taken in");
    }
  if (cost == 1) A(grams == 0, "nothing is taken in when it costs too much");
  if (cost == 0 && !PRUNE)
    for (int o = 1; o <= MAXO; o++)
      for (Cnt::iterator i = n[o].begin(); i != n[o].end(); ++i)
        A(c[o].count(i->first) || (CLEAR && o == 1 && i->first[0] == "<s>"), "everything is taken in when it costs nothing");
  if (PRUNE && cost == 0) sym_cover("pruned");
  // the totals and classes
  for (int o = 1; o <= N; o++) {
    std::map<SV, std::vector<long> > want;
    for (Cnt::iterator i = c[o].begin(); i != c[o].end(); ++i) {
      std::vector<long> &v = want[SV(i->first.begin(), i->first.end() - 1)];
      v.resize(D3 ? 4 : 2);
      v[D3 ? 3 : 1] += i->second;
      v[D3 ? cls(i->second) : 0]++;
    }
    for (std::map<SV, std::vector<long> >::iterator i = want.begin(); i != want.end(); ++i) {
      A(b[o].count(i->first), "a context has its statistics");
      std::vector<long> &v = b[o][i->first];
      A(v.size() == (D3 ? 5 : 3), "the statistics of a context");
      if (!PRUNE) A(v.back() == 0, "no pruned mass");
      A(v.back() >= 0, "pruned mass is not negative");
      A(v[D3 ? 3 : 1] == i->second[D3 ? 3 : 1] + v.back(), "the total of a context");
      for (int j = 0; j < (D3 ? 3 : 1); j++) A(v[j] == i->second[j], "the number of grams of every count class");
    }
    for (std::map<SV, std::vector<long> >::iterator i = b[o].begin(); i != b[o].end(); ++i) {
      if (want.count(i->first)) continue;
      std::vector<long> &v = i->second;
      for (int j = 0; j < (D3 ? 3 : 1); j++) A(v[j] == 0, "no grams of a context left, none in its statistics");
      A(v[D3 ? 3 : 1] == v.back(), "the total of a context left empty");
    }
  }
  // the model written
  f = tmpfile();
  vg->write(f, false);
  rewind(f);
  TreeGram *lm = new TreeGram;
  lm->read(f, true);
  A(lm->num_words() == voc.num_words(), "the vocabulary of the model");
  A(lm->order() <= MAXO, "the order of the model");
  for (int o = 0; o < MAXO; o++) {
    Kv h(o, 0);
    do {
      double sum = 0;
      for (int w = 0; w < voc.num_words(); w++) {
        TreeGram::Gram g;
        for (int j = 0; j < o; j++) g.push_back(h[j]);
        g.push_back(w);
        sum += pow(10, lm->log_prob(g));
      }
      A(near_(sum, 1, 1e-3), "the probabilities after a context sum to one");
    } while (o > 0 && knext(h, voc.num_words()));
  }
  sym_cover(cost == 0 ? "all" : cost == 1 ? "none" : grams ? "some" : "nothing pays");
}
