// The training tool: for every text, the model that comes out is the one its
// definition gives, in each configuration.
#include "ref.h"
#include "tool.h"
#include "TreeGram.hh"
#include "TreeGramArpaReader.hh"
TOOL(counts2kn);
#ifndef N
#define N 3
#endif
#ifndef LEN
#define LEN 5
#endif
#ifndef ABSD
#define ABSD 0
#endif
#ifndef D3
#define D3 0
#endif
#ifndef CLEAR
#define CLEAR 0
#endif
#ifndef GROUP
#define GROUP 0
#endif
static std::vector<int> ints(int a, int b, int c = -1) {
  std::vector<int> v;
  v.push_back(a);
  v.push_back(b);
  if (c >= 0) v.push_back(c);
  return v;
}
extern "C" void sx_main(void) {
  const char *W[] = {"a", "b", CLEAR ? "<s>" : "c"};
  SV text;
  if (CLEAR) text.push_back("<s>");
  text.push_back("b");
  std::string s = CLEAR ? "<s> b " : "b\n";
  for (int i = 0; i < LEN; i++) {
    text.push_back(W[sym_fix(sym_int("word", 0, 2))]);
    s += text.back() + (i % 3 == 1 ? "\n" : " ");
  }
#if CLEAR && GROUP == 1 // the start symbol stays in the vocabulary
  int starts = std::count(text.begin(), text.end(), "<s>");
  int as = std::count(text.begin(), text.end(), "a");
  sym_assume(starts > 1 && (starts > as || starts > (int)text.size() - starts - as));
#endif
  put("train.txt", s);
  put("voc.txt", CLEAR ? "<s>\nb\n" : "b\na\n");
  SV a;
#define ADD(x) a.push_back(x)
  ADD("-n");
  ADD(std::to_string(N));
  if (ABSD) ADD("-A");
  if (D3) ADD("-3");
  if (CLEAR) ADD("-C");
  int v;
  bool given = false, lose = false, unk = false, arpa = false, detour = false, high = false;
  int nfirst = -1, ndrop = 0;
  std::vector<int> cut;
  double thr = 0;
  bool real = false;
#if GROUP == 0
  v = sym_fix(sym_int("variant", 0, 8));
  arpa = v == 1 || v == 2;
  if (v == 1) ADD("-a");
  if (v == 2) ADD("-x");
  if (v == 3 || v == 5) ADD("-s");
  if (v == 4 || v == 5) ADD("--longint");
  if (v == 6) { ADD("--hashsize"); ADD("30"); }
  if (v == 7) { ADD("-p"); ADD("0"); }
  if (v == 8) { given = true; ADD("-B"); ADD("voc.txt"); }
#elif GROUP == 3
  v = sym_fix(sym_int("variant", 0, 5));
  thr = v % 3 == 0 ? 0.001 : v % 3 == 1 ? 0.01 : 0.03;
  real = v >= 3;
  ADD("-p");
  ADD(v % 3 == 0 ? ".001" : v % 3 == 1 ? ".01" : "0.03");
  if (real) ADD("-r");
#elif GROUP == 1
  v = sym_fix(sym_int("variant", 0, 12));
  if (v == 12) { nfirst = 1 + CLEAR; ndrop = 2; ADD("-f"); ADD(std::to_string(nfirst)); ADD("-d"); ADD("2"); }
  else if (v >= 9) { cut.assign(1, v == 11 ? 1 : 2); lose = v != 10; ADD("-O"); ADD(v == 11 ? "1" : "2"); if (lose) ADD("-D"); }
  if (v == 0) { cut = ints(0, 1); ADD("-O"); ADD("0 1"); }
  if (v == 1) { cut = ints(0, 0, 1); ADD("--cutoffs=0 0 1"); }
  if (v == 2) { cut = ints(0, 1); lose = true; ADD("-O"); ADD("0 1"); ADD("-D"); }
  if (v == 3) { cut = ints(0, 2, 1); lose = true; ADD("-O"); ADD("0 2 1"); ADD("--discard_cutoffs"); }
  if (v == 4) { given = unk = true; ADD("-B"); ADD("voc.txt"); ADD("-N"); }
  if (v == 5) { cut = ints(0, 1); given = unk = true; ADD("-B"); ADD("voc.txt"); ADD("-N"); ADD("-O"); ADD("0 1"); }
  if (v == 6) { nfirst = 1 + CLEAR; ADD("-f"); ADD(std::to_string(nfirst)); }
  if (v == 7) { ndrop = 1; ADD("-d"); ADD("1"); }
  if (v == 8) { nfirst = 2; ndrop = 1; ADD("-f"); ADD("2"); ADD("-d"); ADD("1"); ADD("-s"); }
#else
  v = sym_fix(sym_int("variant", 0, 4));
  detour = v < 3;
  high = !detour;
  if (v == 1) ADD("-L");
  if (v == 4) ADD("-s");
#endif
  SV first = a;
#if GROUP == 2
  if (v == 2) { cut = ints(0, 1); first.push_back("-O"); first.push_back("0 1"); }
#endif
  first.push_back("-U");
  first.push_back("words.txt");
  if (detour) { first.push_back("-W"); first.push_back("counts.txt"); }
  first.push_back("train.txt");
  first.push_back("model");
  if (!high) tool(app_counts2kn_main, first);
  if (detour) { // the model written is that of the counts written
    ADD("-c"); ADD("-B"); ADD("words.txt"); ADD("counts.txt"); ADD("model2");
    tool(app_counts2kn_main, a);
  }
  if (high) {
    sym_assume((int)text.size() > N && !CLEAR);
    std::map<SV, int> c;
    for (size_t i = N; i <= text.size(); i++) c[SV(text.begin() + i - N, text.begin() + i)]++;
    put("words.txt", "c\na\nb\n");
    std::string f = "\\vocabsize 4\n";
    for (std::map<SV, int>::iterator i = c.begin(); i != c.end(); ++i) {
      for (int k = 0; k < N; k++) f += (i->first[k] == "c" ? "1 " : i->first[k] == "a" ? "2 " : "3 ");
      f += std::to_string(i->second) + "\n";
    }
    put("counts.txt", f);
    ADD("-Z"); ADD("-B"); ADD("words.txt"); ADD("counts.txt"); ADD("model");
    tool(app_counts2kn_main, a);
  }
  // the vocabulary
  SV voc;
  {
    Vocabulary x;
    FILE *f = fopen("words.txt", "r");
    x.read(f);
    fclose(f);
    for (int i = 0; i < x.num_words(); i++) voc.push_back(x.word(i));
  }
  A(!voc.empty() && voc[0] == "<UNK>", "the unknown word comes first");
  SV all(text);
  std::sort(all.begin(), all.end());
  all.erase(std::unique(all.begin(), all.end()), all.end());
  SV mine(voc.begin() + 1, voc.end());
  std::sort(mine.begin(), mine.end());
  if (given) A(voc.size() == 3 && voc[1] == (CLEAR ? "<s>" : "b") && voc[2] == (CLEAR ? "b" : "a"), "the given vocabulary");
  else if (high) ;
  else if (nfirst < 0 && !ndrop) A(mine == all, "the vocabulary of the text");
  else {
    size_t want = 0;
    for (size_t i = 0; i < all.size(); i++) want += std::count(text.begin(), text.end(), all[i]) > ndrop;
    if (nfirst >= 0 && want > (size_t)nfirst) want = nfirst;
    A(mine.size() == want, "as many words kept as asked");
    for (size_t i = 0; i < all.size(); i++)
      for (size_t j = 0; j < mine.size(); j++)
        if (!std::binary_search(mine.begin(), mine.end(), all[i]))
          A(std::count(text.begin(), text.end(), mine[j]) >= std::count(text.begin(), text.end(), all[i]), "the most frequent words are kept");
  }
  // the model
  int nw = voc.size(), start = -1;
  Rv t;
  for (size_t i = 0; i < text.size(); i++) {
    size_t k = std::find(voc.begin(), voc.end(), text[i]) - voc.begin();
    t.push_back(k == voc.size() ? 0 : k);
  }
  if (CLEAR) start = std::find(voc.begin(), voc.end(), "<s>") - voc.begin();
  Ref r(N, nw, ABSD, D3);
  r.text(t, start, !high);
  r.leaveoneout();
  std::vector<Ref> may;
  Ref::Prune p = {cut, lose, unk, thr * (log2(nw) + 20), real ? &t : NULL, false, 2000};
  if (cut.empty() && !unk && thr <= 0) may.push_back(r);
  else r.prune(p, may);
  A(p.left >= 0 && !may.empty(), "the oracle's limits");
  if (detour)
    for (size_t i = 0; i < may.size(); i++) may[i].again();
  FILE *f = fopen(detour ? "model2" : "model", "r");
  A(f != NULL, "a model is written");
  TreeGram *lm = new TreeGram;
  if (arpa) { TreeGramArpaReader ar; ar.read(f, lm); }
  else lm->read(f, true);
  fclose(f);
  A(lm->num_words() == nw, "the vocabulary of the model");
  for (int i = 0; i < nw; i++) A(lm->word_index(voc[i]) >= 0 && lm->word(lm->word_index(voc[i])) == voc[i], "the words of the model");
  A(lm->order() <= N, "the order of the model");
  double tol = arpa ? 0.02 : 0.005;
  std::vector<double> got;
  std::vector<Rv> grams;
  for (int o = 1; o <= N; o++) {
    Rv g(o, 0);
    while (true) {
      TreeGram::Gram q;
      for (int j = 0; j < o; j++) q.push_back(lm->word_index(voc[g[j]]));
      got.push_back(pow(10, lm->log_prob(q)));
      grams.push_back(g);
      int i = o - 1;
      while (i >= 0 && ++g[i] == nw) g[i--] = 0;
      if (i < 0) break;
    }
  }
  bool ok = false;
  for (int any = 0; any < 2 && !ok; any++) {
    if (any) { // grams may be looked at in another order
      if (thr <= 0 && cut.empty() && !unk) break;
      p.any = true;
      p.left = 20000;
      may.clear();
      r.prune(p, may);
      if (detour)
        for (size_t i = 0; i < may.size(); i++) may[i].again();
      sym_assume(p.left >= 0);
    }
    for (size_t m = 0; m < may.size() && !ok; m++) {
      ok = true;
      for (size_t i = 0; i < got.size() && ok; i++) {
        double want = may[m].prob(grams[i]);
#ifdef SHOW
        fprintf(stderr, "P");
        for (size_t j = 0; j < grams[i].size(); j++) fprintf(stderr, " %s", voc[grams[i][j]].c_str());
        fprintf(stderr, ": %g want %g\n", got[i], want);
#endif
        ok = near_(got[i], want, tol * want + 1e-6);
      }
    }
  }
  A(ok, "the probabilities by definition");
  if (may.size() == 1) sym_cover("one outcome");
  else sym_cover("on the line");
  sym_cover("trained");
  if (lm->order() == N) sym_cover("full order");
}
