// Tokens longer than the reading buffers: they come in pieces, every other
// token and all results stay as they are.
#include "hx.h"
#include "def.hh"
#include "PerplexityFuncs.hh"
#include "Storage.hh"
#include "TreeGram.hh"
#include "NgramCounts.hh"
static const int LENS[] = {1, 999, 1000, 1001, 2001};
extern "C" void sx_main(void) {
  int n = LENS[sym_fix(sym_int("length", 0, 4))], at = sym_fix(sym_int("place", 0, 2));
  std::string t;
  for (int i = 0; i < 3; i++) t += i == at ? std::string(n, 'x') + "\n" : "a ";
  int pieces = (n + MAX_WLEN - 1) / MAX_WLEN;
  FILE *f = fopen("t.txt", "w");
  fputs(t.c_str(), f);
  fclose(f);
  sym_cover(pieces > 1 ? "in pieces" : "whole");
  Vocabulary voc;
  voc.add_word("a");
#ifdef PERP
  std::shared_ptr<TreeGram> tg(new TreeGram);
  tg->add_word("a");
  tg->reserve_nodes(4);
  TreeGram::Gram g(1, 0);
  tg->add_gram(g, -2, 0);
  g[0] = 1;
  tg->add_gram(g, -1, 0);
  tg->finalize();
  Perplexity p(tg, "t.txt", "t.txt", "", "", 1);
  p.set_unk_warn(false);
  Perplexity q(tg, "", "", "t.txt", "", 1);
  q.set_unk_warn(false);
  Perplexity r(tg, "", "", "", "", 1);
  r.set_unk_warn(false);
  f = fopen("t.txt", "r");
  double l = r.logprob_file(f, NULL);
  fclose(f);
  A(near_(l, -2, 1e-6) && r.processed_tokens() == 2, "the known tokens are scored");
#else
  f = fopen("t.txt", "r");
  Storage_t<int, int> st;
  st.read(f, voc);
  fclose(f);
  A(st.size() >= 3, "the words in memory");
  int as = 0;
  for (int i = 0; i < (int)st.size(); i++) as += st.data(i) == 1;
  A(as == 2, "the known words in memory");
  f = fopen("t.txt", "r");
  NgramCounts_t<int, int> nc(1, 0, 10);
  nc.count(f, true);
  fclose(f);
  int a = nc.vocab->word_index("a");
  A(a > 0 && nc.counts->getvalue(&a) == 2, "the known words are counted");
  for (int c = 0; c < 2; c++) {
    Storage_t<int, int> fs;
    if (c) fs.clear_lm_history = 5;
    sikMatrix<int, int> ref(1, 4, 0);
    int w = 1;
    ref.setvalue(&w, 1);
    std::string name = "t.txt";
    fs.init_fsl_file(2, &ref, name, &voc);
    std::vector<int> h(1, 1);
    int idx, val, got[2] = {0, 0};
    fs.fast_search_next(&h, &idx, &val);
    for (int i = 0; i < 4; i++) {
      fs.fast_search_next(NULL, &idx, &val);
      if (idx < 0) break;
      A(idx < 2, "a word");
      got[idx] += val;
    }
    A(got[1] == (at != 1) && got[0] == (at != 0), "the continuations of the known word");
  }
#endif
}
