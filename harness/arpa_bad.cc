// A malformed ARPA text is refused, by both readers; never read past, never accepted.
#include "lm.h"
#include "HashGram.hh"
static const char *GOOD[] = {
    "\\data\\", "ngram 1=3", "ngram 2=2", "", "\\1-grams:", "-1 <UNK> -0.5", "-1 a -0.5", "-1 b", "", "\\2-grams:", "-0.5 a b", "-0.5 b a", "", "\\end\\"};
#define NL 14
extern "C" void sx_main(void) {
  SV l(GOOD, GOOD + NL);
  bool tree = sym_fix(sym_int("tree", 0, 1)), bad = true;
  int w = sym_fix(sym_int("what", 0, 21));
  switch (w) {
  case 0: bad = false; break;
  case 1: l.resize(sym_fix(sym_int("cut", 0, NL - 1))); break;          // any prefix
  case 2: l[2] = "ngram 2=3"; break;                                     // one gram too few
  case 3: l[1] = "ngram 1=2"; break;                                     // one gram too many
  case 4: l[2] = "ngram 3=2"; break;                                     // an order is skipped
  case 5: l[10] = "-0.5 a"; break;                                       // too few columns
  case 6: l[10] = "-0.5 a b -1 x"; break;                                // too many columns
  case 7: l[9] = "\\3-grams:"; break;
  case 8: l[9] = "\\2"; break;
  case 9: l[9] = "2-grams:"; break;
  case 10: l[11] = "-0.5 a b"; bad = tree; break;                        // twice the same
  case 11: l[7] = "-1 a"; bad = tree; break;                             // a unigram twice
  case 12: l[10] = "-0.5 c b"; bad = tree; break;                        // a word without a unigram
  case 13: l[10] = "-0.5 a c"; bad = tree; break;
  case 14: l[2] = "ngram 2=-1"; break;
  case 15: l[2] = "ngrams 2=2"; break;
  case 16: l[2] = "ngram 2"; break;
  case 17: l[13] = "\\3-grams:"; break;
  case 18: l[9] = "\\2-gramz:"; break;
  case 19: l.erase(l.begin() + 1, l.begin() + 3); break;                 // no counts at all
  case 20: l[0] = "data"; break;
  case 21: l[9] = "\\2-"; break;
  }
  std::string text;
  for (size_t i = 0; i < l.size(); i++) text += l[i] + "\n";
  NGram *t;
  if (tree) t = new TreeGram;
  else t = new HashGram_t<int>;
  FILE *f = hx_file(text);
  if (bad) { sym_exit_ok(1); sym_cover("refused"); }
  try {
    t->read(f);
  } catch (TreeGram::ReadError &e) {
    A(bad, "a good model is read");
    return;
  }
  A(!bad, "a malformed model is refused");
  if (w == 0) {
    Gr g(2);
    g[0] = t->word_index("a"); g[1] = t->word_index("b");
    A(near_(t->log_prob(g), -0.5, 1e-5), "the good model is read");
    sym_cover("accepted");
  }
}
