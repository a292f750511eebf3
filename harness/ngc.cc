// Counting n-grams of a text, shrinking the vocabulary, writing and reading counts.
#include "hx.h"
#include "NgramCounts.hh"
#include <map>
#ifndef NO
#define NO 2
#endif
#ifndef T
#define T 5
#endif
#ifndef ALPHA
#define ALPHA "abc"
#endif
typedef NgramCounts_t<int, int> NC;
typedef std::map<SV, int> Cnt;
static Cnt table(NC &n) { // the counts by words
  Cnt c;
  std::vector<int> k(NO);
  int v;
  n.counts->stepthrough(true, &k[0], &v);
  while (n.counts->stepthrough(false, &k[0], &v)) {
    SV g;
    for (int i = 0; i < NO; i++) {
      A(k[i] >= 0 && k[i] < n.vocab->num_words(), "counts: word of the vocabulary");
      g.push_back(n.vocab->word(k[i]));
    }
    A(!c.count(g), "counts: a gram appears once");
    A(v == n.counts->getvalue(&k[0]), "counts: lookup and walk agree");
    c[g] = v;
  }
  return c;
}
extern "C" void sx_main(void) {
  int len = sym_fix(sym_int("words", 0, T));
  SV text;
  std::string s;
  for (int i = 0; i < len; i++) {
    std::string w(1, hx_charf("word", ALPHA));
    text.push_back(w);
    s += w + (i % 2 ? "\n" : "  ");
  }
  NC n(NO, 0, 3);
  bool restricted = sym_fix(sym_int("restricted", 0, 1));
  if (restricted) {
    n.vocab->add_word("b");
    n.vocab->add_word("a");
  }
  FILE *f = hx_file(s);
  long num = n.count(f, !restricted);
  fclose(f);
  if (restricted)
    for (int i = 0; i < len; i++)
      if (text[i] == "c") text[i] = "<UNK>";
  Cnt ref, uni;
  for (int i = 0; i + NO <= len; i++) ref[SV(text.begin() + i, text.begin() + i + NO)]++;
  A(num == (len >= NO ? len - NO + 1 : 0), "counts: number of grams read");
  A(table(n) == ref, "counts: the grams of the text");
#ifdef SHRINK
  for (Cnt::iterator i = ref.begin(); i != ref.end(); ++i)
    for (int j = 0; j < NO; j++) uni[SV(1, i->first[j])] += i->second;
  uni.erase(SV(1, "<UNK>"));
  int ndrop = sym_fix(sym_int("ndrop", 0, 2)), nfirst = sym_fix(sym_int("nfirst", 0, 5));
  SV before;
  for (int i = 0; i < n.vocab->num_words(); i++) before.push_back(n.vocab->word(i));
  n.shrink(ndrop, nfirst);
  int lim = nfirst ? nfirst : 1000, often = 0, kept = n.vocab->num_words() - 1;
  if (ndrop == 0 && (int)before.size() < lim) {
    A(kept + 1 == (int)before.size(), "shrink: nothing to drop");
  } else {
    int least = 1000;
    A(n.vocab->word(0) == "<UNK>", "shrink: the unknown word stays");
    for (int i = 1; i <= kept; i++) {
      SV w(1, n.vocab->word(i));
      A(uni.count(w) && uni[w] >= ndrop, "shrink: a kept word is frequent enough");
      A(uni[w] <= least, "shrink: words by falling frequency");
      least = uni[w];
    }
    for (Cnt::iterator i = uni.begin(); i != uni.end(); ++i) {
      often += i->second > ndrop;
      if (n.vocab->word_index(i->first[0]) == 0) A(i->second <= ndrop || (kept == lim && i->second <= least), "shrink: the rarest words are dropped");
    }
    A(kept <= lim, "shrink: not more words than asked for");
    A(kept >= (often < lim ? often : lim), "shrink: frequent words stay");
  }
  Cnt mapped;
  for (Cnt::iterator i = ref.begin(); i != ref.end(); ++i) {
    SV g = i->first;
    for (int j = 0; j < NO; j++)
      if (!n.vocab->word_index(g[j])) g[j] = "<UNK>";
    mapped[g] += i->second;
  }
  A(table(n) == mapped, "shrink: counts of dropped words go to the unknown word");
  sym_cover("shrunk");
#else
  bool withvoc = sym_fix(sym_int("vocabulary written", 0, 1)), sort = sym_fix(sym_int("sorted", 0, 1));
  FILE *o = tmpfile(), *v = tmpfile();
  n.write(o, withvoc ? v : NULL, sort);
  rewind(o);
  rewind(v);
  NC m(NO, 0, 3);
  m.read(o, withvoc ? v : NULL);
  A(table(m) == ref, "counts: written and read back");
  if (withvoc) A(m.vocab->num_words() == n.vocab->num_words(), "counts: vocabulary written and read back");
  fclose(o);
  fclose(v);
  if (!ref.empty()) sym_cover("read back");
#endif
}
