// Count files with broken lines: broken entries are skipped, the rest is read.
#include "hx.h"
#include "NgramCounts.hh"
#ifndef L
#define L 5
#endif
extern "C" void sx_main(void) {
  bool voc = sym_fix(sym_int("with vocabulary", 0, 1));
  std::string mid = hx_str("line", 0, L, voc ? "013 -" : "ab 1");
  std::string s = (voc ? "1 2 3\n" : "a b 3\n") + mid + (voc ? "\n2 2 1\n" : "\nb b 1\n");
  FILE *f = hx_file(s), *v = hx_file("a\nb\n");
  NgramCounts_t<int, int> n(2, 0, 3);
  n.read(f, voc ? v : NULL);
  SV t(1); // the fields of the line in the middle
  for (size_t i = 0; i < mid.size(); i++)
    if (mid[i] != ' ') t.back() += mid[i];
    else if (!t.back().empty()) t.push_back("");
  if (t.back().empty()) t.pop_back();
  std::vector<int> k(2);
  k[0] = n.vocab->word_index("a");
  k[1] = n.vocab->word_index("b");
  A(k[0] == 1 && k[1] == 2, "the vocabulary");
  int ab = n.counts->getvalue(&k[0]);
  k[0] = k[1];
  int bb = n.counts->getvalue(&k[0]);
  if (t.size() < 3) {
    A(ab == 3 && bb == 1, "a line without count is skipped, the others are read");
    sym_cover("skipped");
  } else if (voc && (atoi(t[0].c_str()) < 0 || atoi(t[0].c_str()) > 2 || atoi(t[1].c_str()) < 0 || atoi(t[1].c_str()) > 2)) {
    A(ab == 3 && bb == 1, "a line with an unknown word is skipped, the others are read");
    sym_cover("unknown");
  } else sym_cover("read");
}
