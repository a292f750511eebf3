// Broken count files: refused, or what they say is taken; never read past.
#include "kn.h"
#ifndef L
#define L 4
#endif
extern "C" void sx_main(void) {
  const char *base[] = {"\\vocabsize 3", "\\1-gram counts", "[ 1 ] 7", "[ 2 ] 5", "", "\\1-gram backoffs", D3 ? "[ ] 0 0 2 12 0" : "[ ] 2 12 0", "",
                        "\\2-gram counts", "[ 1 2 ] 1", "", "\\2-gram backoffs", D3 ? "[ 1 ] 1 0 0 1 0" : "[ 1 ] 1 1 0"};
  SV l(base, base + 13);
  int w = sym_fix(sym_int("what", 0, 3));
  std::string s, x;
  bool must = false; // has to be refused
  if (w == 0) {
    static const int at_[] = {0, 1, 3, 6, 12};
    int at = at_[sym_fix(sym_int("line", 0, 4))];
    std::string one = hx_str("text", 0, L, "[1 \\-");
    l[at] = one;
    // a line that is no header, among the counts
    if (at == 3) {
      SV f(1);
      for (size_t i = 0; i < one.size(); i++)
        if (one[i] != ' ') f.back() += one[i];
        else if (!f.back().empty()) f.push_back("");
      if (f.back().empty()) f.pop_back();
      must = f.size() > 0 && f.size() < 4 && one[0] != '\\' && one[0] != ' ';
    }
    sym_cover("a broken line");
  } else if (w == 2) { // of the other kind
    l[6] = D3 ? "[ ] 2 12 0" : "[ ] 0 0 2 12 0";
    must = true;
  } else if (w == 3) {
    l[12] = D3 ? "[ 1 ] 1 1 0" : "[ 1 ] 1 0 0 1 0";
    must = true;
  }
  for (size_t i = 0; i < l.size(); i++) s += l[i] + "\n";
  size_t whole = s.size();
  if (w == 1) s.resize(sym_fix(sym_int("cut", 0, (int)s.size())));
  FILE *f = fopen("counts.txt", "w");
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
  f = fopen("voc.txt", "w");
  fputs("a\nb\n", f);
  fclose(f);
  if (w != 1 || s.size() < whole) sym_exit_ok(1);
  Kn *k = new Kn(ABSD, "counts.txt", "voc.txt", "", 1, 2, 0, -1, NULL, "counts.txt", "", 4);
  A(!must, "a broken file is refused");
  A(k->vocab.num_words() == 3, "the vocabulary");
  if (w == 1 && k->order() == 2) sym_cover("the rest is read");
}
