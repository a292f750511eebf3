// Mixtures whose weights do not add up to one, or are not one for each model, are refused.
#include "hx.h"
#include "InterTreeGram.hh"
typedef std::deque<int> Gr;
typedef std::vector<std::string> NV_;
static void put(const char *name) {
  FILE *f = fopen(name, "w");
  fputs("\\data\\\nngram 1=2\n\n\\1-grams:\n-0.3 <UNK>\n-0.3 a\n\n\\end\\\n", f);
  fclose(f);
}
extern "C" void sx_main(void) {
  put("a.arpa"); put("b.arpa");
  int n = sym_fix(sym_int("models", 1, 2)), k = sym_fix(sym_int("weights", 1, 3));
  NV_ names;
  std::vector<float> co;
  for (int i = 0; i < n; i++) names.push_back(i ? "b.arpa" : "a.arpa");
  float sum = 0;
  for (int i = 0; i < k; i++) { co.push_back(sym_float("weight", 0, 2)); sum += co[i]; }
  bool good = n == k && sum > 0.9999f && sum < 1.0001f, bad = n != k || sum < 0.95f || sum > 1.05f;
  if (bad) sym_cover("refused");
  if (!good) sym_exit_ok(1); // the program may end
  InterTreeGram t(names, co);
  A(!bad, "weights that are not a mixture are refused");
  if (!good) return;
  Gr g(1, t.word_index("a"));
  A(near_(t.log_prob(g), -0.3f, 1e-3), "the same models mixed");
  sym_cover("mixed");
}
