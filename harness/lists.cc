// The continuation lists made for growing and pruning: for every history of a
// table, exactly the text's continuations of it, whether the text is in memory
// or in a file.
#include "hx.h"
#include "def.hh"
#include "Storage.hh"
#include <map>
#ifdef SHORTK
typedef unsigned short K;
#else
typedef int K;
#endif
#ifndef LEN
#define LEN 5
#endif
#ifndef ORDER
#define ORDER 2
#endif
#ifndef CLEAR
#define CLEAR 0
#endif
#ifndef CUR
#define CUR 0
#endif
static const char *W[] = {"<UNK>", "a", "b", "<s>"};
typedef std::vector<K> Kv;
static bool next(Kv &g) {
  int i = (int)g.size() - 1;
  while (i >= 0 && ++g[i] == 4) g[i--] = 0;
  return i >= 0;
}
extern "C" void sx_main(void) {
  Vocabulary voc;
  for (int i = 1; i < 4; i++) voc.add_word(W[i]);
  int len = sym_fix(sym_int("length", 0, LEN));
  Kv text;
  std::string s;
  for (int i = 0; i < len; i++) {
    int w = sym_fix(sym_int("word", 0, 3));
    text.push_back(w);
    s += w ? W[w] : "zz";
    s += i % 2 ? "\n" : " ";
  }
  FILE *f = fopen("text.txt", "w");
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
  f = fopen("text.txt", "r");
  Storage_t<K, int> mem, file;
  mem.read(f, voc);
  fclose(f);
  A((int)mem.size() == len, "the text in memory");
  for (int i = 0; i < len; i++) A(mem.data(i) == text[i], "the words in memory");
  if (CLEAR) mem.clear_lm_history = file.clear_lm_history = 3;
  // some of the histories
  sikMatrix<K, int> ref(ORDER - 1, 2, 0), cur(ORDER, 2, 0);
  int which = sym_fix(sym_int("histories", 0, 3));
  std::map<Kv, bool> in;
  Kv h(ORDER - 1, 0);
  int n = 0;
  do {
    if ((h[0] + 2 * h.back() + which) % 3 == 0) continue;
    Kv k(h.rbegin(), h.rend()); // entered in some other order
    ref.setvalue(&k[0], 1 + n++ % 4);
    in[k] = true;
  } while (next(h));
  std::map<Kv, bool> old;
  Kv g(ORDER, 0);
  if (CUR) do if ((g[0] + g.back() + which) % 2) { cur.setvalue(&g[0], 1); old[g] = true; } while (next(g));
  // the windows, by definition
  std::map<Kv, int> win;
  Kv v;
  for (int i = 0; i < len; i++) {
    if (CLEAR && text[i] == 3) v.clear();
    v.push_back(text[i]);
    if (v.size() > ORDER) v.erase(v.begin());
    if (v.size() == ORDER) win[v]++;
  }
  mem.initialize_fast_search_lists(ORDER, &ref, CUR ? &cur : NULL);
  std::string name = "text.txt";
  if (!CUR) file.init_fsl_file(ORDER, &ref, name, &voc);
  bool any = false;
  for (int k = 0; k < (CUR ? 1 : 2); k++) {
    Storage_t<K, int> &st = k ? file : mem;
    h.assign(ORDER - 1, 0);
    do {
      int idx, val, got[4] = {0, 0, 0, 0};
      Kv q(h);
      st.fast_search_next(&q, &idx, &val);
      A(idx < 0, "a search starts without a word");
      for (int i = 0; i <= LEN + 1; i++) {
        st.fast_search_next(NULL, &idx, &val);
        if (idx < 0) break;
        A(idx < 4 && val > 0, "a continuation");
        got[idx] += val;
      }
      A(idx < 0, "a search ends");
      for (int w = 0; w < 4; w++) {
        Kv x(h);
        x.push_back(w);
        int want = in.count(h) && !old.count(x) && win.count(x) ? win[x] : 0;
        if (want) any = true;
        A(got[w] == want, k ? "the continuations read from a file" : "the continuations in memory");
      }
    } while (next(h));
  }
  // occurrences of whole grams, for pruning
  sikMatrix<K, int> tab(ORDER, 2, 0);
  g.assign(ORDER, 0);
  do if ((g[0] + 2 * g.back() + which) % 3) { Kv r(g.rbegin(), g.rend()); tab.setvalue(&r[0], 1); } while (next(g));
  mem.initialize_fast_search_lists_for_pruning(ORDER, &tab);
  A((int)mem.prune_lists.size() == tab.num_entries(), "an occurrence count for every gram");
  for (int i = 0; i < tab.num_entries(); i++) {
    Kv x(tab.Idx2Keyp(i), tab.Idx2Keyp(i) + ORDER);
    A(mem.prune_lists[i] == (win.count(x) ? win[x] : 0), "the occurrences of a gram");
  }
  sym_cover(any ? "found" : len < ORDER - 1 ? "short" : "not found");
}
