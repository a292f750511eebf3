// The vocabulary is a bijection between words and indices; reading back what
// was written gives the same one.
#include "hx.h"
#include "Vocabulary.hh"
#ifndef N
#define N 3
#endif
#ifndef L1
#define L1 4
#endif
static void t_map() {
  Vocabulary v, c;
  SV words;
  words.push_back("<UNK>");
  for (int i = 0; i < N; i++) {
    std::string w = hx_str("len", 1, 2, "ab<");
    int known = -1;
    for (size_t k = 0; k < words.size(); k++) if (words[k] == w) known = (int)k;
    A(v.word_index(w) == (known >= 0 ? known : 0), "an absent word has the unknown index, a present one its own");
    int x = v.add_word(w);
    if (known >= 0) A(x == known, "adding a word again returns its index");
    else { A(x == (int)words.size(), "a new word gets the next index"); words.push_back(w); }
    if (i == N - 2) v.copy_vocab_to(c);
  }
  A(v.num_words() == (int)words.size(), "the number of words");
  for (size_t k = 0; k < words.size(); k++) {
    A(v.word((int)k) == words[k], "index to word");
    A(v.word_index(words[k]) == (int)k, "word to index");
    A(v.is_oov((int)k) == (k == 0), "only index 0 is out of vocabulary");
    if ((int)k < c.num_words()) A(c.word((int)k) == words[k] && c.word_index(words[k]) == (int)k, "a copy has the same mapping");
  }
  A(c.num_words() <= v.num_words() && c.num_words() >= v.num_words() - 1, "a copy is independent of later additions");
  A(v.word_index("<UNK>") == 0 && v.word_index("absent") == 0, "unknown words have index 0");
  FILE *f = tmpfile();
  v.write(f);
  rewind(f);
  Vocabulary r;
  r.read(f);
  fclose(f);
  A(r.num_words() == v.num_words(), "read back: the number of words");
  for (size_t k = 0; k < words.size(); k++) A(r.word((int)k) == words[k] && r.word_index(words[k]) == (int)k, "read back: the same mapping");
  r.set_oov("<UNK>");
  A(r.num_words() == v.num_words(), "setting the same unknown word keeps the words");
  r.set_oov("??");
  A(r.num_words() == 1 && r.word(0) == "??" && r.word_index("??") == 0 && r.word_index("a") == 0, "a new unknown word starts a new vocabulary");
  if (words.size() == N + 1) sym_cover("map");
}
static void t_read() {
  // two lines of text
  std::string text;
  SV ref;
  ref.push_back("<UNK>");
  for (int i = 0; i < 2; i++) {
    std::string l = i ? hx_str("len", 0, 2, "a( \r") : hx_str("len", 0, L1, "ab( \t_");
    if (i) l = "b" + l;
    size_t b = 0, e = l.size();
    while (b < e && (l[b] == ' ' || l[b] == '\t')) b++;
    while (e > b && (l[e - 1] == ' ' || l[e - 1] == '\t' || l[e - 1] == '\r')) e--;
    std::string w = l.substr(b, e - b);
    size_t k = 0;
    while (k < w.size() && w[k] != ' ' && w[k] != '(') k++;
    // a bracket that starts the word, or is the last character of the line, is part of the word
    sym_assume(!(w.size() && w[0] == '('));
    if (k < w.size() && k != w.size() - 1) w = w.substr(0, k);
    text += l + (i == 1 ? "" : "\n");
    if (w.empty() || w == "_" || w == "__") continue;
    bool dup = false;
    for (size_t j = 0; j < ref.size(); j++) if (ref[j] == w) dup = true;
    if (!dup) ref.push_back(w);
  }
  FILE *f = hx_file(text);
  Vocabulary v;
  v.read(f);
  fclose(f);
  A(v.num_words() == (int)ref.size(), "reading: one word per line, first token only");
  for (size_t k = 0; k < ref.size(); k++) A(v.word((int)k) == ref[k] && v.word_index(ref[k]) == (int)k, "reading: the words in file order");
  if (ref.size() == 3) sym_cover("read");
}
extern "C" void sx_main(void) {
#ifdef READ
  t_read();
#else
  t_map();
#endif
}
