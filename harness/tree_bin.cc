// Binary files: what is read is what was written; a cut file is refused.
#include "lm.h"
#include "Endian.hh"
#ifndef ORDER
#define ORDER 3
#endif
extern "C" void sx_main(void) {
  LM m(ORDER);
#if defined(CUT) || defined(BIG) || defined(WRONG)
  lm_any(m, 2);
#else
  lm_any(m, 0);
#endif
  TreeGram *t = new TreeGram;
  lm_fill(t, m);
  bool interp = sym_fix(sym_int("interpolated", 0, 1));
  t->set_type(interp ? TreeGram::INTERPOLATED : TreeGram::BACKOFF);
#ifdef BIG
  // as on a machine with the bytes the other way round
  std::string file[3];
  for (int k = 0; k < 3; k++) {
    Endian::big = k == 1;
    FILE *o = tmpfile();
    t->write(o, true);
    file[k] = hx_slurp(o);
    fclose(o);
  }
  A(file[2] == file[0], "writing for the other byte order leaves the model alone");
  A(file[1].size() == file[0].size(), "the same size in either byte order");
  // the header ends after the line "order nodes" and one count for every order
  size_t head = 0, all = 0;
  for (int line = 0, want = 4 + NV; line < want; line++) {
    size_t e = file[0].find('\n', head);
    A(e != std::string::npos, "the header is text lines");
    if (line == 3 + NV) {
      int ord = 0;
      long nodes = 0;
      A(sscanf(file[0].substr(head, e - head).c_str(), "%d %ld", &ord, &nodes) == 2, "the order and the number of nodes");
      all = nodes; want += ord;
    }
    head = e + 1;
  }
  A(file[0].size() - head == all * 16, "all nodes are in the file");
  for (size_t i = 0; i < head; i++) A(file[1][i] == file[0][i], "the header is text");
  for (size_t i = head; i < file[0].size(); i += 4)
    for (int k = 0; k < 4; k++) A(file[1][i + k] == file[0][i + 3 - k], "every number has its bytes reversed");
  FILE *f = hx_file(file[1]);
  Endian::big = true;
#else
  FILE *f = tmpfile();
  t->write(f, true);
#endif
  TreeGram *r = new TreeGram;
  int used = sym_fix(sym_int("used before", 0, 2)); // the object holds another model, larger or smaller
  if (used == 2) {
    r->add_word(WORDS[NV - 1]);
    r->reserve_nodes(3);
    for (int w = 0; w < 2; w++) r->add_gram(Gr(1, w), -1, -0.5);
    r->add_gram(Gr(2, 1), -1, 0);
    r->finalize();
  } else if (used) {
    for (int w = 9; w > 0; w--) r->add_word(WORDS[w]);
    r->reserve_nodes(20);
    for (int n = 1; n <= ORDER + 1; n++)
      for (int w = 0; w < 10; w++) {
        Gr g(n, w);
        if (n == 1 || w > 6) r->add_gram(g, -1, -0.5);
      }
    r->finalize();
    r->set_type(interp ? TreeGram::BACKOFF : TreeGram::INTERPOLATED);
  }
#ifdef WRONG
  // a number of the header changed
  std::string text = hx_slurp(f);
  fclose(f);
  size_t at = 0;
  int line = 4 + NV - 1 + sym_fix(sym_int("line", 0, ORDER)), field = 0;
  for (int i = 0; i < line; i++) at = text.find('\n', at) + 1;
  sym_assume(line < 4 + NV + lm_order(m));
  if (line == 4 + NV - 1) field = sym_fix(sym_int("field", 0, 1));
  for (int i = 0; i < field; i++) at = text.find(' ', at) + 1;
  size_t e = at;
  while (text[e] >= '0' && text[e] <= '9') e++;
  int old = atoi(text.substr(at, e - at).c_str()), now = sym_fix(sym_int("number", 0, 60));
  sym_assume(now != old);
  // one node more than grams may be a sentinel
  int sum = 0, nodes = 0;
  for (int n = 1; n <= t->order(); n++) sum += line == 4 + NV + n - 1 ? now : t->gram_count(n);
  nodes = now;
  if (!(line == 4 + NV - 1 && field == 1)) {
    size_t q = 0;
    for (int i = 0; i < 4 + NV - 1; i++) q = text.find('\n', q) + 1;
    nodes = atoi(text.c_str() + text.find(' ', q));
  }
  if (line == 4 + NV - 1 && field == 0) {
    sym_assume(now < t->order());
    sum = 0;
    for (int n = 1; n <= now; n++) sum += t->gram_count(n);
  }
  sym_assume(sum != nodes && sum + 1 != nodes);
  f = hx_file(text.substr(0, at) + std::to_string(now) + text.substr(e));
  bool refused = false;
  try { r->read(f, true); } catch (TreeGram::ReadError &e) { refused = true; }
  A(refused, "a file whose numbers disagree is refused");
  sym_cover("wrong");
  return;
#endif
#ifdef CUT
  std::string whole = hx_slurp(f);
  fclose(f);
  int cut = sym_fix(sym_int("cut", 1, 400));
  sym_assume(cut <= (int)whole.size());
  f = hx_file(whole.substr(0, whole.size() - cut));
  bool refused = false;
  try { r->read(f, true); } catch (TreeGram::ReadError &e) { refused = true; }
  A(refused, "a file with its end missing is refused");
  sym_cover("cut");
#else
  rewind(f);
  r->read(f, true);
#ifdef BIG
  Endian::big = false;
#endif
  A(fgetc(f) == EOF, "all of the file is read");
  fclose(f);
  A(r->get_type() == t->get_type(), "the type");
  A(r->order() == t->order(), "the order");
  A(r->num_words() == NV, "the number of words");
  for (int w = 0; w < NV; w++) A(r->word(w) == WORDS[w] && r->word_index(WORDS[w]) == w, "the vocabulary");
  for (int n = 1; n <= t->order(); n++) A(r->gram_count(n) == t->gram_count(n), "gram counts");
  TreeGram::Iterator a(t), b(r);
  while (a.next()) {
    A(b.next(), "every gram is read");
    A(a.order() == b.order() && a.node().word == b.node().word, "the same grams");
    A(a.node().log_prob == b.node().log_prob && a.node().back_off == b.node().back_off, "the same values");
  }
  A(!b.next(), "no other grams");
  if (!interp)
    for (int n = 1; n <= ORDER; n++) {
      Gr g(n, 0);
      do A(r->log_prob(g) == t->log_prob(g), "the same probabilities"); while (nextgram(g));
    }
  if (lm_order(m) == ORDER) sym_cover("full order");
  sym_cover(interp ? "interpolated" : "backoff");
#endif
}
