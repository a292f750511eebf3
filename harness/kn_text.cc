// Training from text: which counts a text gives, with or without a given
// vocabulary, history clearing, storage, frequency-limited vocabulary.
#define N_TXT 1
#include "kn.h"
#ifndef L
#define L 6 // symbolic characters
#endif
#ifndef ALPHA
#define ALPHA "ab \n"
#endif
#ifndef CLEAR
#define CLEAR 0
#endif
#ifndef VOC
#define VOC 0 // 1: a vocabulary file
#endif
#ifndef STORE
#define STORE 0
#endif
#ifndef NFIRST
#define NFIRST -1
#endif
#ifndef PRE
#define PRE "b "
#endif
#ifndef MID
#define MID (CLEAR ? " <s> " : "")
#endif
typedef std::map<SV, ICT> Cnt;
extern "C" void sx_main(void) {
  std::string s = PRE;
  for (int i = 0; i < L / 2; i++) s += hx_char("text", ALPHA);
  s += MID;
  for (int i = L / 2; i < L; i++) s += hx_char("text", ALPHA);
  // the words
  SV text(1);
  for (size_t i = 0; i < s.size(); i++) {
    bool sp = s[i] == ' ' || s[i] == '\n';
    if (!sp) text.back() += s[i];
    else if (!text.back().empty()) text.push_back("");
  }
  if (text.back().empty()) text.pop_back();
  FILE *f = fopen("train.txt", "w");
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
  SV known;
  if (VOC) {
    f = fopen("voc.txt", "w");
    fputs("a\n<s>\nb\n", f);
    fclose(f);
    known.push_back("a");
    known.push_back("<s>");
    known.push_back("b");
  }
  Storage_t<KT, ICT> *st = STORE ? new Storage_t<KT, ICT> : NULL;
  Kn *k = new Kn(ABSD, "train.txt", VOC ? "voc.txt" : "", "", 0, N, 0, NFIRST, st, "train.txt", CLEAR ? "<s>" : "", 4);
  SV voc;
  for (int i = 0; i < k->vocab.num_words(); i++) voc.push_back(k->vocab.word(i));
  A(voc[0] == "<UNK>", "the unknown word comes first");
  for (size_t i = 1; i < voc.size(); i++) A(k->vocab.word_index(voc[i]) == (int)i, "the vocabulary is consistent");
  if (VOC) A(voc.size() == 4 && voc[1] == "a" && voc[2] == "<s>" && voc[3] == "b", "the given vocabulary is used");
  else {
    SV v(1, "<UNK>");
    if (CLEAR && NFIRST < 0) v.push_back("<s>");
    for (size_t i = 0; i < text.size(); i++)
      if (std::find(v.begin(), v.end(), text[i]) == v.end()) v.push_back(text[i]);
    if (NFIRST < 0) A(sizeof(KT) < 4 || v == voc, "the vocabulary of the text");
    if (NFIRST < 0) A(v.size() == voc.size(), "the size of the vocabulary of the text");
    else {
      A((int)voc.size() - 1 == (NFIRST < (int)v.size() - 1 ? NFIRST : (int)v.size() - 1), "the most frequent words are kept");
      for (size_t i = 1; i < v.size(); i++)
        for (size_t j = 1; j < voc.size(); j++) {
          if (k->vocab.word_index(v[i])) continue;
          A(std::count(text.begin(), text.end(), voc[j]) >= std::count(text.begin(), text.end(), v[i]), "no dropped word is more frequent than a kept one");
        }
    }
  }
  // the counts
  Cnt c[N + 1];
  SV win;
  int longest = 0;
  for (size_t i = 0; i < text.size(); i++) {
    std::string w = k->vocab.word_index(text[i]) ? text[i] : "<UNK>";
    if (CLEAR && w == "<s>") win.clear();
    win.push_back(w);
    if (win.size() > N) win.erase(win.begin());
    c[win.size()][win]++;
    longest = std::max(longest, (int)win.size());
  }
  for (int o = N; o > 1; o--)
    for (Cnt::iterator i = c[o].begin(); i != c[o].end(); ++i) c[o - 1][SV(i->first.begin() + 1, i->first.end())] += ABSD ? i->second : 1;
  A(k->input_data_size == text.size(), "the number of words read");
  A(k->order() == longest, "the order is that of the longest gram");
  int nw = voc.size();
  for (int o = 1; o <= N; o++) {
    Kv g(o, 0);
    do {
      SV ws;
      for (int i = 0; i < o; i++) ws.push_back(voc[g[i]]);
      ICT want = c[o].count(ws) ? c[o][ws] : 0;
      A(k->moc->GetCount(g) == want, "the counts of the text");
    } while (knext(g, nw));
    Kv h(o - 1, 0);
    do {
      Bo b;
      KT none = 0;
      k->moc->GetBackoff(o, o > 1 ? &h[0] : &none, &b);
      ICT den = 0, nz[3] = {0, 0, 0};
      Kv e(h);
      e.push_back(0);
      for (int w = 0; w < nw; w++) {
        e[o - 1] = w;
        ICT v = k->moc->GetCount(e);
        den += v;
        if (v > 0) nz[D3 ? cls(v) : 0]++;
      }
      A(b.den == den && b.prune_den == 0, "the total of a context");
      for (int j = 0; j < (D3 ? 3 : 1); j++) A(getb(b, j) == nz[j], "the number of grams of every count class");
    } while (o > 1 && knext(h, nw));
  }
  // normalised (concrete discounts)
  k->init_disc(0.6f);
  for (int n = 0; n < N && n <= k->order(); n++) {
    Kv h(n, 0);
    do {
      double sum = 0;
      for (int w = 0; w < nw; w++) {
        Kv g(h);
        g.push_back(w);
        sum += k->tableprob(g);
      }
      A(near_(sum, 1, 1e-5), "the probabilities after a context sum to one");
    } while (n > 0 && knext(h, nw));
  }
  if (text.size() > N) sym_cover("trained");
}
