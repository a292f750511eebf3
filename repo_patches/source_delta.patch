From 2a2dd2f0836fd68e072d8f4ff0e92fa262f0b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 01/26] fix: RemoveDefaultValues skipped the entry moved into a
 removed slot

---
 src/sparse_matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_matrix.c b/src/sparse_matrix.c
index 6fa8925..28396e3 100644
--- a/src/sparse_matrix.c
+++ b/src/sparse_matrix.c
@@ -499,7 +499,7 @@ void RemoveDefaultValues(struct matrix *m) {
   for (i = 0; i < m->num_entries; i++) {
     if (!memcmp(&(m->data[i * m->size_of_entry]), m->default_value,
                 m->size_of_entry))
-      RemoveEntryIdx(m, i);
+      RemoveEntryIdx(m, i--); /* The last entry was moved here, check it too */
   }
 }
 
-- 
2.43.0


From 208ea523de9c50308b9467ce0e4ca8e6e985fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 02/26] fix: split_with_quotes left the backslash mode on after
 an escaped backslash

---
 src/str.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/str.cc b/src/str.cc
index 981f4a1..4d006c9 100644
--- a/src/str.cc
+++ b/src/str.cc
@@ -172,10 +172,12 @@ void split_with_quotes(std::string *str, const char *delims, bool group,
       switch ((*str)[src]) {
 
       case '\\':
-        if (mode == NONE)
+        if (mode == NONE) {
           mode = BACKSLASH;
-        else
-          (*str)[tgt++] = '\\';
+          src++;
+          continue;
+        }
+        (*str)[tgt++] = '\\';
         break;
 
       case '\'':
@@ -205,7 +207,7 @@ void split_with_quotes(std::string *str, const char *delims, bool group,
         }
         break;
       }
-      if (mode == BACKSLASH && (*str)[src] != '\\')
+      if (mode == BACKSLASH)
         mode = NONE;
       src++;
     }
-- 
2.43.0


From 171aa6ab95af853e8aa5abfc8b2fc3c0d7da7655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 03/26] fix: Vocabulary::read did not truncate an indented line
 at its second token

---
 src/Vocabulary.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vocabulary.cc b/src/Vocabulary.cc
index 05c8e3e..98f9cfd 100644
--- a/src/Vocabulary.cc
+++ b/src/Vocabulary.cc
@@ -54,8 +54,8 @@ void Vocabulary::read(FILE *file) {
     // Check if " " or "(" is present and truncate the word to
     // that symbol. You can use dictionary files in CMUdict
     // and Decoder formats this way.
-    int end_2 = word.find_first_of(" (") - 1;
-    if ((end_2 > -1) && (end_2 < end - 1))
+    int end_2 = word.find_first_of(" (", start) - 1;
+    if ((end_2 >= start) && (end_2 < end - 1))
       end = end_2;
     word = word.substr(start, end - start + 1);
 
-- 
2.43.0


From 98147248991868726d6e2deceebf45303edfa6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 04/26] fix: HashGram dropped back-off weights above one on
 reading and writing ARPA

---
 src/HashGram_tmpl.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index cc697a8..2f10386 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -41,7 +41,7 @@ template <typename KT> void HashGram_t<KT>::read_real(FILE *file) {
     if (log_prob > MINLOGPROB) {
       probs[order]->setvalue(&gram[0], log_prob);
     }
-    if (back_off < 0) {
+    if (back_off != 0) {
       backoffs[order]->setvalue(&gram[0], back_off);
     }
   }
@@ -58,7 +58,7 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     float logprob, bo;
     backoffs[o]->stepthrough(true, &gram[0], &logprob);
     while (backoffs[o]->stepthrough(false, &gram[0], &bo)) {
-      if (bo >= 0.0)
+      if (bo == 0.0)
         continue;
       FindEntry(probs[o]->m, (byte *)(&gram[0]), 1);
     }
@@ -70,7 +70,7 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     probs[o]->stepthrough(true, &gram[0], &logprob);
     while (probs[o]->stepthrough(false, &gram[0], &logprob)) {
       bo = backoffs[o]->getvalue(&gram[0]);
-      if (m_print_zerograms || logprob > MINLOGPROB || bo < 0)
+      if (m_print_zerograms || logprob > MINLOGPROB || bo != 0)
         num_grams[o]++;
     }
   }
@@ -90,13 +90,13 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     probs[o]->stepthrough(true, &gram[0], &logprob);
     while (probs[o]->stepthrough(false, &gram[0], &logprob)) {
       bo = backoffs[o]->getvalue(&gram[0]);
-      if (!m_print_zerograms && (logprob <= MINLOGPROB && bo >= 0))
+      if (!m_print_zerograms && (logprob <= MINLOGPROB && bo == 0))
         continue;
       fprintf(out, "%.4f", logprob);
       fprintf(out, "%s%s", field_separator.c_str(), word(gram[0]).c_str());
       for (int i = 1; i < o; i++)
         fprintf(out, " %s", word(gram[i]).c_str());
-      if (bo < 0)
+      if (bo != 0)
         fprintf(out, "%s%.4f", field_separator.c_str(), bo);
       fprintf(out, "\n");
     }
-- 
2.43.0


From ab18286aecd196d647f4d72eaa2fb2a235c5975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 05/26] fix: HashGram crashed on an ARPA model with an order
 without grams

---
 src/HashGram_tmpl.hh | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index 2f10386..9a87d80 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -26,16 +26,15 @@ template <typename KT> void HashGram_t<KT>::read_real(FILE *file) {
 
   std::vector<int> tmp_gram(1);
   float log_prob, back_off;
-  int prev_order = 0;
+  // Every order needs its tables, also one without any grams
+  for (int order = 1; order <= m_order; order++) {
+    probs[order] = new sikMatrix<KT, float>(order, areader.counts[order - 1],
+                                            MINLOGPROB);
+    backoffs[order] =
+        new sikMatrix<KT, float>(order, areader.counts[order - 1], 0.0);
+  }
   while (areader.next_gram(file, line, tmp_gram, log_prob, back_off)) {
     int order = tmp_gram.size();
-    if (order > prev_order) {
-      probs[order] = new sikMatrix<KT, float>(order, areader.counts[order - 1],
-                                              MINLOGPROB);
-      backoffs[order] =
-          new sikMatrix<KT, float>(order, areader.counts[order - 1], 0.0);
-      prev_order = order;
-    }
     // Inefficiency due to abstracting ArpaReader out
     std::vector<KT> gram(tmp_gram.begin(), tmp_gram.end());
     if (log_prob > MINLOGPROB) {
-- 
2.43.0


From 3dc80d617011a10d32fbd560988abf01040730c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 06/26] fix: a sparse matrix created for zero entries never
 grew and overflowed

---
 src/sparse_matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_matrix.c b/src/sparse_matrix.c
index 28396e3..c61b0cc 100644
--- a/src/sparse_matrix.c
+++ b/src/sparse_matrix.c
@@ -107,7 +107,7 @@ indextype NewEntry(struct matrix *m) {
   */
 
   if (m->num_entries >= m->datasize) {
-    m->datasize *= 2;
+    m->datasize = m->datasize > 0 ? 2 * m->datasize : 1;
     m->keys = (byte *)realloc(m->keys, m->datasize * m->key_size);
     check_malloc(m->keys, "realloc keys");
     m->data = (byte *)realloc(m->data, m->datasize * m->size_of_entry);
-- 
2.43.0


From 4539d35cffe91a20eca1a5639d35046ecf6934bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 07/26] fix: TreeGram accepted grams of words without a unigram
 and built a corrupt tree

---
 src/TreeGram.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index c602fab..73b187b 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -77,6 +77,18 @@ void TreeGram::check_order(const Gram &gram, bool add_missing_unigrams) {
     add_gram(g, MINLOGPROB, 0);
   }
 
+  // Every word of a longer gram must have a unigram node.
+  for (int i = 0; gram.size() > 1 && i < gram.size(); i++) {
+    if (gram[i] < 0 || gram[i] >= m_order_count[0]) {
+      fprintf(stderr,
+              "TreeGram::check_order(): "
+              "word %d has no unigram\n",
+              gram[i]);
+      print_gram(stderr, gram);
+      throw ReadError();
+    }
+  }
+
   // With the same order, the grams must inserted in sorted order.
   if (gram.size() == m_last_gram.size()) {
     int i;
-- 
2.43.0


From 32efedf61c8bd23139e83d9a3400600cfca99d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 08/26] fix: ArpaReader read past its tables on a header
 without counts or without a dash

---
 src/ArpaReader.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ArpaReader.cc b/src/ArpaReader.cc
index 1493ae5..cba57d0 100644
--- a/src/ArpaReader.cc
+++ b/src/ArpaReader.cc
@@ -58,8 +58,12 @@ void ArpaReader::read_header(FILE *file, bool &interpolated,
     }
 
     // Header ends in a \-command
-    if (line[0] == '\\')
+    if (line[0] == '\\') {
+      // A model without any counts has no unigrams
+      if (counts.empty())
+        read_error();
       break;
+    }
 
     // Skip empty lines
     if (line.find_first_not_of(" \t\n") == line.npos)
@@ -135,7 +139,7 @@ bool ArpaReader::next_gram(FILE *file, std::string &line,
     str::clean(&line, " \t");
     str::split(&line, "-", false, &m_vec);
 
-    if (atoi(m_vec[0].substr(1).c_str()) != m_read_order ||
+    if (m_vec.size() != 2 || atoi(m_vec[0].substr(1).c_str()) != m_read_order ||
         m_vec[1] != "grams:") {
       fprintf(stderr,
               "ArpaReader::next_gram(): "
-- 
2.43.0


From 90d8b460b348834b4912eb55fcc32b02d21a0448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 09/26] fix: TreeGram look-ahead lists read past the last node

---
 src/TreeGram.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index 73b187b..dc92e03 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -545,7 +545,8 @@ void TreeGram::fetch_bigram_list(int prev_word_id,
 
   // Fill the bigram probabilities
   child_index = m_nodes[prev_word_id].child_index;
-  next_child_index = m_nodes[prev_word_id + 1].child_index;
+  next_child_index =
+      prev_word_id + 1 < m_nodes.size() ? m_nodes[prev_word_id + 1].child_index : -1;
   if (child_index != -1 && next_child_index > child_index) {
     for (i = child_index; i < next_child_index; i++)
       lm_buf[m_nodes[i].word] = m_nodes[i].log_prob;
@@ -585,7 +586,8 @@ void TreeGram::fetch_trigram_list(int w1, int w2,
 
     // Fill bigram (w2, next_word_id) probabilities
     child_index = m_nodes[w2].child_index;
-    next_child_index = m_nodes[w2 + 1].child_index;
+    next_child_index =
+        w2 + 1 < m_nodes.size() ? m_nodes[w2 + 1].child_index : -1;
     if (child_index != -1 && next_child_index > child_index) {
       for (i = child_index; i < next_child_index; i++)
         lm_buf[m_nodes[i].word] = bigram_back_off_w + m_nodes[i].log_prob;
@@ -593,7 +595,8 @@ void TreeGram::fetch_trigram_list(int w1, int w2,
 
     // Fill trigram probabilities
     child_index = m_nodes[bigram_index].child_index;
-    next_child_index = m_nodes[bigram_index + 1].child_index;
+    next_child_index =
+        bigram_index + 1 < m_nodes.size() ? m_nodes[bigram_index + 1].child_index : -1;
     if (child_index != -1 && next_child_index > child_index) {
       for (i = child_index; i < next_child_index; i++)
         lm_buf[m_nodes[i].word] = m_nodes[i].log_prob;
-- 
2.43.0


From fc371fdae11d8ab197d6cfb43ab4dd92bb5d1f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:50 +0000
Subject: [PATCH 10/26] fix: NgramCounts::shrink read past the word table when
 every word was frequent enough

---
 src/NgramCounts_tmpl.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index 4ba6977..a4f3500 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -210,7 +210,9 @@ void NgramCounts_t<K, T>::shrink(float ndrop, int nfirst) {
   /* create a backwards mapping */
   std::vector<int> backwards(wordtable.size(), 0);
   int i;
-  for (i = 1; (i <= nfirst && wordtable[i].count > ndrop); i++)
+  for (i = 1; (i < (int)wordtable.size() && i <= nfirst &&
+               wordtable[i].count > ndrop);
+       i++)
     backwards[wordtable[i].oldidx] = i;
   nfirst = i - 1;
 
-- 
2.43.0


From 01dbb7460e8f6887d7bd49c7f77b4b2ed75e85e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:50 +0000
Subject: [PATCH 11/26] fix: NgramCounts::shrink kept the old vocabulary while
 renumbering the counts

---
 src/NgramCounts_tmpl.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index a4f3500..04952b3 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -217,7 +217,8 @@ void NgramCounts_t<K, T>::shrink(float ndrop, int nfirst) {
   nfirst = i - 1;
 
   /* Redo the vocabulary */
-  vocab->set_oov(wordtable[0].wstring); // clears the current vocabulary
+  vocab->clear_words();
+  vocab->add_word(wordtable[0].wstring); // the unknown word
   for (i = 1; i <= nfirst; i++) {
     vocab->add_word(wordtable[i].wstring);
   }
-- 
2.43.0


From a933486ffdcbce565bef4d3bfff4d882d8b2fd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:16 +0000
Subject: [PATCH 12/26] fix: NgramCounts::read crashed on lines with too few
 fields and kept entries of unknown words

---
 src/NgramCounts_tmpl.hh | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index 04952b3..7b46e37 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -151,27 +151,36 @@ void NgramCounts_t<K, T>::read(FILE *countsfile, FILE *vocabfile) {
   char tmpchar[MAX_WLEN + 1];
   while (fgets(sbuf, MAX_WLEN, countsfile)) {
     // fprintf(stderr,"Looking at line %s",sbuf);
+    bool ok = true;
     cptr = strtok(sbuf, " ");
     for (int i = 0; i < m_ds.size(); i++) {
       if (!cptr) {
-        fprintf(stderr, "Problem with input, skip entry %s\n", sbuf);
+        ok = false;
         break;
       }
       if (vocabfile) {
         // fprintf(stderr,"Adding cptr %s :",cptr);
         // fprintf(stderr,"%s\n", tmp_vocab.word(atoi(cptr)).c_str());
         int tmp = atoi(cptr);
-        if (tmp >= vocab->num_words()) {
+        if (tmp < 0 || tmp >= vocab->num_words()) {
           fprintf(stderr, "Errors in input, word index %d unknown\n", tmp);
-          continue;
+          ok = false;
+          break;
         }
         m_ds[i] = tmp;
       } else {
-        sscanf(cptr, "%s", tmpchar);
+        if (sscanf(cptr, "%s", tmpchar) != 1) {
+          ok = false;
+          break;
+        }
         m_ds[i] = vocab->add_word(tmpchar);
       }
       cptr = strtok(NULL, " ");
     }
+    if (!ok || !cptr) {
+      fprintf(stderr, "Problem with input, skip entry %s\n", sbuf);
+      continue;
+    }
     counts->increment(&m_ds[0], ascii2num(cptr, (T *)NULL));
   }
 }
-- 
2.43.0


From 03f5d618e50aa439a3d93a755b503b96ec099fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:24 +0000
Subject: [PATCH 13/26] fix: grams added to a back-off model carry the
 backed-off estimate

---
 src/HashGram_tmpl.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index 9a87d80..39c2857 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -365,7 +365,14 @@ template <typename KT> void HashGram_t<KT>::add_zeroprob_grams() {
     probs[o]->stepthrough(true, &gram[0], &gram_logprob);
     while (probs[o]->stepthrough(false, &gram[0], &gram_logprob)) {
       // Don't delete even if default value
-      probs[o - 1]->increment_wo_del(&gram[0], inc);
+      const float prob = probs[o - 1]->increment_wo_del(&gram[0], inc);
+      if (m_type == BACKOFF && prob <= MINLOGPROB) {
+        // An explicit gram replaces the backed-off estimate, so it must carry it
+        const std::vector<KT> prefix(gram.begin(), gram.end() - 1);
+        const float bo_prob = log_prob_bo_helper(prefix);
+        if (bo_prob > MINLOGPROB)
+          probs[o - 1]->setvalue(&prefix[0], bo_prob);
+      }
     }
   }
 }
-- 
2.43.0


From dfddfd8bc83ccfabeebd5583829f0f400b8c2b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 14/26] fix: growing a model crashed or broke its counts when
 the sentence start was not in the data

---
 src/InterKn_tmpl.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 8677c92..4607556 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -199,6 +199,8 @@ template <typename BOT>
 void InterKn_int_disc<KT, ICT>::remove_sent_start_prob_fbase(BOT *dummy) {
   std::vector<KT> tmp(1, (KT)this->m_sent_boundary);
   const ICT value = this->moc->GetCount(tmp);
+  if (value <= 0) // Not in the data, nothing to take away
+    return;
   this->moc->IncrementCount(tmp, -value);
   BOT bo;
   this->moc->zero_bo(bo);
@@ -212,6 +214,8 @@ template <typename BOT>
 void InterKn_int_disc3<KT, ICT>::remove_sent_start_prob_fbase(BOT *dummy) {
   std::vector<KT> tmp(1, (KT)this->m_sent_boundary);
   const ICT value = this->moc->GetCount(tmp);
+  if (value <= 0) // Not in the data, nothing to take away
+    return;
   this->moc->IncrementCount(tmp, -value);
   BOT bo;
   this->moc->zero_bo(bo);
-- 
2.43.0


From 0953b2875b996eb684e644e6c29d8ee07580c249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 15/26] fix: TreeGram read past its nodes for words added after
 the model was made

---
 src/TreeGram.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index dc92e03..247cf43 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -164,8 +164,9 @@ int TreeGram::find_child(int word, int node_index) {
     exit(1);
   }
 
+  // A word added after the model was made has no unigram
   if (node_index < 0)
-    return word;
+    return word < m_order_count[0] ? word : -1;
 
   // Note that (node_index + 1) is used later, so the last node_index
   // must not pass.  Actually, we could return -1 for all largest
@@ -624,7 +625,13 @@ float TreeGram::log_prob_bo(const Gram &gram) {
   while (1) {
     assert(n < gram.size());
     fetch_gram(gram, n);
-    assert(m_fetch_stack.size() > 0);
+
+    // No unigram for the word?
+    if (m_fetch_stack.empty() && n + 1 == gram.size()) {
+      log_prob += MINLOGPROB;
+      m_last_order = 1;
+      break;
+    }
 
     // Full gram found?
     if (m_fetch_stack.size() == gram.size() - n) {
@@ -650,7 +657,7 @@ float TreeGram::log_prob_i(const Gram &gram) {
   const int looptill = std::min(gram.size(), (size_t)m_order);
   for (int n = 1; n <= looptill; n++) {
     fetch_gram(gram, gram.size() - n);
-    if (m_fetch_stack.size() < n - 1 || n > m_order) {
+    if (m_fetch_stack.empty() || m_fetch_stack.size() < n - 1 || n > m_order) {
       continue;
       // return(safelogprob(prob));
     }
-- 
2.43.0


From 126dd0d1032c14598d80545adda58b0cd3eb820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 16/26] fix: Storage overflowed on long words and read past the
 end of short data

---
 src/Storage_tmpl.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Storage_tmpl.hh b/src/Storage_tmpl.hh
index ebcedc9..9693be1 100644
--- a/src/Storage_tmpl.hh
+++ b/src/Storage_tmpl.hh
@@ -30,7 +30,7 @@ void Storage_t<T, ICT>::initialize_fast_search_lists(
   size_t i;
 
   if (this->clear_lm_history == -1) {
-    for (i = 0; i < order - 1; i++)
+    for (i = 0; i < order - 1 && i < this->size(); i++)
       v.push_back(this->datavec[i]);
     v.push_back(0); // Make the vector right size
     for (; i < this->size(); i++) {
@@ -134,17 +134,17 @@ void Storage_t<T, ICT>::init_fsl_file(const int order,
 
   io::Stream in(fname, "r", io::REOPENABLE);
   std::vector<T> v;
-  char sbuf[MAX_WLEN];
+  char sbuf[MAX_WLEN + 1];
 
   if (this->clear_lm_history == -1) {
     for (int i = 0; i < order - 1; i++) {
-      if (fscanf(in.file, "%s", sbuf) != 1)
+      if (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) != 1)
         return;
       v.push_back(voc->word_index(sbuf));
     }
     v.push_back(0); // vector is of right size
 
-    while (fscanf(in.file, "%s", sbuf) == 1) {
+    while (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) == 1) {
       indextype idx = FindEntry(m_refmat->m, (byte *)(&v[0]), 0);
       // fprintf(stderr,"%d: idx %d(<%d) ",i,idx,m_lists.size());
       T widx = voc->word_index(sbuf);
@@ -159,7 +159,7 @@ void Storage_t<T, ICT>::init_fsl_file(const int order,
         v[j] = v[j + 1];
     }
   } else {
-    while (fscanf(in.file, "%s", sbuf) == 1) {
+    while (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) == 1) {
       T widx = voc->word_index(sbuf);
       if (widx == this->clear_lm_history)
         v.clear();
-- 
2.43.0


From ee86d18059e39e1575f5bea76d3abf1abf2eb926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 17/26] fix: long tokens overflowed the buffers of Perplexity
 and check_model

---
 app/check_model.cc     | 8 ++++----
 src/PerplexityFuncs.cc | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/app/check_model.cc b/app/check_model.cc
index 26c3324..62c91b5 100644
--- a/app/check_model.cc
+++ b/app/check_model.cc
@@ -75,20 +75,20 @@ int main(int argc, char **argv) {
 
   if (!datafile) {
     std::deque<int> gram;
-    char tmpbuf[MAX_WLEN];
-    while (fscanf(txtin.file, "%s", tmpbuf) != EOF)
+    char tmpbuf[MAX_WLEN + 1];
+    while (fscanf(txtin.file, MAX_WLEN_FMT_STRING, tmpbuf) != EOF)
       gram.push_back(tg->word_index(tmpbuf));
     check_gram(gram, true);
     txtin.close();
     exit(0);
   }
 
-  char word[MAX_WLEN];
+  char word[MAX_WLEN + 1];
   std::deque<int> history;
   int errors = 0;
   int num_words = 0;
   while (true) {
-    const int fsc = fscanf(txtin.file, "%s", word);
+    const int fsc = fscanf(txtin.file, MAX_WLEN_FMT_STRING, word);
     if (!fsc || fsc == EOF)
       break;
     num_words++;
diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index f2629f5..644bcaa 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -122,12 +122,12 @@ void Perplexity::init_special_symbols(const std::string ccs_name,
 }
 
 void Perplexity::find_indices(const std::string fname, std::vector<int> &vec) {
-  char buf[1000];
+  char buf[MAX_WLEN + 1];
 
   io::Stream in(fname, "r");
   int temp;
   while (true) {
-    int i = fscanf(in.file, "%s", buf);
+    int i = fscanf(in.file, MAX_WLEN_FMT_STRING, buf);
     if (!i || i == EOF)
       break;
 
@@ -140,10 +140,10 @@ void Perplexity::find_indices(const std::string fname, std::vector<int> &vec) {
 
 void Perplexity::load_mbs(const std::string fname,
                           std::vector<std::string> &vec) {
-  char buf[1000];
+  char buf[MAX_WLEN + 1];
   io::Stream in(fname, "r");
   while (true) {
-    int i = fscanf(in.file, "%s", buf);
+    int i = fscanf(in.file, MAX_WLEN_FMT_STRING, buf);
     if (!i || i == EOF)
       break;
     std::string sbuf(buf);
-- 
2.43.0


From 85aa1b2585823e3a515761e8eac1c2a212d3e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 18/26] fix: Perplexity::sentence_logprob overflowed its token
 buffer

---
 src/PerplexityFuncs.cc | 24 ++++++++----------------
 src/PerplexityFuncs.hh |  2 --
 2 files changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index 644bcaa..c52f23e 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -9,8 +9,6 @@ Perplexity::Perplexity(const char *lm_name) {
   init_variables();
   m_lm.reset(new TreeGram());
   m_lm->set_oov("<UNK>");
-  m_tmpstring_length = 100;
-  m_tmpstring = (char *)malloc(m_tmpstring_length * sizeof(char));
   m_print_unk_warn = false;
   m_skip_unk_prob = true;
 
@@ -153,21 +151,15 @@ void Perplexity::load_mbs(const std::string fname,
 
 float Perplexity::sentence_logprob(const char *sentence_in) {
   float lpsum = 0.0, foo;
-  char *sentence = strdup(sentence_in);
-  char *cptr = strtok(sentence, " ");
-
-  if (strlen(sentence) > m_tmpstring_length) {
-    m_tmpstring_length = strlen(sentence);
-    m_tmpstring =
-        (char *)realloc(m_tmpstring, m_tmpstring_length * sizeof(char));
-  }
-
-  while (cptr) {
-    sscanf(cptr, "%s", m_tmpstring);
-    lpsum += logprob(m_tmpstring, foo);
-    cptr = strtok(NULL, " ");
+  const char *const spaces = " \t\n\v\f\r";
+  const std::string sentence(sentence_in);
+  size_t end = 0, start;
+
+  while ((start = sentence.find_first_not_of(spaces, end)) !=
+         std::string::npos) {
+    end = std::min(sentence.find_first_of(spaces, start), sentence.length());
+    lpsum += logprob(sentence.substr(start, end - start).c_str(), foo);
   }
-  free(sentence);
   return -lpsum;
 }
 
diff --git a/src/PerplexityFuncs.hh b/src/PerplexityFuncs.hh
index 1c89fd2..d1f4544 100644
--- a/src/PerplexityFuncs.hh
+++ b/src/PerplexityFuncs.hh
@@ -84,8 +84,6 @@ private:
   void init_special_symbols(const std::string ccs_name,
                             const std::string wb_name,
                             const std::string mb_name);
-  char *m_tmpstring;
-  int m_tmpstring_length;
   wb_type m_wb_type;
   bool is_wb(int idx);
   bool is_mb(std::string w);
-- 
2.43.0


From 54c7920da655235a250fdb3c3e96c5c86d593c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 19/26] fix: Perplexity lost or misplaced the parts of words
 with unknown morphs

---
 src/PerplexityFuncs.cc | 15 ++++++++-------
 src/PerplexityFuncs.hh |  2 +-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index c52f23e..bad372b 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -173,7 +173,7 @@ float Perplexity::logprob(const char *word, float &cur_word_lp) {
 
   int idx = m_lm->word_index(word);
   if (m_cur_init_hist > 0) {
-    if (strncmp("<s>", word, 3) && is_wb(idx)) {
+    if (strncmp("<s>", word, 3) && is_wb(idx, word)) {
       m_num_pwords++;
     }
     m_cur_init_hist--;
@@ -193,8 +193,10 @@ float Perplexity::logprob(const char *word, float &cur_word_lp) {
     m_num_tunks++;
     if (m_wb_type == MB_LISTED && !is_mb(word)) {
       m_num_unks++;
-      cur_word_lp = m_cw_lpsum;
-      m_cw_lpsum = 0.0;
+      if (m_skip_unk_prob) {
+        cur_word_lp = m_cw_lpsum;
+        m_cw_lpsum = 0.0;
+      }
     } else if (m_wb_type == EVERYTIME) {
       m_num_unks++;
     } else {
@@ -228,7 +230,7 @@ float Perplexity::logprob(const char *word, float &cur_word_lp) {
 
   m_num_ptokens++;
   m_cw_lpsum += lp;
-  if (is_wb(idx)) {
+  if (is_wb(idx, word)) {
     if (m_unkflag) {
       m_unkflag = 0;
       m_num_unks++;
@@ -262,7 +264,7 @@ int Perplexity::get_hitorder(int i) {
   return ngram_hits[i];
 }
 
-bool Perplexity::is_wb(int idx) {
+bool Perplexity::is_wb(int idx, const char *word) {
   if (m_wb_type == EVERYTIME)
     return (true);
 
@@ -271,8 +273,7 @@ bool Perplexity::is_wb(int idx) {
     return (true);
 
   if (m_wb_type == MB_LISTED) {
-    const std::string &w = m_lm->word(idx);
-    bool mb = is_mb(w);
+    bool mb = is_mb(word); // the token itself, it may be unknown to the model
     if (mb) {
       return (false); // there is morph boundary preceeding/following the token
     } else {
diff --git a/src/PerplexityFuncs.hh b/src/PerplexityFuncs.hh
index d1f4544..927782e 100644
--- a/src/PerplexityFuncs.hh
+++ b/src/PerplexityFuncs.hh
@@ -85,7 +85,7 @@ private:
                             const std::string wb_name,
                             const std::string mb_name);
   wb_type m_wb_type;
-  bool is_wb(int idx);
+  bool is_wb(int idx, const char *word);
   bool is_mb(std::string w);
   bool m_print_unk_warn;
   bool m_skip_unk_prob;
-- 
2.43.0


From db417f70c37b3b4f20807b628fd1295f6be7038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 20/26] fix: Perplexity weighted the wrong model and overflowed
 its hits after swapping models

---
 app/perplexity.cc      | 2 +-
 src/PerplexityFuncs.cc | 3 +++
 src/PerplexityFuncs.hh | 4 +++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/app/perplexity.cc b/app/perplexity.cc
index 73ac2be..538f456 100644
--- a/app/perplexity.cc
+++ b/app/perplexity.cc
@@ -117,7 +117,7 @@ int main(int argc, char *argv[]) {
                               unk_symbol, true, skip_unks));
       lm->set_interpolation(config["interpolate"].get_str());
       if (config["inter_coeff"].specified) {
-        lm->set_alpha(config["inter_coeff"].get_double());
+        lm->set_alpha(1.0 - config["inter_coeff"].get_double());
       }
     } else {
       // Interpolate the new way, using InterTreeGram
diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index bad372b..624dd24 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -82,6 +82,7 @@ void Perplexity::init_variables() {
   m_token_perplexity = 0.0;
   m_lm2.reset();
   m_alpha = 0.5;
+  m_swapped = false;
   m_init_hist = m_cur_init_hist = 0;
   m_num_sent_ends = 0;
   m_cw_lpsum = 0.0;
@@ -439,6 +440,8 @@ void Perplexity::set_interpolation(std::string lm_name) {
     m_lm2 = m_lm;
     m_lm = tmp_lm;
     m_alpha = 1 - m_alpha;
+    m_swapped = !m_swapped;
+    ngram_hits.resize(m_lm->order() + 1, 0);
   }
 
   assert(m_lm->num_words() == m_lm2->num_words());
diff --git a/src/PerplexityFuncs.hh b/src/PerplexityFuncs.hh
index 927782e..c58876c 100644
--- a/src/PerplexityFuncs.hh
+++ b/src/PerplexityFuncs.hh
@@ -51,9 +51,10 @@ public:
   bool bryan_wc;
 
   // For interpolation
+  // The weight of the main model, the other one gets the rest
   inline void set_alpha(float a) {
     assert(a >= 0 && a <= 1.0);
-    m_alpha = a;
+    m_alpha = m_swapped ? 1 - a : a;
   }
   // The interpolated language models must have the same vocabulary !
   void set_interpolation(std::string lm_name);
@@ -109,6 +110,7 @@ private:
 
   // For interpolations
   float m_alpha;
+  bool m_swapped; // m_lm is the interpolated model, m_lm2 the main one
 
   // For getting unknown words correct with subword models
   bool m_unkflag;
-- 
2.43.0


From a3249266b88c7d778565bd3489add34ff07abf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:35 +0000
Subject: [PATCH 21/26] fix: QFit stepped out of its bracket and repeated one
 step until it ran out of iterations

---
 src/QFit.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/QFit.cc b/src/QFit.cc
index cf0d67f..620c64a 100644
--- a/src/QFit.cc
+++ b/src/QFit.cc
@@ -75,10 +75,11 @@ std::vector<float> QFit::minimize(int maxiter) {
           // print_indices(stderr,m_res);fprintf(stderr,"\n");
           t = m_qe->evaluate(m_res);
           if (fabs(l - l2) < utol / 4) {
+            // Step to the longer side, it is at least utol / 2 long
             if (l2 - l1 < l3 - l2)
-              l = l + utol / 2;
+              l = l2 + utol / 4;
             else
-              l = l - utol / 2;
+              l = l2 - utol / 4;
           }
           m_res[c] = l;
           // print_indices(stderr,m_res);fprintf(stderr,"\n");
-- 
2.43.0


From 7147121b1d67ac9607f4b6d562850767f7af02dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:35 +0000
Subject: [PATCH 22/26] fix: QFit took a position for a function value when
 moving its lower limit

---
 src/QFit.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QFit.cc b/src/QFit.cc
index 620c64a..99c8152 100644
--- a/src/QFit.cc
+++ b/src/QFit.cc
@@ -50,7 +50,7 @@ std::vector<float> QFit::minimize(int maxiter) {
           if (t2 >= t3) {
             // fprintf(stderr," a\n");
             l1 = l2;
-            t1 = l2;
+            t1 = t2;
           } else {
             // fprintf(stderr," b\n");
             l3 = l2;
-- 
2.43.0


From d3fb1be0b5bceaed5e5b3986d205d2aa4ea1a6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:35 +0000
Subject: [PATCH 23/26] fix: a model made from highest order counts had no
 vocabulary

---
 src/InterKn_tmpl.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 4607556..73733a0 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -690,6 +690,7 @@ void InterKn_t<KT, CT>::constructor_helper(
       fprintf(stderr, "Reading counts for the highest order\n");
       NgramCounts_t<KT, CT> *ng = new NgramCounts_t<KT, CT>(order, 0, hashsize);
       ng->read(datain.file, vocabin.file);
+      ng->vocab->copy_vocab_to(this->vocab);
       this->moc->UseAsCounts(ng->counts);
     } else {
       /* The counts include all orders and have already been KN-discounted */
-- 
2.43.0


From d7e28b9f9791a4b4f33b6eec3d67acd08f55c9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:35 +0000
Subject: [PATCH 24/26] fix: --ndrop was ignored with --smallvocab

---
 src/InterKn_tmpl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 73733a0..6cdf9d4 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -757,7 +757,7 @@ void InterKn_t<KT, CT>::constructor_helper(
         if (!this->KT_is_short((KT *)NULL))
           nc_tmp.shrink(ndrop, nfirst);
         else {
-          nc_tmp.shrink(0, std::min(65534, nfirst));
+          nc_tmp.shrink(ndrop, std::min(65534, nfirst));
         }
         nc_tmp.vocab->copy_vocab_to(this->vocab);
         datain.open(this->m_data_name, "r");
-- 
2.43.0


From efa85289e74b066e66d0839e2b327a3731ce8e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:52 +0000
Subject: [PATCH 25/26] fix: reading broken count files, or files of models
 with other discounts, read past the fields

---
 src/MultiOrderCounts.hh      |  5 +++++
 src/MultiOrderCounts_tmpl.hh | 29 ++++++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/MultiOrderCounts.hh b/src/MultiOrderCounts.hh
index 51f5ae2..8eedbd2 100644
--- a/src/MultiOrderCounts.hh
+++ b/src/MultiOrderCounts.hh
@@ -397,6 +397,7 @@ public:
 protected:
   virtual void WriteCounts_BOhelper(FILE *out, BOT *bo) = 0;
   virtual void ReadCounts_BOhelper(BOT *bo, std::string *s, bool *ok) = 0;
+  virtual int NumBackoffFields() = 0; // Numbers in the file for one BOT
   void allocate_matrices_backoffs(int o);
   BOT m_uni_bo;
 
@@ -460,6 +461,7 @@ private:
     this->write_num(out, bo->prune_den);
   }
 
+  inline int NumBackoffFields() { return 3; }
   inline void ReadCounts_BOhelper(bo_c *bo, std::string *s, bool *ok) {
     bo->nzer = str::str2long(s, ok);
     bo->den = str::str2long(s + 1, ok);
@@ -489,6 +491,7 @@ public:
 private:
   void clear_lden(const int o);
   inline void WriteCounts_BOhelper(FILE *out, bo_c_fp *bo) { assert(false); }
+  inline int NumBackoffFields() { return 0; }
   inline void ReadCounts_BOhelper(bo_c_fp *bo, std::string *s, bool *ok) {
     assert(false);
   }
@@ -530,6 +533,7 @@ private:
     fprintf(out, "%ld %ld %ld %ld %ld", (long)bo->nzer[0], (long)bo->nzer[1],
             (long)bo->nzer[2], (long)bo->den, (long)bo->prune_den);
   }
+  inline int NumBackoffFields() { return 5; }
   inline void ReadCounts_BOhelper(bo_3c *bo, std::string *s, bool *ok) {
     bo->nzer[0] = str::str2long(s, ok);
     // fprintf(stderr,"nz %s=%d(%d)\n",s->c_str(), bo->nzer[0], ok);
@@ -555,6 +559,7 @@ class MultiOrderCounts_3nzer_fp
 
 private:
   inline void WriteCounts_BOhelper(FILE *out, bo_3c_fp *bo) { assert(false); }
+  inline int NumBackoffFields() { return 0; }
   inline void ReadCounts_BOhelper(bo_3c_fp *bo, std::string *s, bool *ok) {
     assert(false);
   }
diff --git a/src/MultiOrderCounts_tmpl.hh b/src/MultiOrderCounts_tmpl.hh
index 6fb1447..632c99a 100644
--- a/src/MultiOrderCounts_tmpl.hh
+++ b/src/MultiOrderCounts_tmpl.hh
@@ -319,28 +319,43 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in) {
 
     if (line[0] == '\\') {
       str::split(&line, "-", true, &vec);
+      if (vec.size() < 2) {
+        fprintf(stderr, "Error reading line %ld.\n%s\nExit.\n", lineno,
+                line.c_str());
+        exit(-1);
+      }
       vec[0][0] = ' ';
       order = str::str2long(&vec[0], &ok);
+      if (order < 1)
+        ok = false;
       // fprintf(stderr,"ordered %s=%d(%d)\n", vec[0].c_str(), order, ok);
       // fprintf(stderr,"comparestring *%s*\n", vec[1].c_str());
-      if (!strcmp("gram counts", vec[1].c_str())) {
+      if (!strcmp("gram counts", vec[1].c_str()))
         read_backoffs = false;
-        v.resize(order);
-      } else if (!strcmp("gram backoffs", vec[1].c_str())) {
+      else if (!strcmp("gram backoffs", vec[1].c_str()))
         read_backoffs = true;
-        v.resize(order - 1);
-      } else
+      else
         ok = false;
       if (!ok) {
         fprintf(stderr, "Error reading line %ld.\n%s\nExit.\n", lineno,
                 line.c_str());
         exit(-1);
       }
+      v.resize(read_backoffs ? order - 1 : order);
       continue;
     }
 
     str::split(&line, " \t", true, &vec);
     // fprintf(stderr,"ORDER %d\n", order);
+    // "[ indices ] numbers", as many numbers as this kind of model has
+    const int expected =
+        read_backoffs ? order + 1 + NumBackoffFields() : order + 3;
+    if (order < 1 || (int)vec.size() < expected ||
+        ((int)vec.size() > expected && vec[expected].size())) {
+      fprintf(stderr, "Error reading line %ld:\n%s\nExit4.\n", lineno,
+              line.c_str());
+      exit(-1);
+    }
     if (!read_backoffs) {
       for (int i = 1; i <= order; i++) {
         v[i - 1] = str::str2long(&vec[i], &ok);
@@ -368,6 +383,10 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in) {
     }
     SetBackoff(order, &v[0], &bo_val);
   }
+  if (this->order() < 1) {
+    fprintf(stderr, "No counts in the counts file.\nExit.\n");
+    exit(-1);
+  }
 }
 
 template <typename KT, typename CT, typename BOT>
-- 
2.43.0


From 554cfcc5fc370ddabfdab318d73baa048cc8cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:06 +0000
Subject: [PATCH 26/26] fix: stop pruning to a target size when only the
 unigrams are left

---
 src/VarigramFuncs_tmpl.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/VarigramFuncs_tmpl.hh b/src/VarigramFuncs_tmpl.hh
index 98ca2eb..9837ab4 100644
--- a/src/VarigramFuncs_tmpl.hh
+++ b/src/VarigramFuncs_tmpl.hh
@@ -197,7 +197,9 @@ template <typename KT, typename ICT> void Varigram_t<KT, ICT>::prune() {
     indextype prev_num_grams = m_kn->num_grams();
     double prev_scale = cur_scale * 2;
 
-    while (double(m_kn->num_grams()) > double(m_ngram_prune_target) * 1.03) {
+    // The unigrams always stay
+    while (double(m_kn->num_grams()) > double(m_ngram_prune_target) * 1.03 &&
+           m_kn->num_grams() > m_kn->MocOrderSize(1)) {
 
       if (round == 0) {
         fprintf(stderr, "Currently %d ngrams. First prune with E=D=%.5f\n",
-- 
2.43.0

