From b369f532538915d6b58c4fd7775987e4c67ba182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 01/26] fix: updating the OOV unigram must not disable the
 order and duplicate checks of later insertions

---
 src/TreeGram.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index c602fab..1fa964a 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -310,7 +310,10 @@ void TreeGram::add_gram(const Gram &gram, float log_prob, float back_off,
   if (m_nodes.back().child_index != -1) {
     fprintf(stderr, "TreeGram: Warning, hope you will call finalize()...\n");
   }
-  m_last_gram = gram;
+  // Updating OOV must not make check_order() and find_path() forget the
+  // last inserted gram.
+  if (gram.size() > 1 || gram[0] != 0 || m_last_gram.empty())
+    m_last_gram = gram;
   assert(m_order == m_last_gram.size());
 }
 
-- 
2.43.0


From f3b644554d8c89420c7acea7f0072881ea8238c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 02/26] fix: RemoveDefaultValues skipped the entry moved into
 the place of a removed one

---
 src/sparse_matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_matrix.c b/src/sparse_matrix.c
index 6fa8925..9fb43b6 100644
--- a/src/sparse_matrix.c
+++ b/src/sparse_matrix.c
@@ -499,7 +499,7 @@ void RemoveDefaultValues(struct matrix *m) {
   for (i = 0; i < m->num_entries; i++) {
     if (!memcmp(&(m->data[i * m->size_of_entry]), m->default_value,
                 m->size_of_entry))
-      RemoveEntryIdx(m, i);
+      RemoveEntryIdx(m, i--); /* the last entry was moved to index i */
   }
 }
 
-- 
2.43.0


From 9fe26a9b229816382fb8fc757af68e6f7c91bc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 03/26] fix: CreateMatrix read past the table of primes when
 the requested size exceeds the largest one

---
 src/sparse_matrix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sparse_matrix.c b/src/sparse_matrix.c
index 9fb43b6..14ef1f9 100644
--- a/src/sparse_matrix.c
+++ b/src/sparse_matrix.c
@@ -88,6 +88,7 @@ struct matrix *CreateMatrix(const int keysize, const indextype hashs,
               "prime to sparse_matrix.h.\n",
               (int)pr[i]);
       // exit(-1);
+      break;
     }
   }
   m->hashsize = pr[i];
-- 
2.43.0


From 5658319c42d3580f8fa27b968500a6309b6dc661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 04/26] fix: a sparse matrix created with size zero wrote past
 its empty tables

---
 src/sparse_matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_matrix.c b/src/sparse_matrix.c
index 14ef1f9..494d4fe 100644
--- a/src/sparse_matrix.c
+++ b/src/sparse_matrix.c
@@ -108,7 +108,7 @@ indextype NewEntry(struct matrix *m) {
   */
 
   if (m->num_entries >= m->datasize) {
-    m->datasize *= 2;
+    m->datasize = m->datasize > 0 ? m->datasize * 2 : 1;
     m->keys = (byte *)realloc(m->keys, m->datasize * m->key_size);
     check_malloc(m->keys, "realloc keys");
     m->data = (byte *)realloc(m->data, m->datasize * m->size_of_entry);
-- 
2.43.0


From b8b60ecac2d731dbf176c4e170ee2448103f8c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:37 +0000
Subject: [PATCH 05/26] fix: do not read past the last node in look-ahead lists
 and iterator moves

---
 src/TreeGram.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index 1fa964a..0de0026 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -536,7 +536,9 @@ void TreeGram::fetch_bigram_list(int prev_word_id,
 
   // Fill the bigram probabilities
   child_index = m_nodes[prev_word_id].child_index;
-  next_child_index = m_nodes[prev_word_id + 1].child_index;
+  next_child_index = (size_t)prev_word_id + 1 < m_nodes.size()
+                         ? m_nodes[prev_word_id + 1].child_index
+                         : -1;
   if (child_index != -1 && next_child_index > child_index) {
     for (i = child_index; i < next_child_index; i++)
       lm_buf[m_nodes[i].word] = m_nodes[i].log_prob;
@@ -584,7 +586,9 @@ void TreeGram::fetch_trigram_list(int w1, int w2,
 
     // Fill trigram probabilities
     child_index = m_nodes[bigram_index].child_index;
-    next_child_index = m_nodes[bigram_index + 1].child_index;
+    next_child_index = (size_t)bigram_index + 1 < m_nodes.size()
+                           ? m_nodes[bigram_index + 1].child_index
+                           : -1;
     if (child_index != -1 && next_child_index > child_index) {
       for (i = child_index; i < next_child_index; i++)
         lm_buf[m_nodes[i].word] = m_nodes[i].log_prob;
@@ -794,6 +798,9 @@ bool TreeGram::Iterator::up() {
 }
 
 bool TreeGram::Iterator::down() {
+  // The last node has no next node, nor children
+  if ((size_t)m_index_stack.back() + 1 >= m_gram->m_nodes.size())
+    return false;
   Node &node = m_gram->m_nodes[m_index_stack.back()];
   Node &next = m_gram->m_nodes[m_index_stack.back() + 1];
   if (node.child_index < 0 || next.child_index < 0 ||
@@ -804,6 +811,9 @@ bool TreeGram::Iterator::down() {
 }
 
 bool TreeGram::Iterator::has_children() {
+  // The last node has no next node, nor children
+  if ((size_t)m_index_stack.back() + 1 >= m_gram->m_nodes.size())
+    return false;
   Node &node = m_gram->m_nodes[m_index_stack.back()];
   Node &next = m_gram->m_nodes[m_index_stack.back() + 1];
   if (node.child_index < 0 || next.child_index < 0 ||
-- 
2.43.0


From 32dfd35fe6cef40cb8db5dca117ffaec8e0dde27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:44 +0000
Subject: [PATCH 06/26] fix: ARPA writer dropped non-zero back-off weights of
 contexts without children

---
 src/TreeGramArpaReader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/TreeGramArpaReader.cc b/src/TreeGramArpaReader.cc
index 329978b..ba92a87 100644
--- a/src/TreeGramArpaReader.cc
+++ b/src/TreeGramArpaReader.cc
@@ -97,8 +97,8 @@ void TreeGramArpaReader::write(FILE *out, TreeGram *tree_gram,
         fprintf(out, " %s", tree_gram->word(iter.node(j).word).c_str());
       }
 
-      // Possible backoff
-      if (iter.has_children())
+      // Possible backoff.  It matters also for contexts without children.
+      if (iter.has_children() || iter.node().back_off != 0)
         fprintf(out, "%s%g\n", field_separator.c_str(), iter.node().back_off);
       else
         fprintf(out, "\n");
@@ -147,8 +147,8 @@ void TreeGramArpaReader::write_interpolated(FILE *out, TreeGram *tree_gram,
         fprintf(out, " %s", tree_gram->word(indices[j - 1]).c_str());
       }
 
-      // Possible backoff
-      if (iter.has_children())
+      // Possible backoff.  It matters also for contexts without children.
+      if (iter.has_children() || iter.node().back_off != 0)
         fprintf(out, "%s%g\n", field_separator.c_str(), iter.node().back_off);
       else
         fprintf(out, "\n");
-- 
2.43.0


From ed3c8699d02d440c322e5eeeb5411d665967bee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:44 +0000
Subject: [PATCH 07/26] fix: refuse ARPA n-gram lines whose probability or
 back-off column is not a number

---
 src/ArpaReader.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ArpaReader.cc b/src/ArpaReader.cc
index 1493ae5..d7aabbb 100644
--- a/src/ArpaReader.cc
+++ b/src/ArpaReader.cc
@@ -178,11 +178,16 @@ bool ArpaReader::next_gram(FILE *file, std::string &line,
   // FIXME: should we deny new words in higher order ngrams?
 
   // Parse log-probability, back-off weight and word indices
-  // FIXME: check the conversion of floats
-  log_prob = strtod(m_vec[0].c_str(), NULL);
+  char *end;
+  log_prob = strtod(m_vec[0].c_str(), &end);
+  if (*end != '\0')
+    read_error();
   back_off = 0;
-  if (m_vec.size() == m_read_order + 2)
-    back_off = strtod(m_vec[m_read_order + 1].c_str(), NULL);
+  if (m_vec.size() == m_read_order + 2) {
+    back_off = strtod(m_vec[m_read_order + 1].c_str(), &end);
+    if (*end != '\0')
+      read_error();
+  }
 
   // Add the gram to sorter
   // fprintf(stderr,"add gram [");
-- 
2.43.0


From f5dcc06683f92b1704ca720845981bc39c5bb12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 08/26] fix: refuse ARPA files without n-gram counts instead of
 reading past the count table

---
 src/ArpaReader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ArpaReader.cc b/src/ArpaReader.cc
index d7aabbb..20181c3 100644
--- a/src/ArpaReader.cc
+++ b/src/ArpaReader.cc
@@ -58,8 +58,11 @@ void ArpaReader::read_header(FILE *file, bool &interpolated,
     }
 
     // Header ends in a \-command
-    if (line[0] == '\\')
+    if (line[0] == '\\') {
+      if (counts.empty())
+        read_error();
       break;
+    }
 
     // Skip empty lines
     if (line.find_first_not_of(" \t\n") == line.npos)
-- 
2.43.0


From aa497d7ebb00c48477fb3650738bfe29d5e4c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 09/26] fix: refuse malformed ARPA section headers instead of
 reading past the split line

---
 src/ArpaReader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ArpaReader.cc b/src/ArpaReader.cc
index 20181c3..a7066f1 100644
--- a/src/ArpaReader.cc
+++ b/src/ArpaReader.cc
@@ -138,7 +138,8 @@ bool ArpaReader::next_gram(FILE *file, std::string &line,
     str::clean(&line, " \t");
     str::split(&line, "-", false, &m_vec);
 
-    if (atoi(m_vec[0].substr(1).c_str()) != m_read_order ||
+    if (m_vec.size() != 2 ||
+        atoi(m_vec[0].substr(1).c_str()) != m_read_order ||
         m_vec[1] != "grams:") {
       fprintf(stderr,
               "ArpaReader::next_gram(): "
-- 
2.43.0


From 3bbe4bab702f3daeeb0c71a57978d17b00bbb730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:12 +0000
Subject: [PATCH 10/26] fix: refuse binary models whose header announces no
 nodes

---
 src/TreeGram.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index 0de0026..bb574a3 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -446,7 +446,8 @@ void TreeGram::read(FILE *file, bool binary) {
 
   // Read the order and the number of nodes
   int number_of_nodes;
-  if (fscanf(file, "%d %d\n", &m_order, &number_of_nodes) != 2) {
+  if (fscanf(file, "%d %d\n", &m_order, &number_of_nodes) != 2 ||
+      number_of_nodes < 1) {
     throw ReadError();
   }
 
-- 
2.43.0


From b575a1b6a173e886810b3871e2220c84726b0709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 11/26] fix: hash models dropped positive back-off weights when
 reading and writing ARPA files

---
 src/HashGram_tmpl.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index cc697a8..2f10386 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -41,7 +41,7 @@ template <typename KT> void HashGram_t<KT>::read_real(FILE *file) {
     if (log_prob > MINLOGPROB) {
       probs[order]->setvalue(&gram[0], log_prob);
     }
-    if (back_off < 0) {
+    if (back_off != 0) {
       backoffs[order]->setvalue(&gram[0], back_off);
     }
   }
@@ -58,7 +58,7 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     float logprob, bo;
     backoffs[o]->stepthrough(true, &gram[0], &logprob);
     while (backoffs[o]->stepthrough(false, &gram[0], &bo)) {
-      if (bo >= 0.0)
+      if (bo == 0.0)
         continue;
       FindEntry(probs[o]->m, (byte *)(&gram[0]), 1);
     }
@@ -70,7 +70,7 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     probs[o]->stepthrough(true, &gram[0], &logprob);
     while (probs[o]->stepthrough(false, &gram[0], &logprob)) {
       bo = backoffs[o]->getvalue(&gram[0]);
-      if (m_print_zerograms || logprob > MINLOGPROB || bo < 0)
+      if (m_print_zerograms || logprob > MINLOGPROB || bo != 0)
         num_grams[o]++;
     }
   }
@@ -90,13 +90,13 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     probs[o]->stepthrough(true, &gram[0], &logprob);
     while (probs[o]->stepthrough(false, &gram[0], &logprob)) {
       bo = backoffs[o]->getvalue(&gram[0]);
-      if (!m_print_zerograms && (logprob <= MINLOGPROB && bo >= 0))
+      if (!m_print_zerograms && (logprob <= MINLOGPROB && bo == 0))
         continue;
       fprintf(out, "%.4f", logprob);
       fprintf(out, "%s%s", field_separator.c_str(), word(gram[0]).c_str());
       for (int i = 1; i < o; i++)
         fprintf(out, " %s", word(gram[i]).c_str());
-      if (bo < 0)
+      if (bo != 0)
         fprintf(out, "%s%.4f", field_separator.c_str(), bo);
       fprintf(out, "\n");
     }
-- 
2.43.0


From 2652215ba570bf0ec3749d0b0ed9bf178e0ac2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 12/26] fix: hash models with an empty n-gram section crashed
 on the first query

---
 src/HashGram_tmpl.hh | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index 2f10386..d9d8c95 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -23,19 +23,17 @@ template <typename KT> void HashGram_t<KT>::read_real(FILE *file) {
   m_order = areader.counts.size();
   probs.resize(m_order + 1);
   backoffs.resize(m_order + 1);
+  for (int order = 1; order <= m_order; order++) {
+    probs[order] = new sikMatrix<KT, float>(order, areader.counts[order - 1],
+                                            MINLOGPROB);
+    backoffs[order] =
+        new sikMatrix<KT, float>(order, areader.counts[order - 1], 0.0);
+  }
 
   std::vector<int> tmp_gram(1);
   float log_prob, back_off;
-  int prev_order = 0;
   while (areader.next_gram(file, line, tmp_gram, log_prob, back_off)) {
     int order = tmp_gram.size();
-    if (order > prev_order) {
-      probs[order] = new sikMatrix<KT, float>(order, areader.counts[order - 1],
-                                              MINLOGPROB);
-      backoffs[order] =
-          new sikMatrix<KT, float>(order, areader.counts[order - 1], 0.0);
-      prev_order = order;
-    }
     // Inefficiency due to abstracting ArpaReader out
     std::vector<KT> gram(tmp_gram.begin(), tmp_gram.end());
     if (log_prob > MINLOGPROB) {
-- 
2.43.0


From 9d2528745027457b91e45eaed4b827f547200219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:58 +0000
Subject: [PATCH 13/26] fix: counting from memory without a sentence start
 symbol treated unknown words as sentence starts

---
 src/InterKn_tmpl.hh | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 8677c92..491bfd5 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -724,8 +724,11 @@ void InterKn_t<KT, CT>::constructor_helper(
         // fprintf(stderr,"Init from file\n");
         datastorage->read(datain.file, this->vocab);
         // fprintf(stderr,"All read\n");
-        int sent_start_idx = this->vocab.word_index(sent_start_symbol);
-        if (sent_start_idx == 0 && sent_start_symbol.length()) {
+        const int sent_start_idx =
+            sent_start_symbol.length()
+                ? this->vocab.word_index(sent_start_symbol)
+                : -1;
+        if (sent_start_idx == 0) {
           fprintf(stderr, "No sentence start %s(len %d) in vocab, exit.\n",
                   sent_start_symbol.c_str(), (int)sent_start_symbol.length());
           exit(-1);
@@ -761,8 +764,11 @@ void InterKn_t<KT, CT>::constructor_helper(
               datain.file, &(this->vocab), false, order, sent_start_symbol);
         } else {
           datastorage->read(datain.file, this->vocab);
-          int sent_start_idx = this->vocab.word_index(sent_start_symbol);
-          if (sent_start_idx == 0 && sent_start_symbol.length()) {
+          const int sent_start_idx =
+              sent_start_symbol.length()
+                  ? this->vocab.word_index(sent_start_symbol)
+                  : -1;
+          if (sent_start_idx == 0) {
             fprintf(stderr, "No sentence start %s(len %d) in vocab, exit.\n",
                     sent_start_symbol.c_str(), (int)sent_start_symbol.length());
             exit(-1);
-- 
2.43.0


From 322457df6cefbe22f9a4ab1cabde0fe21cc57544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:58 +0000
Subject: [PATCH 14/26] fix: search lists read past the end of training data
 shorter than the context

---
 src/Storage_tmpl.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Storage_tmpl.hh b/src/Storage_tmpl.hh
index ebcedc9..187d2f3 100644
--- a/src/Storage_tmpl.hh
+++ b/src/Storage_tmpl.hh
@@ -30,6 +30,8 @@ void Storage_t<T, ICT>::initialize_fast_search_lists(
   size_t i;
 
   if (this->clear_lm_history == -1) {
+    if (this->size() + 1 < order) // No room for any context
+      return;
     for (i = 0; i < order - 1; i++)
       v.push_back(this->datavec[i]);
     v.push_back(0); // Make the vector right size
-- 
2.43.0


From 338c3d2e2eacbf4b4cd69e8e553b7a107959a882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:58 +0000
Subject: [PATCH 15/26] fix: init_fsl_file wrote past its buffer on long words

---
 src/Storage_tmpl.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Storage_tmpl.hh b/src/Storage_tmpl.hh
index 187d2f3..d6e2f00 100644
--- a/src/Storage_tmpl.hh
+++ b/src/Storage_tmpl.hh
@@ -136,17 +136,17 @@ void Storage_t<T, ICT>::init_fsl_file(const int order,
 
   io::Stream in(fname, "r", io::REOPENABLE);
   std::vector<T> v;
-  char sbuf[MAX_WLEN];
+  char sbuf[MAX_WLEN + 1];
 
   if (this->clear_lm_history == -1) {
     for (int i = 0; i < order - 1; i++) {
-      if (fscanf(in.file, "%s", sbuf) != 1)
+      if (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) != 1)
         return;
       v.push_back(voc->word_index(sbuf));
     }
     v.push_back(0); // vector is of right size
 
-    while (fscanf(in.file, "%s", sbuf) == 1) {
+    while (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) == 1) {
       indextype idx = FindEntry(m_refmat->m, (byte *)(&v[0]), 0);
       // fprintf(stderr,"%d: idx %d(<%d) ",i,idx,m_lists.size());
       T widx = voc->word_index(sbuf);
@@ -161,7 +161,7 @@ void Storage_t<T, ICT>::init_fsl_file(const int order,
         v[j] = v[j + 1];
     }
   } else {
-    while (fscanf(in.file, "%s", sbuf) == 1) {
+    while (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) == 1) {
       T widx = voc->word_index(sbuf);
       if (widx == this->clear_lm_history)
         v.clear();
-- 
2.43.0


From 34b74e6f6f4c91acd77faffee317e161283d4d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 16/26] fix: removing the sentence start probability twice
 broke the unigram statistics

---
 src/InterKn_tmpl.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 491bfd5..8355516 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -199,6 +199,8 @@ template <typename BOT>
 void InterKn_int_disc<KT, ICT>::remove_sent_start_prob_fbase(BOT *dummy) {
   std::vector<KT> tmp(1, (KT)this->m_sent_boundary);
   const ICT value = this->moc->GetCount(tmp);
+  if (value == 0) // Nothing to remove
+    return;
   this->moc->IncrementCount(tmp, -value);
   BOT bo;
   this->moc->zero_bo(bo);
@@ -212,6 +214,8 @@ template <typename BOT>
 void InterKn_int_disc3<KT, ICT>::remove_sent_start_prob_fbase(BOT *dummy) {
   std::vector<KT> tmp(1, (KT)this->m_sent_boundary);
   const ICT value = this->moc->GetCount(tmp);
+  if (value == 0) // Nothing to remove
+    return;
   this->moc->IncrementCount(tmp, -value);
   BOT bo;
   this->moc->zero_bo(bo);
-- 
2.43.0


From 3265ee86fc2c707fb427861fc4f339c70c003255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:43 +0000
Subject: [PATCH 17/26] fix: sentence_logprob used an uninitialised, too small
 word buffer

---
 src/PerplexityFuncs.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index f2629f5..a157e82 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -9,8 +9,6 @@ Perplexity::Perplexity(const char *lm_name) {
   init_variables();
   m_lm.reset(new TreeGram());
   m_lm->set_oov("<UNK>");
-  m_tmpstring_length = 100;
-  m_tmpstring = (char *)malloc(m_tmpstring_length * sizeof(char));
   m_print_unk_warn = false;
   m_skip_unk_prob = true;
 
@@ -88,6 +86,8 @@ void Perplexity::init_variables() {
   m_num_sent_ends = 0;
   m_cw_lpsum = 0.0;
   m_word_logprob = 0.0;
+  m_tmpstring = NULL;
+  m_tmpstring_length = 0;
 }
 
 void Perplexity::init_special_symbols(const std::string ccs_name,
@@ -154,14 +154,13 @@ void Perplexity::load_mbs(const std::string fname,
 float Perplexity::sentence_logprob(const char *sentence_in) {
   float lpsum = 0.0, foo;
   char *sentence = strdup(sentence_in);
-  char *cptr = strtok(sentence, " ");
-
-  if (strlen(sentence) > m_tmpstring_length) {
-    m_tmpstring_length = strlen(sentence);
+  if ((int)strlen(sentence) + 1 > m_tmpstring_length) {
+    m_tmpstring_length = strlen(sentence) + 1;
     m_tmpstring =
         (char *)realloc(m_tmpstring, m_tmpstring_length * sizeof(char));
   }
 
+  char *cptr = strtok(sentence, " ");
   while (cptr) {
     sscanf(cptr, "%s", m_tmpstring);
     lpsum += logprob(m_tmpstring, foo);
-- 
2.43.0


From 412caa04cb3897a07f5c207c7a55d01baf170645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:43 +0000
Subject: [PATCH 18/26] fix: interpolation with a higher order model counted
 hits past the table

---
 src/PerplexityFuncs.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index a157e82..08ec2ec 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -445,6 +445,7 @@ void Perplexity::set_interpolation(std::string lm_name) {
     m_lm2 = m_lm;
     m_lm = tmp_lm;
     m_alpha = 1 - m_alpha;
+    ngram_hits.resize(m_lm->order() + 1, 0);
   }
 
   assert(m_lm->num_words() == m_lm2->num_words());
-- 
2.43.0


From 45ced454200e40899461205a4f5f2d264c705c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:43 +0000
Subject: [PATCH 19/26] fix: long context cue, word break and morph break
 symbols overran a buffer

---
 src/PerplexityFuncs.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index 08ec2ec..1861b0f 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -122,12 +122,12 @@ void Perplexity::init_special_symbols(const std::string ccs_name,
 }
 
 void Perplexity::find_indices(const std::string fname, std::vector<int> &vec) {
-  char buf[1000];
+  char buf[MAX_WLEN + 1];
 
   io::Stream in(fname, "r");
   int temp;
   while (true) {
-    int i = fscanf(in.file, "%s", buf);
+    int i = fscanf(in.file, MAX_WLEN_FMT_STRING, buf);
     if (!i || i == EOF)
       break;
 
@@ -140,10 +140,10 @@ void Perplexity::find_indices(const std::string fname, std::vector<int> &vec) {
 
 void Perplexity::load_mbs(const std::string fname,
                           std::vector<std::string> &vec) {
-  char buf[1000];
+  char buf[MAX_WLEN + 1];
   io::Stream in(fname, "r");
   while (true) {
-    int i = fscanf(in.file, "%s", buf);
+    int i = fscanf(in.file, MAX_WLEN_FMT_STRING, buf);
     if (!i || i == EOF)
       break;
     std::string sbuf(buf);
-- 
2.43.0


From 108ce1b384398389b90dadfebd835955052f752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:14 +0000
Subject: [PATCH 20/26] fix: mixture look-ahead floored probabilities below the
 range of float

---
 src/InterTreeGram.cc | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/InterTreeGram.cc b/src/InterTreeGram.cc
index 2a12349..36f5514 100644
--- a/src/InterTreeGram.cc
+++ b/src/InterTreeGram.cc
@@ -101,24 +101,18 @@ void InterTreeGram::fetch_bigram_list(int prev_word_id,
                                       std::vector<float> &result_buffer) {
   /* This may be too slow for real use */
 
-  // Zero the result buffer
-  for (std::vector<float>::iterator it = result_buffer.begin();
-       it != result_buffer.end(); ++it) {
-    *it = 0.0f;
-  }
-
   // Accumulate probs
   std::vector<float> cresbuf(result_buffer.size());
+  std::vector<double> probs(result_buffer.size(), 0.0);
   for (int i = 0; i < m_models.size(); i++) {
     m_models[i]->fetch_bigram_list(prev_word_id, next_word_id, cresbuf);
     for (int j = 0; j < result_buffer.size(); j++) {
-      result_buffer[j] += m_coeffs[i] * pow(10, cresbuf[j]);
+      probs[j] += m_coeffs[i] * pow(10, cresbuf[j]);
     }
   }
 
   // logprob results
-  for (std::vector<float>::iterator it = result_buffer.begin();
-       it != result_buffer.end(); ++it) {
-    *it = safelogprob(*it);
+  for (int j = 0; j < result_buffer.size(); j++) {
+    result_buffer[j] = safelogprob(probs[j]);
   }
 }
-- 
2.43.0


From 5b8bd96f3d03bb7969f0b0ad471c4c3140f8deda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:01 +0000
Subject: [PATCH 21/26] fix: refuse an n-gram whose first word has no unigram
 instead of storing it below another node

---
 src/TreeGram.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index bb574a3..09243ff 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -219,7 +219,8 @@ void TreeGram::find_path(const Gram &gram) {
   // fprintf(stderr, "order %d gramsize %ld\n", order, gram.size());
   while (order < gram.size() - 1) {
     index = find_child(gram[order], prev);
-    if (index < 0) {
+    // A word that has no unigram yet has no node of its own.
+    if (index < 0 || (order == 0 && index >= m_order_count[0])) {
       fprintf(stderr, "prefix not found\n");
       print_gram(stderr, gram);
       exit(1);
-- 
2.43.0


From c50aded7d99d3045d3ae06dfaebc8a8bcc29fde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:54 +0000
Subject: [PATCH 22/26] fix: a unigram given twice made reading with missing
 unigrams filled in grow the model without end

---
 src/TreeGram.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index 09243ff..5fec62f 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -53,7 +53,7 @@ void TreeGram::check_order(const Gram &gram, bool add_missing_unigrams) {
   if (gram.size() == 1) {
     if (add_missing_unigrams) {
       Gram g(1);
-      while (gram[0] != m_nodes.size()) {
+      while (gram[0] > (int)m_nodes.size()) {
         g[0] = m_nodes.size();
         add_gram(g, MINLOGPROB, 0);
       }
-- 
2.43.0


From 9ffcecc925f8a55f64981787dc1f652d97271107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:54 +0000
Subject: [PATCH 23/26] fix: refuse n-grams of words without a unigram, whose
 lookup returned the node of another n-gram

---
 src/TreeGram.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index 5fec62f..d5c81b4 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -77,6 +77,16 @@ void TreeGram::check_order(const Gram &gram, bool add_missing_unigrams) {
     add_gram(g, MINLOGPROB, 0);
   }
 
+  // Every word must have a unigram: a word without one has no node of its own.
+  if (gram.size() > 1 && gram.back() >= m_order_count[0]) {
+    fprintf(stderr,
+            "TreeGram::check_order(): "
+            "trying to insert %d-gram of a word without a unigram\n",
+            (int)gram.size());
+    print_gram(stderr, gram);
+    throw ReadError();
+  }
+
   // With the same order, the grams must inserted in sorted order.
   if (gram.size() == m_last_gram.size()) {
     int i;
-- 
2.43.0


From 8b9906a2e0b934099d4ed534c873b77793d54270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:54 +0000
Subject: [PATCH 24/26] fix: restricting the vocabulary of n-gram counts left
 all words in the vocabulary

---
 src/NgramCounts_tmpl.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index 4ba6977..c6f316f 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -215,7 +215,8 @@ void NgramCounts_t<K, T>::shrink(float ndrop, int nfirst) {
   nfirst = i - 1;
 
   /* Redo the vocabulary */
-  vocab->set_oov(wordtable[0].wstring); // clears the current vocabulary
+  vocab->clear_words();
+  vocab->add_word(wordtable[0].wstring);
   for (i = 1; i <= nfirst; i++) {
     vocab->add_word(wordtable[i].wstring);
   }
-- 
2.43.0


From 07d54afec35ed9082e7d62397e8b06c62beab3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:54 +0000
Subject: [PATCH 25/26] fix: restricting the vocabulary read past the word
 table when no word was dropped

---
 src/NgramCounts_tmpl.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index c6f316f..943650b 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -210,7 +210,9 @@ void NgramCounts_t<K, T>::shrink(float ndrop, int nfirst) {
   /* create a backwards mapping */
   std::vector<int> backwards(wordtable.size(), 0);
   int i;
-  for (i = 1; (i <= nfirst && wordtable[i].count > ndrop); i++)
+  for (i = 1; (i <= nfirst && i < (int)wordtable.size() &&
+               wordtable[i].count > ndrop);
+       i++)
     backwards[wordtable[i].oldidx] = i;
   nfirst = i - 1;
 
-- 
2.43.0


From d6361d05b58c42acbb224986a1ff30f2eea5bfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:57 +0000
Subject: [PATCH 26/26] fix: stepping through context statistics read past the
 table when an order had none

---
 src/MultiOrderCounts_tmpl.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MultiOrderCounts_tmpl.hh b/src/MultiOrderCounts_tmpl.hh
index 6fb1447..1238b37 100644
--- a/src/MultiOrderCounts_tmpl.hh
+++ b/src/MultiOrderCounts_tmpl.hh
@@ -686,7 +686,8 @@ void MultiOrderCounts_1nzer_fp<KT, CT>::clear_lden(const int o) {
 template <typename KT, typename CT, typename BOT>
 void *MultiOrderCounts_Generic_BOT<KT, CT, BOT>::StepBackoffsOrder(
     const bool init, const int order, KT *indices, BOT *value) {
-  if (order >= MultiOrderCounts<KT, CT>::m_counts.size())
+  if (order >= MultiOrderCounts<KT, CT>::m_counts.size() ||
+      order >= m_backoffs.size())
     return (NULL);
   assert(order >= 2);
   return (m_backoffs[order]->stepthrough(init, indices, value));
-- 
2.43.0

