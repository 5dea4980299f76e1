From 9db520857ce45a9f01ebe0cd12189976314b93da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:40 +0000
Subject: [PATCH 01/48] fix: bound the vocabulary shrinking loop by the
 vocabulary size

---
 src/NgramCounts_tmpl.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index 4ba6977..74ec64e 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -210,7 +210,9 @@ void NgramCounts_t<K, T>::shrink(float ndrop, int nfirst) {
   /* create a backwards mapping */
   std::vector<int> backwards(wordtable.size(), 0);
   int i;
-  for (i = 1; (i <= nfirst && wordtable[i].count > ndrop); i++)
+  for (i = 1; i < (int)wordtable.size() && i <= nfirst &&
+              wordtable[i].count > ndrop;
+       i++)
     backwards[wordtable[i].oldidx] = i;
   nfirst = i - 1;
 
-- 
2.43.0


From aa230400362624e38e4d04226fb4c4e6f0b5d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:40 +0000
Subject: [PATCH 02/48] fix: -d keeps words seen exactly ndrop times, as
 documented

---
 src/NgramCounts_tmpl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index 74ec64e..4b40eda 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -211,7 +211,7 @@ void NgramCounts_t<K, T>::shrink(float ndrop, int nfirst) {
   std::vector<int> backwards(wordtable.size(), 0);
   int i;
   for (i = 1; i < (int)wordtable.size() && i <= nfirst &&
-              wordtable[i].count > ndrop;
+              wordtable[i].count >= ndrop;
        i++)
     backwards[wordtable[i].oldidx] = i;
   nfirst = i - 1;
-- 
2.43.0


From 9e9df9a173d59e3c409a9342b3682dae3eae435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:40 +0000
Subject: [PATCH 03/48] fix: do not ignore -d when the small vocabulary option
 -s is given

---
 src/InterKn_tmpl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 8677c92..94dd666 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -752,7 +752,7 @@ void InterKn_t<KT, CT>::constructor_helper(
         if (!this->KT_is_short((KT *)NULL))
           nc_tmp.shrink(ndrop, nfirst);
         else {
-          nc_tmp.shrink(0, std::min(65534, nfirst));
+          nc_tmp.shrink(ndrop, std::min(65534, nfirst));
         }
         nc_tmp.vocab->copy_vocab_to(this->vocab);
         datain.open(this->m_data_name, "r");
-- 
2.43.0


From 9a9bddfde3a2e1bea59b1dd033926e8a4f1314be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:40 +0000
Subject: [PATCH 04/48] fix: carry the objective value, not the coordinate,
 when moving the lower search limit

---
 src/QFit.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QFit.cc b/src/QFit.cc
index cf0d67f..91b422d 100644
--- a/src/QFit.cc
+++ b/src/QFit.cc
@@ -50,7 +50,7 @@ std::vector<float> QFit::minimize(int maxiter) {
           if (t2 >= t3) {
             // fprintf(stderr," a\n");
             l1 = l2;
-            t1 = l2;
+            t1 = t2;
           } else {
             // fprintf(stderr," b\n");
             l3 = l2;
-- 
2.43.0


From 178428f49efe59e359225e65984a44fd4012f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:23 +0000
Subject: [PATCH 05/48] fix: only remove the sentence start probability when it
 has a count

---
 src/InterKn_tmpl.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 94dd666..516983f 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -199,6 +199,8 @@ template <typename BOT>
 void InterKn_int_disc<KT, ICT>::remove_sent_start_prob_fbase(BOT *dummy) {
   std::vector<KT> tmp(1, (KT)this->m_sent_boundary);
   const ICT value = this->moc->GetCount(tmp);
+  if (value <= 0)
+    return; // The sentence start was never seen, nothing to remove
   this->moc->IncrementCount(tmp, -value);
   BOT bo;
   this->moc->zero_bo(bo);
@@ -212,6 +214,8 @@ template <typename BOT>
 void InterKn_int_disc3<KT, ICT>::remove_sent_start_prob_fbase(BOT *dummy) {
   std::vector<KT> tmp(1, (KT)this->m_sent_boundary);
   const ICT value = this->moc->GetCount(tmp);
+  if (value <= 0)
+    return; // The sentence start was never seen, nothing to remove
   this->moc->IncrementCount(tmp, -value);
   BOT bo;
   this->moc->zero_bo(bo);
-- 
2.43.0


From d92bc0b062f3caf9509a23c844eb147d42c4f433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 06/48] fix: read the vocabulary into the model when training
 from top-order counts (-Z)

---
 src/InterKn_tmpl.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 516983f..ae3c4a8 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -689,7 +689,9 @@ void InterKn_t<KT, CT>::constructor_helper(
                         "match, this will not be checked.\n");
       fprintf(stderr, "Reading counts for the highest order\n");
       NgramCounts_t<KT, CT> *ng = new NgramCounts_t<KT, CT>(order, 0, hashsize);
+      ng->use_vocabulary(&(this->vocab));
       ng->read(datain.file, vocabin.file);
+      this->moc->vocabsize = this->vocab.num_words();
       this->moc->UseAsCounts(ng->counts);
     } else {
       /* The counts include all orders and have already been KN-discounted */
-- 
2.43.0


From 2a7a829f1b8ca2758328ff74f616131c88fda584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 07/48] fix: stop pruning towards a size target when only
 unigrams are left

---
 src/VarigramFuncs_tmpl.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/VarigramFuncs_tmpl.hh b/src/VarigramFuncs_tmpl.hh
index 98ca2eb..035119f 100644
--- a/src/VarigramFuncs_tmpl.hh
+++ b/src/VarigramFuncs_tmpl.hh
@@ -199,6 +199,12 @@ template <typename KT, typename ICT> void Varigram_t<KT, ICT>::prune() {
 
     while (double(m_kn->num_grams()) > double(m_ngram_prune_target) * 1.03) {
 
+      if (round > 0 && m_kn->num_grams() <= m_kn->MocOrderSize(1)) {
+        fprintf(stderr, "WARNING: only unigrams left, cannot reach the target "
+                        "number of ngrams\n");
+        break;
+      }
+
       if (round == 0) {
         fprintf(stderr, "Currently %d ngrams. First prune with E=D=%.5f\n",
                 m_kn->num_grams(), cur_scale);
-- 
2.43.0


From 16d4ad8b127de0b8a341764628ff5011b0217712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 08/48] fix: make -f and -d drop words: clear the vocabulary
 before refilling it

---
 src/NgramCounts_tmpl.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index 4b40eda..42b7d90 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -217,7 +217,8 @@ void NgramCounts_t<K, T>::shrink(float ndrop, int nfirst) {
   nfirst = i - 1;
 
   /* Redo the vocabulary */
-  vocab->set_oov(wordtable[0].wstring); // clears the current vocabulary
+  vocab->clear_words();
+  vocab->add_word(wordtable[0].wstring);
   for (i = 1; i <= nfirst; i++) {
     vocab->add_word(wordtable[i].wstring);
   }
-- 
2.43.0


From 800943a011f371870fbf0481d3310dbd711f6c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 09/48] fix: keep the probing point of the discount search
 inside its bracket

---
 src/QFit.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QFit.cc b/src/QFit.cc
index 91b422d..978827b 100644
--- a/src/QFit.cc
+++ b/src/QFit.cc
@@ -76,9 +76,9 @@ std::vector<float> QFit::minimize(int maxiter) {
           t = m_qe->evaluate(m_res);
           if (fabs(l - l2) < utol / 4) {
             if (l2 - l1 < l3 - l2)
-              l = l + utol / 2;
+              l = l2 + utol / 4;
             else
-              l = l - utol / 2;
+              l = l2 - utol / 4;
           }
           m_res[c] = l;
           // print_indices(stderr,m_res);fprintf(stderr,"\n");
-- 
2.43.0


From 7c541af4d2c4b3a1dde92b939989a5eb3619b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 10/48] fix: RemoveDefaultValues skipped the entry moved into a
 removed slot

---
 src/sparse_matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_matrix.c b/src/sparse_matrix.c
index 6fa8925..3e7573d 100644
--- a/src/sparse_matrix.c
+++ b/src/sparse_matrix.c
@@ -499,7 +499,7 @@ void RemoveDefaultValues(struct matrix *m) {
   for (i = 0; i < m->num_entries; i++) {
     if (!memcmp(&(m->data[i * m->size_of_entry]), m->default_value,
                 m->size_of_entry))
-      RemoveEntryIdx(m, i);
+      RemoveEntryIdx(m, i--); /* The last entry was moved here */
   }
 }
 
-- 
2.43.0


From cd5c956589fd3a821ac1dc682475d675ce26ce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 11/48] fix: GetBackoff read zeros for the unigram record while
 no higher-order back-off table existed

---
 src/MultiOrderCounts_tmpl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiOrderCounts_tmpl.hh b/src/MultiOrderCounts_tmpl.hh
index 6fb1447..d85dd0e 100644
--- a/src/MultiOrderCounts_tmpl.hh
+++ b/src/MultiOrderCounts_tmpl.hh
@@ -528,7 +528,7 @@ template <typename KT, typename CT, typename BOT>
 void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::GetBackoff(const int order,
                                                            const KT *v,
                                                            BOT *value) {
-  if (order >= m_backoffs.size()) {
+  if (order > 1 && order >= m_backoffs.size()) {
     memcpy(value, &m_bb_init, sizeof(BOT));
     return;
   }
-- 
2.43.0


From dcdad76cdeea62c77dffe235d93d1e3c7961aea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 12/48] fix: UndoCached read past min_cc_cache/min_bo_cache
 when several orders were allocated since ResetCaches

---
 src/MultiOrderCounts_tmpl.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MultiOrderCounts_tmpl.hh b/src/MultiOrderCounts_tmpl.hh
index d85dd0e..8936be5 100644
--- a/src/MultiOrderCounts_tmpl.hh
+++ b/src/MultiOrderCounts_tmpl.hh
@@ -419,6 +419,10 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::UndoCached() {
   /* This could be speeded up by assuming that all cached
      values are of the same order
   */
+  // Orders allocated after the last ResetCaches() had no entries back then
+  this->min_cc_cache.resize(this->m_counts.size() + 1, 0);
+  min_bo_cache.resize(m_backoffs.size() + 1, 0);
+
   for (long i = this->c_cache.size() - 1; i >= 0; i--) {
     struct MultiOrderCounts<KT, CT>::c_cache_t &c = this->c_cache[i];
     struct matrix *m = this->m_counts[c.order]->m;
-- 
2.43.0


From ec5a6401f98affdf2943221fa7012688ad7f839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 13/48] fix: GetBackoff copied past m_bb_init for three-class
 back-off records of an order without a table

---
 src/MultiOrderCounts_tmpl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiOrderCounts_tmpl.hh b/src/MultiOrderCounts_tmpl.hh
index 8936be5..ff56c24 100644
--- a/src/MultiOrderCounts_tmpl.hh
+++ b/src/MultiOrderCounts_tmpl.hh
@@ -533,7 +533,7 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::GetBackoff(const int order,
                                                            const KT *v,
                                                            BOT *value) {
   if (order > 1 && order >= m_backoffs.size()) {
-    memcpy(value, &m_bb_init, sizeof(BOT));
+    memcpy(value, &bo_init, sizeof(BOT));
     return;
   }
   if (order > 1) {
-- 
2.43.0


From 047e610886a3032e7ed5e39e97a682adb1c6b5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 14/48] fix: the hash representation dropped back-off weights
 above one when reading and writing

---
 src/HashGram_tmpl.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index cc697a8..2f10386 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -41,7 +41,7 @@ template <typename KT> void HashGram_t<KT>::read_real(FILE *file) {
     if (log_prob > MINLOGPROB) {
       probs[order]->setvalue(&gram[0], log_prob);
     }
-    if (back_off < 0) {
+    if (back_off != 0) {
       backoffs[order]->setvalue(&gram[0], back_off);
     }
   }
@@ -58,7 +58,7 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     float logprob, bo;
     backoffs[o]->stepthrough(true, &gram[0], &logprob);
     while (backoffs[o]->stepthrough(false, &gram[0], &bo)) {
-      if (bo >= 0.0)
+      if (bo == 0.0)
         continue;
       FindEntry(probs[o]->m, (byte *)(&gram[0]), 1);
     }
@@ -70,7 +70,7 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     probs[o]->stepthrough(true, &gram[0], &logprob);
     while (probs[o]->stepthrough(false, &gram[0], &logprob)) {
       bo = backoffs[o]->getvalue(&gram[0]);
-      if (m_print_zerograms || logprob > MINLOGPROB || bo < 0)
+      if (m_print_zerograms || logprob > MINLOGPROB || bo != 0)
         num_grams[o]++;
     }
   }
@@ -90,13 +90,13 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     probs[o]->stepthrough(true, &gram[0], &logprob);
     while (probs[o]->stepthrough(false, &gram[0], &logprob)) {
       bo = backoffs[o]->getvalue(&gram[0]);
-      if (!m_print_zerograms && (logprob <= MINLOGPROB && bo >= 0))
+      if (!m_print_zerograms && (logprob <= MINLOGPROB && bo == 0))
         continue;
       fprintf(out, "%.4f", logprob);
       fprintf(out, "%s%s", field_separator.c_str(), word(gram[0]).c_str());
       for (int i = 1; i < o; i++)
         fprintf(out, " %s", word(gram[i]).c_str());
-      if (bo < 0)
+      if (bo != 0)
         fprintf(out, "%s%.4f", field_separator.c_str(), bo);
       fprintf(out, "\n");
     }
-- 
2.43.0


From 5b4d6e7acc0aa01d165d99b9f94f275ac25c58d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:16 +0000
Subject: [PATCH 15/48] fix: the hash representation dropped words with zero
 probability from the unigrams it wrote

---
 src/HashGram_tmpl.hh | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index 2f10386..303f65b 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -53,6 +53,12 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
   strbuf.reserve(100000);
   std::vector<int> num_grams(m_order + 1, 0);
 
+  // Words with zero probability belong to the vocabulary and are listed, too
+  for (int i = 0; i < num_words(); i++) {
+    const KT w = i;
+    FindEntry(probs[1]->m, (byte *)(&w), 1);
+  }
+
   for (int o = 1; o < m_order; o++) {
     std::vector<KT> gram(o);
     float logprob, bo;
@@ -70,7 +76,7 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     probs[o]->stepthrough(true, &gram[0], &logprob);
     while (probs[o]->stepthrough(false, &gram[0], &logprob)) {
       bo = backoffs[o]->getvalue(&gram[0]);
-      if (m_print_zerograms || logprob > MINLOGPROB || bo != 0)
+      if (o == 1 || m_print_zerograms || logprob > MINLOGPROB || bo != 0)
         num_grams[o]++;
     }
   }
@@ -90,7 +96,7 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     probs[o]->stepthrough(true, &gram[0], &logprob);
     while (probs[o]->stepthrough(false, &gram[0], &logprob)) {
       bo = backoffs[o]->getvalue(&gram[0]);
-      if (!m_print_zerograms && (logprob <= MINLOGPROB && bo == 0))
+      if (o > 1 && !m_print_zerograms && logprob <= MINLOGPROB && bo == 0)
         continue;
       fprintf(out, "%.4f", logprob);
       fprintf(out, "%s%s", field_separator.c_str(), word(gram[0]).c_str());
-- 
2.43.0


From 2e73640ea655857a4bd00170c06fb5c8269c7572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:51 +0000
Subject: [PATCH 16/48] fix: the hash representation crashed on a model with an
 order without n-grams

---
 src/HashGram_tmpl.hh | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index 303f65b..34941b4 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -23,19 +23,15 @@ template <typename KT> void HashGram_t<KT>::read_real(FILE *file) {
   m_order = areader.counts.size();
   probs.resize(m_order + 1);
   backoffs.resize(m_order + 1);
+  for (int o = 1; o <= m_order; o++) {
+    probs[o] = new sikMatrix<KT, float>(o, areader.counts[o - 1], MINLOGPROB);
+    backoffs[o] = new sikMatrix<KT, float>(o, areader.counts[o - 1], 0.0);
+  }
 
   std::vector<int> tmp_gram(1);
   float log_prob, back_off;
-  int prev_order = 0;
   while (areader.next_gram(file, line, tmp_gram, log_prob, back_off)) {
     int order = tmp_gram.size();
-    if (order > prev_order) {
-      probs[order] = new sikMatrix<KT, float>(order, areader.counts[order - 1],
-                                              MINLOGPROB);
-      backoffs[order] =
-          new sikMatrix<KT, float>(order, areader.counts[order - 1], 0.0);
-      prev_order = order;
-    }
     // Inefficiency due to abstracting ArpaReader out
     std::vector<KT> gram(tmp_gram.begin(), tmp_gram.end());
     if (log_prob > MINLOGPROB) {
-- 
2.43.0


From 6bb22f98f2fd6b907870d59ddffc30bfbe9475e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:54 +0000
Subject: [PATCH 17/48] fix: a sparse table created with size hint 0 could
 never grow

---
 src/sparse_matrix.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sparse_matrix.c b/src/sparse_matrix.c
index 3e7573d..6352fbb 100644
--- a/src/sparse_matrix.c
+++ b/src/sparse_matrix.c
@@ -65,16 +65,16 @@ struct matrix *CreateMatrix(const int keysize, const indextype hashs,
   memcpy(m->default_value, def_value, m->size_of_entry);
 
   m->num_entries = 0;
-  m->datasize = hashs;
+  m->datasize = hashs > 0 ? hashs : 1; /* must be able to grow by doubling */
   // fprintf(stderr,"mallocing %d*%d=%d\n", (int) m->key_size, hashs, (int)
   // (m->key_size *hashs));
-  m->keys = (byte *)malloc(m->key_size * hashs);
+  m->keys = (byte *)malloc(m->key_size * m->datasize);
   check_malloc(m->keys, "keys");
-  m->data = (byte *)malloc(m->size_of_entry * hashs);
+  m->data = (byte *)malloc(m->size_of_entry * m->datasize);
   check_malloc(m->data, "data");
-  m->next = (indextype *)malloc(sizeof(indextype) * hashs);
+  m->next = (indextype *)malloc(sizeof(indextype) * m->datasize);
   check_malloc(m->next, "next pointers");
-  m->prev = (indextype *)malloc(sizeof(indextype) * hashs);
+  m->prev = (indextype *)malloc(sizeof(indextype) * m->datasize);
   check_malloc(m->prev, "prev pointers");
 
   /* Find a good hash size */
-- 
2.43.0


From 6e6002b88505014b73a27222f7993998d19841a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 18/48] fix: look-ahead lists read past the node array for the
 last node

---
 src/TreeGram.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index c602fab..6f361ba 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -533,7 +533,10 @@ void TreeGram::fetch_bigram_list(int prev_word_id,
 
   // Fill the bigram probabilities
   child_index = m_nodes[prev_word_id].child_index;
-  next_child_index = m_nodes[prev_word_id + 1].child_index;
+  // The last node has no children (and no node after it)
+  next_child_index = prev_word_id + 1 < m_nodes.size()
+                         ? m_nodes[prev_word_id + 1].child_index
+                         : -1;
   if (child_index != -1 && next_child_index > child_index) {
     for (i = child_index; i < next_child_index; i++)
       lm_buf[m_nodes[i].word] = m_nodes[i].log_prob;
@@ -573,7 +576,8 @@ void TreeGram::fetch_trigram_list(int w1, int w2,
 
     // Fill bigram (w2, next_word_id) probabilities
     child_index = m_nodes[w2].child_index;
-    next_child_index = m_nodes[w2 + 1].child_index;
+    next_child_index =
+        w2 + 1 < m_nodes.size() ? m_nodes[w2 + 1].child_index : -1;
     if (child_index != -1 && next_child_index > child_index) {
       for (i = child_index; i < next_child_index; i++)
         lm_buf[m_nodes[i].word] = bigram_back_off_w + m_nodes[i].log_prob;
@@ -581,7 +585,9 @@ void TreeGram::fetch_trigram_list(int w1, int w2,
 
     // Fill trigram probabilities
     child_index = m_nodes[bigram_index].child_index;
-    next_child_index = m_nodes[bigram_index + 1].child_index;
+    next_child_index = bigram_index + 1 < m_nodes.size()
+                           ? m_nodes[bigram_index + 1].child_index
+                           : -1;
     if (child_index != -1 && next_child_index > child_index) {
       for (i = child_index; i < next_child_index; i++)
         lm_buf[m_nodes[i].word] = m_nodes[i].log_prob;
-- 
2.43.0


From 1b1e32d37ea5b13aa170c6fd2736929061390c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:59 +0000
Subject: [PATCH 19/48] fix: arpasize -S accepted a model cut off before the
 end of its header

---
 app/arpasize.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/arpasize.cc b/app/arpasize.cc
index 09f67c0..7096a71 100644
--- a/app/arpasize.cc
+++ b/app/arpasize.cc
@@ -27,7 +27,8 @@ void simple_count(const conf::Config &config, io::Stream *in, io::Stream *out) {
   int i2;
   int count;
   std::vector<int> counts;
-  while (str::read_line(&sbuf, in->file, true) &&
+  bool ok;
+  while ((ok = str::read_line(&sbuf, in->file, true)) &&
          sscanf(sbuf.c_str(), "ngram %d=%d", &i2, &count) == 2) {
     if (i2 != i) {
       fprintf(stderr, "read error, exit\n");
@@ -36,7 +37,8 @@ void simple_count(const conf::Config &config, io::Stream *in, io::Stream *out) {
     counts.push_back(count);
     i++;
   }
-  if (sbuf.length() > 0) {
+  // The counts must end with an empty line, not with the end of the file
+  if (!ok || sbuf.length() > 0) {
     fprintf(stderr, "read error,exit\n");
     exit(-1);
   }
-- 
2.43.0


From 5e15b49247c1b540d37c3606e67f2dd90ae624c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:27 +0000
Subject: [PATCH 20/48] fix: the ARPA reader read past the fields of a section
 header cut off before the hyphen

---
 src/ArpaReader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ArpaReader.cc b/src/ArpaReader.cc
index 1493ae5..2a2586f 100644
--- a/src/ArpaReader.cc
+++ b/src/ArpaReader.cc
@@ -135,7 +135,8 @@ bool ArpaReader::next_gram(FILE *file, std::string &line,
     str::clean(&line, " \t");
     str::split(&line, "-", false, &m_vec);
 
-    if (atoi(m_vec[0].substr(1).c_str()) != m_read_order ||
+    if (m_vec.size() != 2 ||
+        atoi(m_vec[0].substr(1).c_str()) != m_read_order ||
         m_vec[1] != "grams:") {
       fprintf(stderr,
               "ArpaReader::next_gram(): "
-- 
2.43.0


From fe7ddcd83a0dc6fe14e1a78eb442326f4546a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:38 +0000
Subject: [PATCH 21/48] fix: interpolating with a higher-order model overflowed
 the hit counts and swapped the weights

---
 src/PerplexityFuncs.cc | 4 ++++
 src/PerplexityFuncs.hh | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index f2629f5..5c12cab 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -84,6 +84,7 @@ void Perplexity::init_variables() {
   m_token_perplexity = 0.0;
   m_lm2.reset();
   m_alpha = 0.5;
+  m_swapped = false;
   m_init_hist = m_cur_init_hist = 0;
   m_num_sent_ends = 0;
   m_cw_lpsum = 0.0;
@@ -445,7 +446,10 @@ void Perplexity::set_interpolation(std::string lm_name) {
   else {
     m_lm2 = m_lm;
     m_lm = tmp_lm;
+    m_swapped = true;
     m_alpha = 1 - m_alpha;
+    // m_lm has now more orders than before
+    ngram_hits.resize(m_lm->order() + 1, 0);
   }
 
   assert(m_lm->num_words() == m_lm2->num_words());
diff --git a/src/PerplexityFuncs.hh b/src/PerplexityFuncs.hh
index 1c89fd2..d9fe146 100644
--- a/src/PerplexityFuncs.hh
+++ b/src/PerplexityFuncs.hh
@@ -51,9 +51,10 @@ public:
   bool bryan_wc;
 
   // For interpolation
+  // a is the weight of the model given to the constructor
   inline void set_alpha(float a) {
     assert(a >= 0 && a <= 1.0);
-    m_alpha = a;
+    m_alpha = m_swapped ? 1 - a : a;
   }
   // The interpolated language models must have the same vocabulary !
   void set_interpolation(std::string lm_name);
@@ -111,6 +112,7 @@ private:
 
   // For interpolations
   float m_alpha;
+  bool m_swapped; // m_lm is the model given to set_interpolation
 
   // For getting unknown words correct with subword models
   bool m_unkflag;
-- 
2.43.0


From 10524fc30f993e098a3241822c19555abf3d86c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:38 +0000
Subject: [PATCH 22/48] fix: perplexity -f -i gave the interpolation
 coefficient to the main model instead of the interpolated one

---
 app/perplexity.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/perplexity.cc b/app/perplexity.cc
index 73ac2be..538f456 100644
--- a/app/perplexity.cc
+++ b/app/perplexity.cc
@@ -117,7 +117,7 @@ int main(int argc, char *argv[]) {
                               unk_symbol, true, skip_unks));
       lm->set_interpolation(config["interpolate"].get_str());
       if (config["inter_coeff"].specified) {
-        lm->set_alpha(config["inter_coeff"].get_double());
+        lm->set_alpha(1.0 - config["inter_coeff"].get_double());
       }
     } else {
       // Interpolate the new way, using InterTreeGram
-- 
2.43.0


From 92c3aee3cd950b46326cad1bc91aed41f9a04a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 23/48] fix: the tree model read other nodes for words added to
 its vocabulary after reading

---
 src/TreeGram.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index 6f361ba..5e091a2 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -152,8 +152,9 @@ int TreeGram::find_child(int word, int node_index) {
     exit(1);
   }
 
+  // Words added to the vocabulary after reading the model have no node
   if (node_index < 0)
-    return word;
+    return word < m_order_count[0] ? word : -1;
 
   // Note that (node_index + 1) is used later, so the last node_index
   // must not pass.  Actually, we could return -1 for all largest
@@ -615,7 +616,17 @@ float TreeGram::log_prob_bo(const Gram &gram) {
   while (1) {
     assert(n < gram.size());
     fetch_gram(gram, n);
-    assert(m_fetch_stack.size() > 0);
+
+    // Word without a node?
+    if (m_fetch_stack.empty()) {
+      if (n == gram.size() - 1) {
+        log_prob += MINLOGPROB;
+        m_last_order = 1;
+        break;
+      }
+      n++;
+      continue;
+    }
 
     // Full gram found?
     if (m_fetch_stack.size() == gram.size() - n) {
@@ -646,6 +657,9 @@ float TreeGram::log_prob_i(const Gram &gram) {
       // return(safelogprob(prob));
     }
 
+    if (m_fetch_stack.empty()) // Word without a node
+      continue;
+
     if (m_fetch_stack.size() == n - 1) {
       bo = pow(10, m_nodes[m_fetch_stack.back()].back_off);
       prob *= bo;
-- 
2.43.0


From 08f96042e4656c212ebde3e559dd75d2a177e141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 24/48] fix: sentence_logprob used an uninitialized buffer,
 wrote past its end and lost tokens not separated by blanks

---
 src/PerplexityFuncs.cc | 16 ++++------------
 src/PerplexityFuncs.hh |  2 --
 2 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index 5c12cab..0d8275a 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -9,8 +9,6 @@ Perplexity::Perplexity(const char *lm_name) {
   init_variables();
   m_lm.reset(new TreeGram());
   m_lm->set_oov("<UNK>");
-  m_tmpstring_length = 100;
-  m_tmpstring = (char *)malloc(m_tmpstring_length * sizeof(char));
   m_print_unk_warn = false;
   m_skip_unk_prob = true;
 
@@ -155,18 +153,12 @@ void Perplexity::load_mbs(const std::string fname,
 float Perplexity::sentence_logprob(const char *sentence_in) {
   float lpsum = 0.0, foo;
   char *sentence = strdup(sentence_in);
-  char *cptr = strtok(sentence, " ");
-
-  if (strlen(sentence) > m_tmpstring_length) {
-    m_tmpstring_length = strlen(sentence);
-    m_tmpstring =
-        (char *)realloc(m_tmpstring, m_tmpstring_length * sizeof(char));
-  }
+  const char *delims = " \t\n\v\f\r";
+  char *cptr = strtok(sentence, delims);
 
   while (cptr) {
-    sscanf(cptr, "%s", m_tmpstring);
-    lpsum += logprob(m_tmpstring, foo);
-    cptr = strtok(NULL, " ");
+    lpsum += logprob(cptr, foo);
+    cptr = strtok(NULL, delims);
   }
   free(sentence);
   return -lpsum;
diff --git a/src/PerplexityFuncs.hh b/src/PerplexityFuncs.hh
index d9fe146..fd48649 100644
--- a/src/PerplexityFuncs.hh
+++ b/src/PerplexityFuncs.hh
@@ -85,8 +85,6 @@ private:
   void init_special_symbols(const std::string ccs_name,
                             const std::string wb_name,
                             const std::string mb_name);
-  char *m_tmpstring;
-  int m_tmpstring_length;
   wb_type m_wb_type;
   bool is_wb(int idx);
   bool is_mb(std::string w);
-- 
2.43.0


From e704d3b9f40e2b06183f24d33e714b7a147dd83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 25/48] fix: clear_history kept the sum and the unknown flag of
 an unfinished word

---
 src/PerplexityFuncs.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PerplexityFuncs.hh b/src/PerplexityFuncs.hh
index fd48649..3601194 100644
--- a/src/PerplexityFuncs.hh
+++ b/src/PerplexityFuncs.hh
@@ -68,6 +68,9 @@ public:
   void clear_history() {
     history.clear();
     m_cur_init_hist = m_init_hist;
+    // Forget the word that was left unfinished, too
+    m_unkflag = false;
+    m_cw_lpsum = 0.0;
   }
   inline int get_num_tunks() { return m_num_tunks; }
 
-- 
2.43.0


From 097210e339e2b2341a5d2af20a0f5f393e432dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 26/48] fix: long tokens overflowed the buffers of the symbol
 lists, check_model and the search lists of varigram_kn

---
 app/check_model.cc     | 8 ++++----
 src/PerplexityFuncs.cc | 8 ++++----
 src/Storage_tmpl.hh    | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/app/check_model.cc b/app/check_model.cc
index 26c3324..62c91b5 100644
--- a/app/check_model.cc
+++ b/app/check_model.cc
@@ -75,20 +75,20 @@ int main(int argc, char **argv) {
 
   if (!datafile) {
     std::deque<int> gram;
-    char tmpbuf[MAX_WLEN];
-    while (fscanf(txtin.file, "%s", tmpbuf) != EOF)
+    char tmpbuf[MAX_WLEN + 1];
+    while (fscanf(txtin.file, MAX_WLEN_FMT_STRING, tmpbuf) != EOF)
       gram.push_back(tg->word_index(tmpbuf));
     check_gram(gram, true);
     txtin.close();
     exit(0);
   }
 
-  char word[MAX_WLEN];
+  char word[MAX_WLEN + 1];
   std::deque<int> history;
   int errors = 0;
   int num_words = 0;
   while (true) {
-    const int fsc = fscanf(txtin.file, "%s", word);
+    const int fsc = fscanf(txtin.file, MAX_WLEN_FMT_STRING, word);
     if (!fsc || fsc == EOF)
       break;
     num_words++;
diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index 0d8275a..67c129e 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -121,12 +121,12 @@ void Perplexity::init_special_symbols(const std::string ccs_name,
 }
 
 void Perplexity::find_indices(const std::string fname, std::vector<int> &vec) {
-  char buf[1000];
+  char buf[MAX_WLEN + 1];
 
   io::Stream in(fname, "r");
   int temp;
   while (true) {
-    int i = fscanf(in.file, "%s", buf);
+    int i = fscanf(in.file, MAX_WLEN_FMT_STRING, buf);
     if (!i || i == EOF)
       break;
 
@@ -139,10 +139,10 @@ void Perplexity::find_indices(const std::string fname, std::vector<int> &vec) {
 
 void Perplexity::load_mbs(const std::string fname,
                           std::vector<std::string> &vec) {
-  char buf[1000];
+  char buf[MAX_WLEN + 1];
   io::Stream in(fname, "r");
   while (true) {
-    int i = fscanf(in.file, "%s", buf);
+    int i = fscanf(in.file, MAX_WLEN_FMT_STRING, buf);
     if (!i || i == EOF)
       break;
     std::string sbuf(buf);
diff --git a/src/Storage_tmpl.hh b/src/Storage_tmpl.hh
index ebcedc9..96e3fad 100644
--- a/src/Storage_tmpl.hh
+++ b/src/Storage_tmpl.hh
@@ -134,17 +134,17 @@ void Storage_t<T, ICT>::init_fsl_file(const int order,
 
   io::Stream in(fname, "r", io::REOPENABLE);
   std::vector<T> v;
-  char sbuf[MAX_WLEN];
+  char sbuf[MAX_WLEN + 1];
 
   if (this->clear_lm_history == -1) {
     for (int i = 0; i < order - 1; i++) {
-      if (fscanf(in.file, "%s", sbuf) != 1)
+      if (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) != 1)
         return;
       v.push_back(voc->word_index(sbuf));
     }
     v.push_back(0); // vector is of right size
 
-    while (fscanf(in.file, "%s", sbuf) == 1) {
+    while (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) == 1) {
       indextype idx = FindEntry(m_refmat->m, (byte *)(&v[0]), 0);
       // fprintf(stderr,"%d: idx %d(<%d) ",i,idx,m_lists.size());
       T widx = voc->word_index(sbuf);
@@ -159,7 +159,7 @@ void Storage_t<T, ICT>::init_fsl_file(const int order,
         v[j] = v[j + 1];
     }
   } else {
-    while (fscanf(in.file, "%s", sbuf) == 1) {
+    while (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) == 1) {
       T widx = voc->word_index(sbuf);
       if (widx == this->clear_lm_history)
         v.clear();
-- 
2.43.0


From 1c6ecbadbb37703800f4b153b7f938d00dfcb2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 27/48] fix: the search lists read past the end of a text
 shorter than the n-gram context

---
 src/Storage_tmpl.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Storage_tmpl.hh b/src/Storage_tmpl.hh
index 96e3fad..464854d 100644
--- a/src/Storage_tmpl.hh
+++ b/src/Storage_tmpl.hh
@@ -30,6 +30,8 @@ void Storage_t<T, ICT>::initialize_fast_search_lists(
   size_t i;
 
   if (this->clear_lm_history == -1) {
+    if (this->size() < order - 1)
+      return;
     for (i = 0; i < order - 1; i++)
       v.push_back(this->datavec[i]);
     v.push_back(0); // Make the vector right size
-- 
2.43.0


From 4452813c612af3eeb739a2272d674bd5692138c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 28/48] fix: perplexity -o -X lost the log-probability of the
 sub-words before an unknown token

---
 src/PerplexityFuncs.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index 67c129e..f64cde3 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -194,8 +194,10 @@ float Perplexity::logprob(const char *word, float &cur_word_lp) {
     m_num_tunks++;
     if (m_wb_type == MB_LISTED && !is_mb(word)) {
       m_num_unks++;
-      cur_word_lp = m_cw_lpsum;
-      m_cw_lpsum = 0.0;
+      if (m_skip_unk_prob) {
+        cur_word_lp = m_cw_lpsum;
+        m_cw_lpsum = 0.0;
+      }
     } else if (m_wb_type == EVERYTIME) {
       m_num_unks++;
     } else {
-- 
2.43.0


From e70c38056631b1c03a87c825b2967860a4d6139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 29/48] fix: perplexity -X ignored the word boundary marks of
 unknown tokens

---
 src/PerplexityFuncs.cc | 9 ++++-----
 src/PerplexityFuncs.hh | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index f64cde3..eb59dc0 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -174,7 +174,7 @@ float Perplexity::logprob(const char *word, float &cur_word_lp) {
 
   int idx = m_lm->word_index(word);
   if (m_cur_init_hist > 0) {
-    if (strncmp("<s>", word, 3) && is_wb(idx)) {
+    if (strncmp("<s>", word, 3) && is_wb(idx, word)) {
       m_num_pwords++;
     }
     m_cur_init_hist--;
@@ -231,7 +231,7 @@ float Perplexity::logprob(const char *word, float &cur_word_lp) {
 
   m_num_ptokens++;
   m_cw_lpsum += lp;
-  if (is_wb(idx)) {
+  if (is_wb(idx, word)) {
     if (m_unkflag) {
       m_unkflag = 0;
       m_num_unks++;
@@ -265,7 +265,7 @@ int Perplexity::get_hitorder(int i) {
   return ngram_hits[i];
 }
 
-bool Perplexity::is_wb(int idx) {
+bool Perplexity::is_wb(int idx, const char *word) {
   if (m_wb_type == EVERYTIME)
     return (true);
 
@@ -274,8 +274,7 @@ bool Perplexity::is_wb(int idx) {
     return (true);
 
   if (m_wb_type == MB_LISTED) {
-    const std::string &w = m_lm->word(idx);
-    bool mb = is_mb(w);
+    bool mb = is_mb(word);
     if (mb) {
       return (false); // there is morph boundary preceeding/following the token
     } else {
diff --git a/src/PerplexityFuncs.hh b/src/PerplexityFuncs.hh
index 3601194..5839b28 100644
--- a/src/PerplexityFuncs.hh
+++ b/src/PerplexityFuncs.hh
@@ -89,7 +89,7 @@ private:
                             const std::string wb_name,
                             const std::string mb_name);
   wb_type m_wb_type;
-  bool is_wb(int idx);
+  bool is_wb(int idx, const char *word);
   bool is_mb(std::string w);
   bool m_print_unk_warn;
   bool m_skip_unk_prob;
-- 
2.43.0


From e94acb9f16c97d850d68288e72ebbc0f983a943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:44 +0000
Subject: [PATCH 30/48] fix: perplexity took tokens that only begin with <s> or
 </s> for sentence starts and ends

---
 src/PerplexityFuncs.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index eb59dc0..7084449 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -174,7 +174,7 @@ float Perplexity::logprob(const char *word, float &cur_word_lp) {
 
   int idx = m_lm->word_index(word);
   if (m_cur_init_hist > 0) {
-    if (strncmp("<s>", word, 3) && is_wb(idx, word)) {
+    if (strcmp("<s>", word) && is_wb(idx, word)) {
       m_num_pwords++;
     }
     m_cur_init_hist--;
@@ -183,7 +183,7 @@ float Perplexity::logprob(const char *word, float &cur_word_lp) {
     return (0.0);
   }
 
-  if (!strncmp("</s>", word, 4)) {
+  if (!strcmp("</s>", word)) {
     m_cur_init_hist = m_init_hist;
     m_num_sent_ends++;
   }
-- 
2.43.0


From f7cb56cc5ef3e69b285208059d9c4b8a3de20431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:44 +0000
Subject: [PATCH 31/48] fix: perplexity -i with -u discarded or misaligned the
 vocabulary of the interpolated models

---
 app/perplexity.cc      | 2 +-
 src/InterTreeGram.cc   | 6 +++++-
 src/InterTreeGram.hh   | 3 ++-
 src/PerplexityFuncs.cc | 1 +
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/app/perplexity.cc b/app/perplexity.cc
index 538f456..24031b9 100644
--- a/app/perplexity.cc
+++ b/app/perplexity.cc
@@ -133,7 +133,7 @@ int main(int argc, char *argv[]) {
       }
       coeffs.push_back(1.0 - coeff);
       coeffs.push_back(coeff);
-      std::shared_ptr<NGram> itg(new InterTreeGram(lm_names, coeffs));
+      std::shared_ptr<NGram> itg(new InterTreeGram(lm_names, coeffs, unk_symbol));
       lm.reset(new Perplexity(itg, ccs_name, wb_name, mb_name, unk_symbol,
                               skip_unks));
     }
diff --git a/src/InterTreeGram.cc b/src/InterTreeGram.cc
index 2a12349..02aacde 100644
--- a/src/InterTreeGram.cc
+++ b/src/InterTreeGram.cc
@@ -4,7 +4,11 @@
 #include "io.hh"
 
 InterTreeGram::InterTreeGram(std::vector<std::string> lm_names,
-                             std::vector<float> coeffs) {
+                             std::vector<float> coeffs,
+                             std::string unk_symbol) {
+  if (unk_symbol.length())
+    set_oov(unk_symbol);
+
   if (lm_names.size() != coeffs.size()) {
     fprintf(stderr, "InterTreeGram::InterTreeGram: There must be as many "
                     "interpolation coeffs as there are LMs. Exit.\n");
diff --git a/src/InterTreeGram.hh b/src/InterTreeGram.hh
index c6f4311..e09d7dd 100644
--- a/src/InterTreeGram.hh
+++ b/src/InterTreeGram.hh
@@ -13,7 +13,8 @@ public:
 
 class InterTreeGram : public NGram {
 public:
-  InterTreeGram(std::vector<std::string>, std::vector<float>);
+  InterTreeGram(std::vector<std::string>, std::vector<float>,
+                std::string unk_symbol = "");
   ~InterTreeGram();
 
   float log_prob(const Gram &gram);
diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index 7084449..9dba4d5 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -420,6 +420,7 @@ void Perplexity::set_interpolation(std::string lm_name) {
   auto tmp_lm = std::make_shared<HashGram_t<int> >();
 
   // Add all words from m_lm to tmp_lm
+  tmp_lm->set_oov(m_lm->word(0));
   std::vector<int> gram(1);
   for (int i = 0; i < m_lm->num_words(); i++) {
     gram[0] = tmp_lm->add_word(m_lm->word(i));
-- 
2.43.0


From 30394e57b78593b4aaa798420f6439dd7d760327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:40 +0000
Subject: [PATCH 32/48] fix: perplexity results over several files forgot
 earlier unknown words and counted an unfinished word twice

---
 src/PerplexityFuncs.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index 9dba4d5..f473d3e 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -316,6 +316,8 @@ double Perplexity::logprob_file(FILE *in, FILE *out, const int interval) {
   float cur_full_word_lp;
   const float log2coeff = 1 / log10(2.0f);
 
+  // The part of an unfinished word was counted at the end of the previous file
+  m_word_logprob -= m_cw_lpsum;
   while (1) {
     int fsc = fscanf(in, MAX_WLEN_FMT_STRING, word);
     if (!fsc || fsc == EOF)
@@ -351,10 +353,9 @@ double Perplexity::logprob_file(FILE *in, FILE *out, const int interval) {
   // fprintf(stdout,"Setting m_token_perplexity to %.4f / %d = %.4f\n",
   //	  m_logprob, m_num_ptokens, m_token_perplexity);
 
-  if (m_wb_type == EVERYTIME) {
-    m_num_unks = m_num_tunks;
+  // Every token is a word: the unknown ones are in m_num_unks already
+  if (m_wb_type == EVERYTIME)
     m_num_tunks = 0;
-  }
 
   return (m_logprob);
 }
-- 
2.43.0


From 04fee5c1a632ca547f8ceb29ca3d825614c9240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:25 +0000
Subject: [PATCH 33/48] fix: the hit rate total of perplexity counted a word
 missing from the main model twice

---
 src/PerplexityFuncs.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index f473d3e..d3167cf 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -227,7 +227,8 @@ float Perplexity::logprob(const char *word, float &cur_word_lp) {
                             (1 - m_alpha) * pow(10, lp2));
   }
   ngram_hits[0]++;
-  ngram_hits[m_lm->last_order()]++;
+  if (m_lm->last_order() > 0) // zero is the total
+    ngram_hits[m_lm->last_order()]++;
 
   m_num_ptokens++;
   m_cw_lpsum += lp;
-- 
2.43.0


From b2d443ceed93804cb75c506bfc0c928980adb1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:57 +0000
Subject: [PATCH 34/48] fix: merged models got an infinite back-off weight when
 all probable words were explicit

---
 src/HashGram_tmpl.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index 34941b4..06c3d06 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -377,8 +377,9 @@ template <typename KT>
 void HashGram_t<KT>::normalize_and_set_bo(std::vector<KT> &prefix,
                                           float explicit_probsum,
                                           float full_bo_probsum) {
-  float new_bo =
-      safelogprob((1.0f - explicit_probsum) / (1.0f - full_bo_probsum));
+  float new_bo = 0.0f; // used if all words with any probability are explicit
+  if (full_bo_probsum < 1.0f)
+    new_bo = safelogprob((1.0f - explicit_probsum) / (1.0f - full_bo_probsum));
   backoffs[prefix.size()]->setvalue(&prefix[0], new_bo);
   // fprintf(stderr, "Bo for prefix");
   // for (auto i: prefix) {
-- 
2.43.0


From be26dd586692a0224088e47845f9998a930e91a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:52 +0000
Subject: [PATCH 35/48] fix: a wrong number of arguments ended the tools with a
 success status

---
 src/conf.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conf.cc b/src/conf.cc
index 5a98143..790b480 100644
--- a/src/conf.cc
+++ b/src/conf.cc
@@ -226,7 +226,7 @@ void Config::parse(int argc, char *argv[], int num_args, bool override) {
     fprintf(stderr, "Got %d arguments, need %d.\n", (int)arguments.size(),
             num_requested_arguments);
     fputs(help_string().c_str(), stderr);
-    exit(0);
+    exit(1);
   }
 
   check_required();
-- 
2.43.0


From 7852afac012e4b0f737919f0093ba2a609d687c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:52 +0000
Subject: [PATCH 36/48] fix: a value given to an option without a parameter was
 taken as an argument

---
 src/conf.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/conf.cc b/src/conf.cc
index 790b480..8238632 100644
--- a/src/conf.cc
+++ b/src/conf.cc
@@ -168,7 +168,11 @@ void Config::parse_aux(std::deque<std::string> &argument_queue, bool override) {
         Option &option = options[it->second];
         if (option.needs_argument)
           options_pending.push_back(it->second);
-        else
+        else if (equal_pos >= 0) {
+          fprintf(stderr, "option --%s does not take an argument\n",
+                  long_name.c_str());
+          exit(1);
+        } else
           option.specified = true;
       }
 
-- 
2.43.0


From 397185687818391fbf595c3b243dba8b1a3fea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:52 +0000
Subject: [PATCH 37/48] fix: integer option values outside the range of int
 were wrapped silently

---
 src/conf.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/conf.cc b/src/conf.cc
index 8238632..433ac80 100644
--- a/src/conf.cc
+++ b/src/conf.cc
@@ -2,14 +2,16 @@
 #include "str.hh"
 #include <assert.h>
 #include <deque>
+#include <limits.h>
 #include <stdlib.h>
 
 namespace conf {
 
 int Option::get_int() const {
   char *endptr;
-  int return_value = strtol(value.c_str(), &endptr, 10);
-  if (endptr == value.c_str() || *endptr != 0) {
+  long return_value = strtol(value.c_str(), &endptr, 10);
+  if (endptr == value.c_str() || *endptr != 0 || return_value < INT_MIN ||
+      return_value > INT_MAX) {
     fprintf(stderr, "invalid value for option %s: %s\n", name.c_str(),
             value.c_str());
     exit(1);
-- 
2.43.0


From 94818a601548dabbf954b7a1b8dbff322d514d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:52 +0000
Subject: [PATCH 38/48] fix: a configuration file starting with whitespace had
 an empty first argument

---
 src/conf.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/conf.cc b/src/conf.cc
index 433ac80..a52d283 100644
--- a/src/conf.cc
+++ b/src/conf.cc
@@ -245,6 +245,8 @@ void Config::read(FILE *file, bool override) {
     perror("could not read config file");
     exit(1);
   }
+  // Whitespace before the first argument does not separate arguments
+  text.erase(0, text.find_first_not_of(" \t\n"));
   std::vector<std::string> fields;
   str::split_with_quotes(&text, " \t\n", true, &fields);
 
-- 
2.43.0


From 706779d8010fbc4bb73ea0b541a91b990a964eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:52 +0000
Subject: [PATCH 39/48] fix: a character following a quoted backslash was still
 quoted

---
 src/str.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/str.cc b/src/str.cc
index 981f4a1..0b2792c 100644
--- a/src/str.cc
+++ b/src/str.cc
@@ -174,8 +174,11 @@ void split_with_quotes(std::string *str, const char *delims, bool group,
       case '\\':
         if (mode == NONE)
           mode = BACKSLASH;
-        else
+        else {
           (*str)[tgt++] = '\\';
+          if (mode == BACKSLASH)
+            mode = NONE;
+        }
         break;
 
       case '\'':
-- 
2.43.0


From 007f90fd2e0a358df51b58cbd201118cce5be9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:23 +0000
Subject: [PATCH 40/48] fix: tools reported success when their output could not
 be written completely

---
 src/io.cc | 28 ++++++++++++++++++----------
 src/io.hh |  6 +++++-
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/io.cc b/src/io.cc
index 283797d..a2206b0 100644
--- a/src/io.cc
+++ b/src/io.cc
@@ -3,11 +3,11 @@
 namespace io {
 bool Stream::verbose = false;
 
-Stream::Stream() : file(NULL), is_pipe(false), close_allowed(true) {}
+Stream::Stream() : file(NULL), is_pipe(false), close_allowed(true), writing(false) {}
 
 Stream::Stream(std::string file_name, std::string mode, SeekType seek_type,
                bool allow_close)
-    : file(NULL), is_pipe(false), close_allowed(true) {
+    : file(NULL), is_pipe(false), close_allowed(true), writing(false) {
   open(file_name, mode, seek_type, allow_close);
 }
 
@@ -23,6 +23,7 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
   }
 
   close_allowed = allow_close;
+  writing = mode[0] != 'r';
 
   if (verbose) {
     if (mode == "r")
@@ -166,18 +167,25 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
 }
 
 void Stream::close() {
-  if (file == NULL || !close_allowed)
+  if (file == NULL)
     return;
-  if (is_pipe)
+  bool failed = writing && (fflush(file) != 0 || ferror(file));
+  if (close_allowed) {
+    if (is_pipe) {
 #ifdef _WIN32
-    throw OpenError();
+      throw OpenError();
 #else
-    pclose(file);
+      failed = (pclose(file) != 0 && writing) || failed;
 #endif
-  else
-    fclose(file);
-  is_pipe = false;
-  file = NULL;
+    } else
+      failed = (fclose(file) != 0 && writing) || failed;
+    is_pipe = false;
+    file = NULL;
+  }
+  if (failed) {
+    fprintf(stderr, "Stream::close(): could not write all of the output\n");
+    exit(1);
+  }
 }
 
 } // namespace io
diff --git a/src/io.hh b/src/io.hh
index 4403231..8af518c 100644
--- a/src/io.hh
+++ b/src/io.hh
@@ -45,12 +45,16 @@ struct Stream {
   void open(std::string file_name, std::string mode,
             SeekType seek_type = LINEAR, bool allow_close = true);
 
-  /** Close the file, but only if \ref close_allowed is \c true. */
+  /** Close the file, but only if \ref close_allowed is \c true.
+   * If something written to the stream could not be delivered, print
+   * an error message and exit with an error status.
+   */
   void close();
 
   FILE *file;   //!< The handle for the file or pipe
   bool is_pipe; //!< Is the opened file pipe that must be closed with pclose
   bool close_allowed; //!< Should the close() function close the file
+  bool writing;       //!< Was the stream opened for writing
 
   static bool verbose; // Print stuff
 
-- 
2.43.0


From 9410f4e602d0c320abb393c56b48a231d06d25a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:40 +0000
Subject: [PATCH 41/48] fix: compressed files with a quote or a leading hyphen
 in their name could not be opened

---
 src/io.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/io.cc b/src/io.cc
index a2206b0..0892e0d 100644
--- a/src/io.cc
+++ b/src/io.cc
@@ -125,19 +125,29 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
               file_name.c_str());
       throw OpenError();
     }
+    // Quote the file name for the shell
+    std::string quoted = "'";
+    for (size_t i = 0; i < file_name.length(); i++) {
+      if (file_name[i] == '\'')
+        quoted += "'\\''";
+      else
+        quoted += file_name[i];
+    }
+    quoted += "'";
+
     std::string pipe;
     if (mode == "r") {
       if (file_name.substr(file_name.length() - 3) == ".gz")
-        pipe = "gzip -dc '";
+        pipe = "gzip -dc < ";
       else
-        pipe = "bzip2 -dc '";
-      pipe += file_name + "'";
+        pipe = "bzip2 -dc < ";
+      pipe += quoted;
     } else if (mode == "w") {
       if (file_name.substr(file_name.length() - 3) == ".gz")
-        pipe = "gzip > '";
+        pipe = "gzip > ";
       else
-        pipe = "bzip2 --best > '";
-      pipe += file_name + "'";
+        pipe = "bzip2 --best > ";
+      pipe += quoted;
     } else {
       fprintf(stderr, "invalid mode %s for gzipped file\n", mode.c_str());
     }
-- 
2.43.0


From e1d792ec89465a13a4a47c15f615e4fe165b4e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:01 +0000
Subject: [PATCH 42/48] fix: missing or damaged compressed files, failing input
 commands and read errors gave empty input

---
 src/io.cc | 23 ++++++++++++++++++++---
 src/io.hh |  5 +++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/io.cc b/src/io.cc
index 0892e0d..dfaa7b6 100644
--- a/src/io.cc
+++ b/src/io.cc
@@ -137,11 +137,23 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
 
     std::string pipe;
     if (mode == "r") {
+      // The decompressor would only produce an empty stream if the file
+      // can not be opened
+      FILE *readable = fopen(file_name.c_str(), "r");
+      if (readable == NULL) {
+        fprintf(stderr, "could not open mode %s for file %s\n", mode.c_str(),
+                file_name.c_str());
+        throw OpenError();
+      }
+      fclose(readable);
       if (file_name.substr(file_name.length() - 3) == ".gz")
         pipe = "gzip -dc < ";
       else
         pipe = "bzip2 -dc < ";
       pipe += quoted;
+      // gzip only warned about something
+      if (file_name.substr(file_name.length() - 3) == ".gz")
+        pipe += " || [ $? -eq 2 ]";
     } else if (mode == "w") {
       if (file_name.substr(file_name.length() - 3) == ".gz")
         pipe = "gzip > ";
@@ -179,13 +191,15 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
 void Stream::close() {
   if (file == NULL)
     return;
-  bool failed = writing && (fflush(file) != 0 || ferror(file));
+  bool failed = (writing && fflush(file) != 0) || ferror(file);
+  // A command that was read to the end must have succeeded
+  bool status_matters = writing || feof(file);
   if (close_allowed) {
     if (is_pipe) {
 #ifdef _WIN32
       throw OpenError();
 #else
-      failed = (pclose(file) != 0 && writing) || failed;
+      failed = (pclose(file) != 0 && status_matters) || failed;
 #endif
     } else
       failed = (fclose(file) != 0 && writing) || failed;
@@ -193,7 +207,10 @@ void Stream::close() {
     file = NULL;
   }
   if (failed) {
-    fprintf(stderr, "Stream::close(): could not write all of the output\n");
+    if (writing)
+      fprintf(stderr, "Stream::close(): could not write all of the output\n");
+    else
+      fprintf(stderr, "Stream::close(): could not read all of the input\n");
     exit(1);
   }
 }
diff --git a/src/io.hh b/src/io.hh
index 8af518c..92ca745 100644
--- a/src/io.hh
+++ b/src/io.hh
@@ -46,8 +46,9 @@ struct Stream {
             SeekType seek_type = LINEAR, bool allow_close = true);
 
   /** Close the file, but only if \ref close_allowed is \c true.
-   * If something written to the stream could not be delivered, print
-   * an error message and exit with an error status.
+   * If something written to the stream could not be delivered or
+   * reading the stream failed, print an error message and exit with an
+   * error status.
    */
   void close();
 
-- 
2.43.0


From db180192f337622dbc6c15637f9323093de7b2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:01 +0000
Subject: [PATCH 43/48] fix: the scorer of the library interface could not read
 compressed models

---
 src/io.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io.cc b/src/io.cc
index dfaa7b6..a2f2ab2 100644
--- a/src/io.cc
+++ b/src/io.cc
@@ -22,6 +22,11 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
     throw OpenError();
   }
 
+  // Pipes, standard input and standard output have no binary mode
+  std::string full_mode = mode;
+  if (mode == "rb" || mode == "wb")
+    mode.erase(1, 1);
+
   close_allowed = allow_close;
   writing = mode[0] != 'r';
 
@@ -178,7 +183,7 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
 
   // An ordinary file
   else {
-    file = fopen(file_name.c_str(), mode.c_str());
+    file = fopen(file_name.c_str(), full_mode.c_str());
     if (file == NULL) {
       fprintf(stderr, "could not open mode %s for file %s\n", mode.c_str(),
               file_name.c_str());
-- 
2.43.0


From 8c1a5c95ef2d7f53338a58d08fc10973e778d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:01 +0000
Subject: [PATCH 44/48] fix: input that is read twice was silently empty the
 second time when read from standard input

---
 src/InterKn_tmpl.hh  | 5 +++--
 src/InterTreeGram.cc | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index ae3c4a8..317816f 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -751,7 +751,7 @@ void InterKn_t<KT, CT>::constructor_helper(
           }
         }
         NgramCounts_t<int, CT> nc_tmp(1, 0, 500000);
-        io::Stream datain(this->m_data_name, "r");
+        io::Stream datain(this->m_data_name, "r", io::REOPENABLE);
         nc_tmp.count(datain.file, true);
         datain.close();
         fprintf(stderr, "Shrinking\n");
@@ -777,7 +777,8 @@ void InterKn_t<KT, CT>::constructor_helper(
               datastorage, order, sent_start_idx);
         }
       } else {
-        io::Stream datain(this->m_data_name, "r");
+        io::Stream datain(this->m_data_name, "r",
+                          datastorage ? io::REOPENABLE : io::LINEAR);
         this->input_data_size = moc->InitializeCountsFromText(
             datain.file, &(this->vocab), true, order, sent_start_symbol);
         datain.close();
diff --git a/src/InterTreeGram.cc b/src/InterTreeGram.cc
index 02aacde..a515235 100644
--- a/src/InterTreeGram.cc
+++ b/src/InterTreeGram.cc
@@ -34,7 +34,7 @@ InterTreeGram::InterTreeGram(std::vector<std::string> lm_names,
   for (std::vector<std::string>::iterator it = lm_names.begin();
        it != lm_names.end(); it++) {
     ArpaReader areader(this);
-    io::Stream lm_in(*it, "r");
+    io::Stream lm_in(*it, "r", io::REOPENABLE);
 
     std::string line;
     bool dummy;
-- 
2.43.0


From 2b1c194cd69df9f73d28fb99e9dab0705eba2a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:01 +0000
Subject: [PATCH 45/48] fix: simpleinterpolate2arpa mixed progress messages
 into a model written to standard output

---
 app/simpleinterpolate2arpa.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/simpleinterpolate2arpa.cc b/app/simpleinterpolate2arpa.cc
index d78548b..b6e8b55 100644
--- a/app/simpleinterpolate2arpa.cc
+++ b/app/simpleinterpolate2arpa.cc
@@ -24,7 +24,7 @@ component_models_and_weights(const std::string inputlist) {
     }
     const float weight = std::stof(split_strings2[1]);
     const std::string model_name = split_strings2[0];
-    std::cout << "Model " << model_name << " " << weight << std::endl;
+    std::cerr << "Model " << model_name << " " << weight << std::endl;
     std::shared_ptr<HashGram_t<int>> cur_ngram(new HashGram_t<int>);
     all_vocabs.copy_vocab_to(*cur_ngram);
     cur_ngram->set_oov("<UNK>");
-- 
2.43.0


From cde48c92bb02a13770511c070877ef1fd0b74543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:46 +0000
Subject: [PATCH 46/48] fix: reading a counts file with an incomplete line
 crashed

---
 src/MultiOrderCounts_tmpl.hh | 13 +++++++++++++
 src/NgramCounts_tmpl.hh      |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/src/MultiOrderCounts_tmpl.hh b/src/MultiOrderCounts_tmpl.hh
index ff56c24..b48dea4 100644
--- a/src/MultiOrderCounts_tmpl.hh
+++ b/src/MultiOrderCounts_tmpl.hh
@@ -321,6 +321,11 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in) {
       str::split(&line, "-", true, &vec);
       vec[0][0] = ' ';
       order = str::str2long(&vec[0], &ok);
+      if (vec.size() < 2 || order < 1) {
+        fprintf(stderr, "Error reading line %ld.\n%s\nExit.\n", lineno,
+                line.c_str());
+        exit(-1);
+      }
       // fprintf(stderr,"ordered %s=%d(%d)\n", vec[0].c_str(), order, ok);
       // fprintf(stderr,"comparestring *%s*\n", vec[1].c_str());
       if (!strcmp("gram counts", vec[1].c_str())) {
@@ -339,7 +344,15 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in) {
       continue;
     }
 
+    if (order < 1) {
+      fprintf(stderr, "Error reading line %ld:\n%s\nExit.\n", lineno,
+              line.c_str());
+      exit(-1);
+    }
     str::split(&line, " \t", true, &vec);
+    // Missing fields are empty, which is an error
+    if (vec.size() < order + 6)
+      vec.resize(order + 6);
     // fprintf(stderr,"ORDER %d\n", order);
     if (!read_backoffs) {
       for (int i = 1; i <= order; i++) {
diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index 42b7d90..e96ee11 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -172,6 +172,10 @@ void NgramCounts_t<K, T>::read(FILE *countsfile, FILE *vocabfile) {
       }
       cptr = strtok(NULL, " ");
     }
+    if (!cptr) {
+      fprintf(stderr, "Errors in input, line without a count\n");
+      continue;
+    }
     counts->increment(&m_ds[0], ascii2num(cptr, (T *)NULL));
   }
 }
-- 
2.43.0


From c58d54a12073a10683b872efbb9c26a26913ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 47/48] fix: models written without zero-probability n-grams
 lost the share of the words without counts

---
 src/InterKn.hh      |  1 +
 src/InterKn_tmpl.hh | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/InterKn.hh b/src/InterKn.hh
index ee048aa..330a1e8 100644
--- a/src/InterKn.hh
+++ b/src/InterKn.hh
@@ -195,6 +195,7 @@ protected:
   // {assert(false);return(0);}
   template <typename BOT> void add_counts_for_backoffs_fbase(BOT *);
   template <typename BOT> void add_zeroprob_grams_fbase(BOT *);
+  void add_zeroprob_unigrams();
   template <typename BOT>
   void prune_model_fbase(float treshold, bool recorrect_kn,
                          Storage_t<KT, CT> *real_counts, BOT *dummy);
diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 317816f..b0b4251 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -561,7 +561,15 @@ void InterKn_t<KT, CT>::add_zeroprob_grams_fbase(BOT *dummy) {
         this->moc->IncrementCount(o - 1, &v[0], 0);
   }
 
-  // Add zeroprob unigrams:
+  add_zeroprob_unigrams();
+}
+
+template <typename KT, typename CT>
+void InterKn_t<KT, CT>::add_zeroprob_unigrams() {
+  if (std::numeric_limits<KT>::max() < this->vocab.num_words()) {
+    fprintf(stderr, "Too large vocab for the given key type!!! Abort.\n");
+    exit(-1);
+  }
   for (KT i = 0; i < this->vocab.num_words(); i++) {
     // fprintf(stderr, "%d/%d %s\n", i, this->vocab.num_words(),
     // this->vocab.word(i).c_str());
@@ -591,6 +599,8 @@ void InterKn_t<KT, CT>::counts2asciilm(FILE *out) {
   remove_zeroprob_grams();
   if (this->zeroprobgrams)
     add_zeroprob_grams();
+  else // The words without counts still have a share of the probability mass
+    add_zeroprob_unigrams();
 
   // Insert to counts MINLOGPROB values for each required backoff
   add_counts_for_backoffs();
-- 
2.43.0


From d4438aadb91a0ddcc9d3336b6545724f8eae87d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:42 +0000
Subject: [PATCH 48/48] fix: initialize the perplexity without sentence ends

---
 src/PerplexityFuncs.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index d3167cf..796de6c 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -79,6 +79,7 @@ void Perplexity::init_variables() {
   m_print_unk_warn = true;
   m_logprob = 0.0;
   m_perplexity = 0.0;
+  m_perplexity_wo_sent_ends = 0.0;
   m_token_perplexity = 0.0;
   m_lm2.reset();
   m_alpha = 0.5;
-- 
2.43.0

