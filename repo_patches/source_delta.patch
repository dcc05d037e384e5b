From c9a6861744f17d33ed740cc797295e6b358f06a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:32 +0000
Subject: [PATCH 01/20] fix: distinguish top nodes that differ only in their
 false parameter

The unique table compared top nodes by true parameter alone, so a request for
(p, q) could return an existing (p, r) node, e.g. learning (1, 0) returned the
unconstrained (1, 1) node.
---
 src/psdd_node.cpp         | 3 ++-
 src/psdd_unique_table.cpp | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 612736e..7c597e8 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -983,7 +983,8 @@ PsddTopNode::PsddTopNode(uintmax_t *node_index, Vtree *vtree_node,
 bool PsddTopNode::operator==(const PsddTopNode &other) const {
   return variable_index_ == other.variable_index_ &&
          flag_index() == other.flag_index() &&
-         true_parameter_ == other.true_parameter_;
+         true_parameter_ == other.true_parameter_ &&
+         false_parameter_ == other.false_parameter_;
 }
 
 int PsddTopNode::node_type() const { return 3; }
diff --git a/src/psdd_unique_table.cpp b/src/psdd_unique_table.cpp
index 9a19e80..95c25b0 100644
--- a/src/psdd_unique_table.cpp
+++ b/src/psdd_unique_table.cpp
@@ -31,9 +31,13 @@ struct PsddUniqueTableSetFunctional {
           node_b->psdd_top_node()->variable_index()) {
         return node_a->psdd_top_node()->variable_index() <
                node_b->psdd_top_node()->variable_index();
-      } else {
+      } else if (node_a->psdd_top_node()->true_parameter() !=
+                 node_b->psdd_top_node()->true_parameter()) {
         return node_a->psdd_top_node()->true_parameter() <
                node_b->psdd_top_node()->true_parameter();
+      } else {
+        return node_a->psdd_top_node()->false_parameter() <
+               node_b->psdd_top_node()->false_parameter();
       }
     } else {
       if (node_b->node_type() != DECISION_NODE_TYPE) {
-- 
2.43.0


From 83b9338e9adcf2ebaf37599ab00020624ce4defc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:08 +0000
Subject: [PATCH 02/20] fix: list parents before children when roots are at
 different vtree levels

SerializePsddNodes pushed all roots first, so a root below another root came
before its parents, and sampling such a list dereferenced null.
---
 src/psdd_node.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 7c597e8..5ebfd6a 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -288,6 +288,28 @@ SerializePsddNodes(const std::vector<PsddNode *> &root_nodes) {
     }
     ++explore_index;
   }
+  if (root_nodes.size() > 1) {
+    // Roots may sit at different levels of the vtree, and one root may be
+    // below another. Children are always strictly deeper than their parents.
+    std::unordered_map<Vtree *, uintmax_t> depths;
+    for (PsddNode *cur_node : result) {
+      Vtree *cur_vtree = cur_node->vtree_node();
+      if (depths.find(cur_vtree) != depths.end()) {
+        continue;
+      }
+      uintmax_t depth = 0;
+      for (Vtree *v = sdd_vtree_parent(cur_vtree); v != nullptr;
+           v = sdd_vtree_parent(v)) {
+        ++depth;
+      }
+      depths[cur_vtree] = depth;
+    }
+    std::stable_sort(result.begin(), result.end(),
+                     [&depths](PsddNode *lhs, PsddNode *rhs) {
+                       return depths[lhs->vtree_node()] <
+                              depths[rhs->vtree_node()];
+                     });
+  }
   return result;
 }
 
-- 
2.43.0


From 8e21508631e70a9ac882d5502bf659332e6ca0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:22 +0000
Subject: [PATCH 03/20] fix: keep the comparison value of a parameter in step
 in += *= /=

The compound operators changed parameter_ and left hash_value_ as it was,
so the result compared like the old operand.
---
 src/psdd_parameter.cpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/psdd_parameter.cpp b/src/psdd_parameter.cpp
index 20c3cd9..260c7b8 100644
--- a/src/psdd_parameter.cpp
+++ b/src/psdd_parameter.cpp
@@ -76,28 +76,16 @@ bool PsddParameter::operator>(const PsddParameter &other) const {
 }
 
 PsddParameter &PsddParameter::operator+=(const PsddParameter &other) {
-  if (parameter_ == -std::numeric_limits<double>::infinity()) {
-    // if this is zero
-    parameter_ = other.parameter_;
-  } else if (other.parameter_ == -std::numeric_limits<double>::infinity()) {
-    // No change on the paramter_
-  } else {
-    if (parameter_ > other.parameter_) {
-      parameter_ += std::log1p(std::exp(other.parameter_ - parameter_));
-    } else {
-      parameter_ = other.parameter_ +
-                   std::log1p(std::exp(parameter_ - other.parameter_));
-    }
-  }
+  *this = *this + other;
   return *this;
 }
 
 PsddParameter &PsddParameter::operator/=(const PsddParameter &other) {
-  parameter_ -= other.parameter_;
+  *this = *this / other;
   return *this;
 }
 
 PsddParameter &PsddParameter::operator*=(const PsddParameter &other) {
-  parameter_ += other.parameter_;
+  *this = *this * other;
   return *this;
 }
-- 
2.43.0


From a3414633944ac842996f3a385af2ebd7b09bd51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:27 +0000
Subject: [PATCH 04/20] fix: read back probabilities of zero from a PSDD file

WritePsddToFile prints their logarithm as -inf, which operator>> does not
parse: the parameter became 0 (probability one) and the rest of the line
was lost.
---
 src/psdd_manager.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index 26e4627..af28767 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -6,6 +6,7 @@
 #include <psdd/psdd_unique_table.h>
 
 #include <cassert>
+#include <cstdlib>
 #include <fstream>
 #include <functional>
 #include <iostream>
@@ -612,13 +613,17 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       uintmax_t node_index;
       uint32_t vtree_index;
       uint32_t variable_index;
-      double neg_log_pr;
-      double pos_log_pr;
+      // as text: operator>> does not read the "-inf" written for a probability
+      // of zero
+      std::string neg_log_pr;
+      std::string pos_log_pr;
       iss >> node_index >> vtree_index >> variable_index >> neg_log_pr >>
           pos_log_pr;
       PsddNode *cur_node = GetPsddTopNode(
-          variable_index, flag_index, PsddParameter::CreateFromLog(pos_log_pr),
-          PsddParameter::CreateFromLog(neg_log_pr));
+          variable_index, flag_index,
+          PsddParameter::CreateFromLog(std::strtod(pos_log_pr.c_str(), nullptr)),
+          PsddParameter::CreateFromLog(
+              std::strtod(neg_log_pr.c_str(), nullptr)));
       construct_cache[node_index] = cur_node;
       root_node = cur_node;
     } else {
@@ -634,7 +639,7 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       for (size_t j = 0; j < element_size; j++) {
         uintmax_t prime_index;
         uintmax_t sub_index;
-        double weight_in_log;
+        std::string weight_in_log;
         iss >> prime_index >> sub_index >> weight_in_log;
         assert(construct_cache.find(prime_index) != construct_cache.end());
         assert(construct_cache.find(sub_index) != construct_cache.end());
@@ -642,7 +647,8 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
         PsddNode *sub_node = construct_cache[sub_index];
         primes.push_back(prime_node);
         subs.push_back(sub_node);
-        params.push_back(PsddParameter::CreateFromLog(weight_in_log));
+        params.push_back(PsddParameter::CreateFromLog(
+            std::strtod(weight_in_log.c_str(), nullptr)));
       }
       assert(sdd_vtree_parent(primes[0]->vtree_node()) ==
              sdd_vtree_parent(subs[0]->vtree_node()));
-- 
2.43.0


From 76303e72c3c2ca10e7d5d15c7d6f24d19d96aa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:57 +0000
Subject: [PATCH 05/20] fix: compare the draw exactly in DirectSample

The comparison of PsddParameter does not separate values closer than 1e-7, so
a draw that close to one hit assert(false) in a decision node and set a
variable of true parameter one to false.
---
 src/psdd_node.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 5ebfd6a..e7720ae 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -962,19 +962,29 @@ void PsddDecisionNode::DirectSample(
   PsddParameter uniform_rand = PsddParameter::CreateFromDecimal(
       (generator->generate() - generator->min()) /
       (generator->max() - generator->min()));
-  PsddParameter acc = PsddParameter::CreateFromDecimal(0);
+  PsddParameter zero = PsddParameter::CreateFromDecimal(0);
+  PsddParameter acc = zero;
   auto element_size = primes_.size();
+  // The element that is used if the draw is above every accumulated sum, which
+  // rounding allows.
+  size_t chosen = element_size;
   for (size_t i = 0; i < element_size; ++i) {
     PsddParameter cur_parameter = parameters_[i];
+    if (cur_parameter == zero) {
+      continue;
+    }
+    chosen = i;
     acc = acc + cur_parameter;
-    if (uniform_rand < acc) {
-      // Use this partition
-      primes_[i]->DirectSample(instantiation, generator);
-      subs_[i]->DirectSample(instantiation, generator);
-      return;
+    // The comparison of PsddParameter does not separate values closer than its
+    // resolution, the draw has to be compared exactly.
+    if (uniform_rand.parameter() < acc.parameter()) {
+      break;
     }
   }
-  assert(false);
+  assert(chosen < element_size);
+  // Use this partition
+  primes_[chosen]->DirectSample(instantiation, generator);
+  subs_[chosen]->DirectSample(instantiation, generator);
 }
 const std::vector<uintmax_t> &PsddDecisionNode::data_counts() const {
   return data_counts_;
@@ -1045,7 +1055,7 @@ void PsddTopNode::DirectSample(std::bitset<MAX_VAR> *instantiation,
   PsddParameter uniform_rand = PsddParameter::CreateFromDecimal(
       (generator->generate() - generator->min()) /
       (generator->max() - generator->min()));
-  if (uniform_rand < true_parameter_) {
+  if (uniform_rand.parameter() < true_parameter_.parameter()) {
     instantiation->set(variable_index_);
   }
 }
-- 
2.43.0


From de214625573c260743b681b65fac7ca402c459ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:55 +0000
Subject: [PATCH 06/20] fix: csvparser wrote before the field buffer when the
 input ends right after an opening quote

---
 src/csvparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index 7e62b4a..a0f4b45 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -184,7 +184,7 @@ CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
       seriesOfQuotesLength = 0;
     }
     if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
-      currField[lastCharIsQuote ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
+      currField[lastCharIsQuote && currFieldCharIter > 0 ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
       csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
       strcpy(csvRow->fields_[fieldIter], currField);
       free(currField);
-- 
2.43.0


From 8ec8a70662da17558bf7a94d7d7a112e7b1feadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:55 +0000
Subject: [PATCH 07/20] fix: csvparser read past the end of the string when
 asked for a row again after the last one

---
 src/csvparser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csvparser.c b/src/csvparser.c
index a0f4b45..0d58827 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -152,6 +152,9 @@ CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
     int endOfFileIndicator;
     if (csvParser->fromString_) {
       endOfFileIndicator = (currChar == '\0');
+      if (endOfFileIndicator) {
+        csvParser->csvStringIter_--;
+      }
     } else {
       endOfFileIndicator = feof(csvParser->fileHandler_);
     }
-- 
2.43.0


From cc4c654a58bf9f7da5bf8163f6cfc4b900ab1d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:55 +0000
Subject: [PATCH 08/20] fix: csvparser overflowed the error message buffer for
 a long path that cannot be opened

---
 src/csvparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index 0d58827..349d0c7 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -126,7 +126,7 @@ CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
       if (csvParser->fileHandler_ == NULL) {
         int errorNum = errno;
         const char *errStr = strerror(errorNum);
-        char *errMsg = (char *) malloc(1024 + strlen(errStr));
+        char *errMsg = (char *) malloc(1024 + strlen(csvParser->filePath_) + strlen(errStr));
         strcpy(errMsg, "");
         sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
         _CsvParser_setErrorMessage(csvParser, errMsg);
-- 
2.43.0


From c8a902baab3d8bf6d3402648b8d5889f1ca3034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:26 +0000
Subject: [PATCH 09/20] fix: BinaryData started with an uninitialised number of
 examples

---
 include/psdd/binary_data.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/psdd/binary_data.h b/include/psdd/binary_data.h
index d4822fd..82b6ff8 100644
--- a/include/psdd/binary_data.h
+++ b/include/psdd/binary_data.h
@@ -27,8 +27,8 @@ class BinaryData {
   double CalculateEntropy() const;
  private:
   std::unordered_map<std::bitset<MAX_VAR>, uintmax_t> data_;
-  uint32_t variable_size_;
-  uintmax_t data_size_;
+  uint32_t variable_size_ = 0;
+  uintmax_t data_size_ = 0;
 };
 
 #endif //STRUCTURED_BAYESIAN_NETWORK_BINARY_DATA_H
-- 
2.43.0


From ac352a75ec1ad4958fd4b7213e59debe66023e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:26 +0000
Subject: [PATCH 10/20] fix: BinaryData::ReadFile kept the records of an
 earlier file

---
 src/binary_data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 3342a4a..9218d15 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -18,6 +18,7 @@ void BinaryData::ReadFile(const char *data_file) {
     exit(1);
   }
   CsvRow *row;
+  data_.clear();
   data_size_ = 0;
   variable_size_ = 0;
   while ((row = CsvParser_getRow(csvparser))) {
-- 
2.43.0


From 659890640d112bb842d76ad45c8173a1a26eeb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:26 +0000
Subject: [PATCH 11/20] fix: sparse records with variables below one or beyond
 MAX_VAR are skipped, not read

---
 src/binary_data.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 9218d15..b1ec50e 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -129,8 +129,9 @@ BinaryData *BinaryData::ReadSparseDataJsonFile(const char *data_file) {
     for (auto positive_variable_it = cur_example.begin();
          positive_variable_it != cur_example.end(); ++positive_variable_it) {
       const auto &cur_variable = *positive_variable_it;
-      if (cur_variable.is_number()) {
-        if (cur_variable <= variable_size) {
+      if (cur_variable.is_number_integer()) {
+        if (cur_variable >= 1 && cur_variable <= variable_size &&
+            cur_variable < MAX_VAR) {
           cur_example_bitset.set(cur_variable);
         } else {
           legal_data = false;
-- 
2.43.0


From 6e92538758a53f65699974234252d45d03cca6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:10 +0000
Subject: [PATCH 12/20] fix: the factor reader took a line of white space
 between tables for an entry count

---
 src/uai_network.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uai_network.cpp b/src/uai_network.cpp
index a7b7dd1..929ae59 100644
--- a/src/uai_network.cpp
+++ b/src/uai_network.cpp
@@ -55,7 +55,7 @@ void UaiNetwork::read_file(const char* uai_file) {
   }
   for (int i = 0; i < m_factor_size; i++) {
     getline(uaifs, string_buf);
-    while (string_buf == "") {
+    while (uaifs && string_buf.find_first_not_of(" \t\r") == std::string::npos) {
       getline(uaifs, string_buf);
     }
     size_t entry_cnt;
-- 
2.43.0


From aeb9bbf6fa81cbf95f3af760b2cb8fe8ebf36297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:43 +0000
Subject: [PATCH 13/20] fix: compiling a factor that is zero everywhere
 dereferenced a null node

---
 src/pgm_compiler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pgm_compiler.cpp b/src/pgm_compiler.cpp
index e1562f1..3917f00 100644
--- a/src/pgm_compiler.cpp
+++ b/src/pgm_compiler.cpp
@@ -176,6 +176,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_factor(
   PsddParameter result_norm = context_norm_cache->begin()->second;
   delete context_node_cache;
   delete context_norm_cache;
+  if (result == nullptr) {
+    return {nullptr, result_norm};
+  }
   return {m_pm->NormalizePsddNode(m_pm->vtree(), result, /*flag_index*/ 0),
           result_norm};
 }
-- 
2.43.0


From eaa12c434398d96d164fd48f05753771b1ba3bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:48 +0000
Subject: [PATCH 14/20] fix: compiling a network whose product is zero
 everywhere multiplied null nodes

---
 src/pgm_compiler.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/pgm_compiler.cpp b/src/pgm_compiler.cpp
index 3917f00..190ffc7 100644
--- a/src/pgm_compiler.cpp
+++ b/src/pgm_compiler.cpp
@@ -201,6 +201,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr) {
+      return compiled_cluster;
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     Vtree* attached_vnode = nullptr;
@@ -245,6 +248,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
           proc_nodes++;
           std::cout << "Processed " << proc_nodes << " Remaining "
                     << nodes.size() - proc_nodes << std::endl;
+          if (mult_result.first == nullptr) {
+            return mult_result;
+          }
           total = mult_result.first;
           z *= mult_result.second;
         }
@@ -266,6 +272,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
     std::cout << "Processed " << proc_nodes << " Remaining "
               << nodes.size() - proc_nodes << std::endl;
     auto mult_result = m_pm->Multiply(a, b, /*flag_index*/ 0);
+    if (mult_result.first == nullptr) {
+      return mult_result;
+    }
     z *= mult_result.second;
     output_buffer.push_back(mult_result.first);
     if ((proc_nodes % gc_freq) == 0) {
@@ -296,6 +305,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr) {
+      return compiled_cluster;
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     // set factor order
@@ -330,6 +342,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network(
                 << std::endl;
       auto mult_result =
           m_pm->Multiply(final_result, cur_node, /*flag_index*/ 0);
+      if (mult_result.first == nullptr) {
+        return mult_result;
+      }
       final_result = mult_result.first;
       z *= mult_result.second;
     }
@@ -357,6 +372,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_dc(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr) {
+      return compiled_cluster;
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     // set factor order
@@ -406,6 +424,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_dc(
     std::cout.width(15);
     std::cout << std::left << nodes.size() - proc_nodes << std::flush;
     auto mult_result = m_pm->Multiply(a, b, /*flag_index*/ 0);
+    if (mult_result.first == nullptr) {
+      return mult_result;
+    }
     z *= mult_result.second;
     nodes_to_mult.push_back(mult_result.first);
     if ((proc_nodes % gc_freq) == 0) {
-- 
2.43.0


From e401da9950d8137644c990d8e2f80b5a3c0b57f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:26 +0000
Subject: [PATCH 15/20] fix: a blank line in a CNF file was read as the empty
 clause

---
 src/cnf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cnf.cpp b/src/cnf.cpp
index 349bfb1..6bc41e1 100644
--- a/src/cnf.cpp
+++ b/src/cnf.cpp
@@ -50,6 +50,10 @@ CNF::CNF(const char *filename) {
     if (line[0] == 'c'){
       continue;
     }
+    if (line.find_first_not_of(" \t\r\n\v\f") == std::string::npos) {
+      // blank line
+      continue;
+    }
     std::vector<SddLiteral> clause;
     std::stringstream ss(line);
     SddLiteral token;
-- 
2.43.0


From df35e3d087b7bca5b2a4c6394b0766c530447bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:31 +0000
Subject: [PATCH 16/20] fix: psdd_inference dereferenced a null PSDD when the
 clauses are contradictory

---
 psdd_inference_main.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/psdd_inference_main.cpp b/psdd_inference_main.cpp
index cb6ccac..261b48c 100644
--- a/psdd_inference_main.cpp
+++ b/psdd_inference_main.cpp
@@ -75,8 +75,13 @@ int main(int argc, const char *argv[]) {
   PsddNode *result_node = psdd_manager->ReadPsddFile(psdd_filename, 0);
   if (cnf != nullptr) {
     PsddNode *evid = cnf->Compile(psdd_manager, 0);
-    auto new_node_result = psdd_manager->Multiply(evid, result_node, 0);
-    result_node = new_node_result.first;
+    if (evid == nullptr) {
+      // no assignment satisfies the evidence
+      result_node = nullptr;
+    } else {
+      auto new_node_result = psdd_manager->Multiply(evid, result_node, 0);
+      result_node = new_node_result.first;
+    }
   }
   if (result_node == nullptr) {
     std::cout << "UNSATISFIED" << std::endl;
-- 
2.43.0


From d56e5f5f8adc3f34fb2d59ae11882a9056627c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:59 +0000
Subject: [PATCH 17/20] fix: the hypergraph vtree overflowed a path buffer for
 a long working directory

---
 src/hypergraph_decomposition_vtree.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/hypergraph_decomposition_vtree.cpp b/src/hypergraph_decomposition_vtree.cpp
index 648b254..19eab56 100644
--- a/src/hypergraph_decomposition_vtree.cpp
+++ b/src/hypergraph_decomposition_vtree.cpp
@@ -3,9 +3,9 @@
 #include <assert.h>
 
 #include <chrono>
-#include <cstring>
 #include <fstream>
 #include <iostream>
+#include <string>
 #include <unordered_map>
 #include <vector>
 
@@ -73,15 +73,12 @@ r-hfc-mbc=true
 
 kahypar_context_t* CreateContext(const char* working_dir) {
   std::ofstream config_file;
-  char fname[500];
-  fname[0] = '\0';
-  strcpy(fname, working_dir);
-  strcat(fname, "/config.ini");
+  const std::string fname = std::string(working_dir) + "/config.ini";
   config_file.open(fname);
   config_file << kahypar_config;
   config_file.close();
   kahypar_context_t* context = kahypar_context_new();
-  kahypar_configure_context_from_file(context, fname);
+  kahypar_configure_context_from_file(context, fname.c_str());
   return context;
 }
 
-- 
2.43.0


From c4ad70ede0d03c26de3d4bc2cef7e75ad198a791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:14 +0000
Subject: [PATCH 18/20] fix: uai_compiler overflowed its file name buffers for
 a long input name

---
 uai_compiler.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/uai_compiler.cpp b/uai_compiler.cpp
index d8f55fa..d3b187f 100644
--- a/uai_compiler.cpp
+++ b/uai_compiler.cpp
@@ -64,13 +64,11 @@ int main(int argc, const char* argv[]) {
   auto result = pc.compile_network_dc(100);
 
   // output filename
-  char psdd_fname[1000];
-  char vtree_fname[1000];
-  sprintf(psdd_fname, "%s.psdd", uai_fname);
-  sprintf(vtree_fname, "%s.vtree", uai_fname);
+  const std::string psdd_fname = std::string(uai_fname) + ".psdd";
+  const std::string vtree_fname = std::string(uai_fname) + ".vtree";
 
-  psdd_node_util::WritePsddToFile(result.first, psdd_fname);
-  sdd_vtree_save(vtree_fname, pc.psdd_manager()->vtree());
+  psdd_node_util::WritePsddToFile(result.first, psdd_fname.c_str());
+  sdd_vtree_save(vtree_fname.c_str(), pc.psdd_manager()->vtree());
   std::cout << "Final size "
             << psdd_node_util::SerializePsddNodes(result.first).size()
             << std::endl;
-- 
2.43.0


From c97bc41d18eeb24578d805d163e731614f5cfb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:14 +0000
Subject: [PATCH 19/20] fix: uai_compiler dereferenced a null PSDD when the
 network is zero everywhere

---
 uai_compiler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uai_compiler.cpp b/uai_compiler.cpp
index d3b187f..500fe99 100644
--- a/uai_compiler.cpp
+++ b/uai_compiler.cpp
@@ -62,6 +62,11 @@ int main(int argc, const char* argv[]) {
     pc.init_psdd_manager_from_vtree(vtree_method);
   }
   auto result = pc.compile_network_dc(100);
+  if (result.first == nullptr) {
+    // the network is zero everywhere
+    std::cout << "UNSATISFIED" << std::endl;
+    exit(0);
+  }
 
   // output filename
   const std::string psdd_fname = std::string(uai_fname) + ".psdd";
-- 
2.43.0


From 4627e34979625abbbb5d532faea6d45a6d229ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:36 +0000
Subject: [PATCH 20/20] fix: compiling a network without factors returned no
 PSDD and crashed

---
 src/pgm_compiler.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pgm_compiler.cpp b/src/pgm_compiler.cpp
index 190ffc7..509a435 100644
--- a/src/pgm_compiler.cpp
+++ b/src/pgm_compiler.cpp
@@ -199,6 +199,10 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
   PsddParameter z = PsddParameter::CreateFromDecimal(1);
   std::cout << "Start Loading factors" << std::endl;
   auto factor_size = m_network->factor_size();
+  if (factor_size == 0) {
+    // the empty product: every assignment has weight one
+    return {m_pm->GetTrueNode(m_pm->vtree(), /*flag_index*/ 0), z};
+  }
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
     if (compiled_cluster.first == nullptr) {
@@ -303,6 +307,10 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network(
   PsddParameter z = PsddParameter::CreateFromDecimal(1);
   std::cout << "Start Loading factors" << std::endl;
   auto factor_size = m_network->factor_size();
+  if (factor_size == 0) {
+    // the empty product: every assignment has weight one
+    return {m_pm->GetTrueNode(m_pm->vtree(), /*flag_index*/ 0), z};
+  }
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
     if (compiled_cluster.first == nullptr) {
@@ -370,6 +378,10 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_dc(
   PsddParameter z = PsddParameter::CreateFromDecimal(1);
   std::cout << "Start Loading factors" << std::endl;
   auto factor_size = m_network->factor_size();
+  if (factor_size == 0) {
+    // the empty product: every assignment has weight one
+    return {m_pm->GetTrueNode(m_pm->vtree(), /*flag_index*/ 0), z};
+  }
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
     if (compiled_cluster.first == nullptr) {
-- 
2.43.0

