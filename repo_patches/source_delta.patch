From b20d5249d9e9891655f1f166d5a259407ab44d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:37 +0000
Subject: [PATCH 01/19] fix: decision tree leaves predict the majority class

The node constructor searched the moved-from class counts, so every node
predicted the first class.
---
 src/models/impl/DecisionTreeImpl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index f93c514..237923d 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -239,9 +239,10 @@ DecisionTreeImpl::Node::Node(DecisionTreeImpl &DT,
 {
   // Find predicted class as the maximum element in the
   // count_per_class.
-  int idx = std::distance(count_per_class.begin(),
-                          std::max_element(count_per_class.begin(),
-                                           count_per_class.end()));
+  // Use the member: the constructor parameter has been moved from.
+  int idx = std::distance(this->count_per_class.begin(),
+                          std::max_element(this->count_per_class.begin(),
+                                           this->count_per_class.end()));
   predicted_class = *std::next(DT.classes.begin(), idx);
 }
 
-- 
2.43.0


From a75d912f90c65c0f8c42e5eaeb6c63af71533896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:37 +0000
Subject: [PATCH 02/19] fix: decision tree split thresholds separate the split
 samples

The midpoint overflowed for large feature values and could round to the
left value for adjacent floats, sending left samples to the right child.
---
 src/models/impl/DecisionTreeImpl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 237923d..59ed1bb 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -356,7 +356,12 @@ std::tuple<float, Iterator, size_t, float> DecisionTreeImpl::split(
       min_gini = g;
       split_it = It;
       split_feature_idx = feature_idx;
-      split_threshold = (feature_val_left + feature_val_right) / 2.0;
+      split_threshold =
+          ((double)feature_val_left + (double)feature_val_right) / 2.0;
+      // The midpoint of adjacent floats may round to the left value, which
+      // would not separate the two.
+      if (!(feature_val_left < split_threshold))
+        split_threshold = feature_val_right;
     }
   }
 
-- 
2.43.0


From 12b72aaabe224be397662d56c32dce67370bd288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:37 +0000
Subject: [PATCH 03/19] fix: store datasets with round-trip precision

Six digits lose measurements and merge distinct feature vectors when the
dataset is loaded back.
---
 src/Dataset.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Dataset.cpp b/src/Dataset.cpp
index 045f92a..60dc3ac 100644
--- a/src/Dataset.cpp
+++ b/src/Dataset.cpp
@@ -5,6 +5,8 @@
 
 #include "apollo/Dataset.h"
 
+#include <limits>
+
 #include "helpers/Parser.h"
 
 size_t Apollo::Dataset::size() { return data.size(); }
@@ -93,6 +95,8 @@ void Apollo::Dataset::findMinMetricPolicyByFeatures(
 
 void Apollo::Dataset::store(std::ostream &os)
 {
+  // Store values with enough digits to load back the exact same values.
+  const auto precision = os.precision(std::numeric_limits<double>::max_digits10);
   os << "data: {\n";
   int idx = 0;
   for (auto &d : data) {
@@ -109,6 +113,7 @@ void Apollo::Dataset::store(std::ostream &os)
     ++idx;
   }
   os << "}\n";
+  os.precision(precision);
 }
 
 void Apollo::Dataset::load(std::istream &is)
-- 
2.43.0


From c0f5d89da438030e8697f54e52d3193d0c69d949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:37 +0000
Subject: [PATCH 04/19] fix: store tree and forest models with round-trip
 precision

Six digits change thresholds, so a reloaded model may decide differently.
---
 src/models/impl/DecisionTreeImpl.cpp | 3 +++
 src/models/impl/RandomForestImpl.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 59ed1bb..53a94c2 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -12,6 +12,7 @@
 #include <chrono>
 #include <cstdio>
 #include <iostream>
+#include <limits>
 #include <set>
 #include <sstream>
 #include <string>
@@ -182,6 +183,8 @@ DecisionTreeImpl::~DecisionTreeImpl()
 void DecisionTreeImpl::save(const std::string &filename)
 {
   std::ofstream ofs(filename, std::ofstream::out);
+  // Store values with enough digits to load back the exact same tree.
+  ofs.precision(std::numeric_limits<double>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# DecisionTreeImpl\n";
   output_tree(outfmt, "tree");
diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index f5fd20f..89f9ab8 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include <chrono>
 #include <iostream>
+#include <limits>
 #include <random>
 #include <string>
 #include <vector>
@@ -103,6 +104,8 @@ void RandomForestImpl::output_rfc(OutputFormatter &outfmt)
 void RandomForestImpl::save(const std::string &filename)
 {
   std::ofstream ofs(filename, std::ofstream::out);
+  // Store values with enough digits to load back the exact same trees.
+  ofs.precision(std::numeric_limits<double>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# RandomForestImpl\n";
   output_rfc(outfmt);
-- 
2.43.0


From 5a16e8dd8fca6774c0cf20e86a602ffb5b3fcd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:37 +0000
Subject: [PATCH 05/19] fix: training or loading a random forest replaces its
 trees

Trees of the previous forest kept voting, and a retrained forest stored
more trees than num_trees, which cannot be loaded.
---
 src/models/impl/RandomForestImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index 89f9ab8..ed183c0 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -35,6 +35,8 @@ void RandomForestImpl::train(std::vector<std::vector<float>> &features,
   std::mt19937 generator;
   std::uniform_int_distribution<size_t> uniform_dist(0, features.size() - 1);
 
+  // Replace any previously trained or loaded trees.
+  rfc.clear();
   for (unsigned i = 0; i < num_trees; i++) {
     std::vector<std::vector<float>> sample_features;
     std::vector<int> sample_responses;
@@ -155,6 +157,8 @@ void RandomForestImpl::parse_rfc(std::ifstream &ifs)
   parser.getNextToken();
   parser.parseExpected("[");
 
+  // Replace any previously trained or loaded trees.
+  rfc.clear();
   for (int i = 0; i < num_trees; ++i) {
     rfc.push_back(std::make_unique<DecisionTreeImpl>(num_classes, ifs));
     parser.getNextToken();
-- 
2.43.0


From 05021daf46a60adecc69fbdc4a7f5ddc057073cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:37 +0000
Subject: [PATCH 06/19] fix: single model training without measurements does
 nothing

Tree models dereferenced the first element of an empty training set.
---
 src/Apollo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Apollo.cpp b/src/Apollo.cpp
index 106ab2b..c016147 100644
--- a/src/Apollo.cpp
+++ b/src/Apollo.cpp
@@ -492,6 +492,9 @@ void Apollo::train(int step, bool doCollectPendingContexts)
       merged_dataset.insert(reg->dataset);
     }
 
+    // There is nothing to train with.
+    if (merged_dataset.size() <= 0) return;
+
     // TODO: Each region trains its own identical, single model. Consider
     // training the single model once and share to regions using a
     // shared_ptr.
-- 
2.43.0


From 677f4bcec187fca2d291ff4bc3d9ffadc6923f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:37 +0000
Subject: [PATCH 07/19] fix: collecting a pending context keeps the active
 context

The deprecated interface dereferenced a null current context when an
asynchronous context was collected between begin() and end().
---
 src/Region.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index f264251..d79bbef 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -531,8 +531,9 @@ void Apollo::Region::collectContext(Apollo::RegionContext *context,
 
   autoTrain();
 
+  // Collecting a pending context must not clobber a different, active context.
+  if (current_context == context) current_context = nullptr;
   destroyRegionContext(context);
-  current_context = nullptr;
 }
 
 void Apollo::Region::end(Apollo::RegionContext *context, double metric)
-- 
2.43.0


From 23645a71a5316e0b09387280536a11f301cddc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:03 +0000
Subject: [PATCH 08/19] fix: PolicyNet load refuses truncated files and drops
 cached decisions

A short file left the network partly overwritten without notice, and
decisions kept using probabilities cached before the load.
---
 src/models/PolicyNet.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/models/PolicyNet.cpp b/src/models/PolicyNet.cpp
index 6c2d2e3..6363a93 100644
--- a/src/models/PolicyNet.cpp
+++ b/src/models/PolicyNet.cpp
@@ -10,6 +10,7 @@
 #include <fstream>
 #include <iostream>
 #include <numeric>
+#include <stdexcept>
 
 #include "helpers/OutputFormatter.h"
 #include "helpers/TimeTrace.h"
@@ -681,7 +682,14 @@ void PolicyNet::load(const std::string &filename)
   f.read((char *)&rewardMovingAvg, sizeof(double));
   f.read((char *)&trainCount, sizeof(int));
 
+  // Refuse a file that does not hold exactly this network.
+  if (!f || f.peek() != std::ifstream::traits_type::eof())
+    throw std::runtime_error("Error loading file: " + filename);
+
   f.close();
+
+  // Drop action probabilities evaluated with the previous weights.
+  actionProbabilityMap.clear();
 }
 
 }  // end namespace apollo.
\ No newline at end of file
-- 
2.43.0


From 1f191fd5bf00be2575fce35ab5ba93a497b3da61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:03 +0000
Subject: [PATCH 09/19] fix: JIT evaluates the tree last trained or loaded by
 this process

Loading did not compile the tree, retraining kept evaluating the library
loaded first under the same name, thresholds lost digits, and concurrent
processes overwrote or removed the libraries of each other in /tmp.
---
 src/models/impl/DecisionTreeImpl.cpp | 38 +++++++++++++++++++---------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 53a94c2..6ea9002 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -6,6 +6,7 @@
 #include "DecisionTreeImpl.h"
 
 #include <dlfcn.h>
+#include <unistd.h>
 
 #include <algorithm>
 #include <cassert>
@@ -24,6 +25,18 @@
 
 int DecisionTreeImpl::unique_counter = 0;
 
+// JIT names include the process id, /tmp is shared between processes.
+static std::string jit_function_name(unsigned id)
+{
+  return std::string("_jit_eval_") + std::to_string(getpid()) + "_" +
+         std::to_string(id);
+}
+
+static std::string jit_library_name(unsigned id)
+{
+  return std::string("/tmp/") + jit_function_name(id) + std::string(".so");
+}
+
 DecisionTreeImpl::DecisionTreeImpl(int num_classes, std::istream &is)
     : num_classes(num_classes)
 {
@@ -41,9 +54,6 @@ DecisionTreeImpl::DecisionTreeImpl(int num_classes, std::string filename)
   ++unique_counter;
   unique_id = unique_counter;
   load(filename);
-#ifdef ENABLE_JIT_DTREE
-  compile_and_link_jit_evaluate_function();
-#endif
 }
 
 DecisionTreeImpl::DecisionTreeImpl(int num_classes, unsigned max_depth)
@@ -124,11 +134,16 @@ void DecisionTreeImpl::generate_source(Node &node, OutputFormatter &source_fmt)
 void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
 {
 #ifdef ENABLE_JIT_DTREE
-  std::string function_name =
-      std::string("_jit_eval_") + std::to_string(unique_id);
-  std::string shared_library_name =
-      std::string("/tmp/") + function_name + std::string(".so");
+  // Remove the library of any previous tree and use a new name, since dlopen
+  // returns the already loaded library for a name it has seen before.
+  std::remove(jit_library_name(unique_id).c_str());
+  ++unique_counter;
+  unique_id = unique_counter;
+  std::string function_name = jit_function_name(unique_id);
+  std::string shared_library_name = jit_library_name(unique_id);
   std::stringstream sstream;
+  // Emit thresholds with enough digits to compare as the tree does.
+  sstream.precision(std::numeric_limits<double>::max_digits10);
   OutputFormatter source_fmt(sstream);
   // source_fmt << "#include <cstdio>\n";
   source_fmt << "#include <vector>\n";
@@ -170,11 +185,7 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
 
 DecisionTreeImpl::~DecisionTreeImpl()
 {
-  std::string function_name =
-      std::string("_jit_eval_") + std::to_string(unique_id);
-  std::string shared_library_name =
-      std::string("/tmp/") + function_name + std::string(".so");
-  std::remove(shared_library_name.c_str());
+  std::remove(jit_library_name(unique_id).c_str());
 
   for (Node *node : tree_nodes)
     delete node;
@@ -255,6 +266,9 @@ void DecisionTreeImpl::load(const std::string &filename)
   if (!ifs) throw std::runtime_error("Error loading file: " + filename);
   parse_tree(ifs);
   ifs.close();
+#ifdef ENABLE_JIT_DTREE
+  compile_and_link_jit_evaluate_function();
+#endif
 }
 
 template <typename Iterator>
-- 
2.43.0


From 9ffe881ef6d88d528ee2eb808ef52a88a455ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:03 +0000
Subject: [PATCH 10/19] fix: Kokkos connector loads the stored model of a
 tuning problem

The path was passed as the model information, so a run that found a
stored model aborted with an invalid model.
---
 src/connectors/kokkos/kokkos-connector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index d244366..52bf5f0 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -550,7 +550,8 @@ extern "C" void kokkosp_request_values(
                                   name.c_str(),
                                   choiceSpaceSize,
                                   /* min_training_data */ 0,
-                                  final_name);
+                                  /* model_info */ "RandomForest",
+                                  /* modelYamlFile */ final_name);
     } else {
       region = new Apollo::Region(numContextVariables,
                                   name.c_str(),
-- 
2.43.0


From 28c4e4cd6529b6aad382a7088ad679e9eed699ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:03 +0000
Subject: [PATCH 11/19] fix: Kokkos connector candidates of a range lie in the
 range

Integer ranges were off by a step (closed) or included the open lower
bound, double ranges included the open lower bound, left out values at
the upper end, and continuous ranges had a single candidate.
---
 src/connectors/kokkos/kokkos-connector.cpp | 45 ++++++++++++++--------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 52bf5f0..d267a81 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -54,7 +54,6 @@
 using namespace Kokkos::Tools::Experimental;
 
 constexpr const int64_t slice_continuous = 100;
-constexpr const double epsilon = 1E-24;
 int flush_interval = 500;
 using valunion =
     decltype(std::declval<Kokkos::Tools::Experimental::VariableValue>().value);
@@ -70,9 +69,22 @@ struct VariableDatabaseData {
   valunion maximum;
   Kokkos::Tools::Experimental::VariableValue *candidate_values;
 };
-int64_t slice_helper(double upper, double lower, double step)
+static double first_double_value(const Kokkos_Tools_ValueRange &in)
 {
-  return ((upper - lower) / step);
+  return in.openLower ? (in.lower.double_value + in.step.double_value)
+                      : in.lower.double_value;
+}
+// Returns the number of values in a double range of non-zero step.
+static int64_t slice_helper(const Kokkos_Tools_ValueRange &in)
+{
+  const double lower = first_double_value(in);
+  const double upper = in.upper.double_value;
+  const double step = in.step.double_value;
+  int64_t last = (upper - lower) / step;
+  while (last >= 0 && (in.openUpper ? (lower + (last * step)) >= upper
+                                    : (lower + (last * step)) > upper))
+    --last;
+  return last + 1;
 }
 static size_t num_unconverged_regions;
 
@@ -92,13 +104,7 @@ int64_t count_range_slices(Kokkos::Tools::Experimental::ValueRange &in,
                     // shouldn't be a calculated value, but a value that has
                     // been set to the literal 0.0
                  ? slice_continuous
-                 : slice_helper(in.openUpper
-                                    ? in.upper.double_value
-                                    : (in.upper.double_value - epsilon),
-                                in.openLower
-                                    ? in.lower.double_value
-                                    : (in.lower.double_value + epsilon),
-                                in.step.double_value);
+                 : slice_helper(in);
     case ValueType::kokkos_value_string:
       // TODO: error mechanism?
       return -1;
@@ -165,20 +171,25 @@ void form_set_from_range(Kokkos::Tools::Experimental::VariableValue *fill_this,
   if (info->type == ValueType::kokkos_value_int64) {
     for (int x = 0; x < num_slices; ++x) {
       auto lower =
-          (with_this.openLower
-               ? with_this.lower.int_value
-               : (with_this.lower.int_value + with_this.step.int_value));
+          (with_this.openLower ? (with_this.lower.int_value + 1)
+                               : with_this.lower.int_value);
       Kokkos_Tools_VariableValue_ValueUnion value;
       value.int_value = lower + (x * with_this.step.int_value);
       fill_this[x] = mvv(id, value, info);
     }
   } else if (info->type == ValueType::kokkos_value_double) {
     for (int x = 0; x < num_slices; ++x) {
-      auto lower =
-          (with_this.openLower ? with_this.lower.double_value
-                               : (with_this.lower.double_value + epsilon));
       Kokkos_Tools_VariableValue_ValueUnion value;
-      value.double_value = lower + (x * with_this.step.double_value);
+      if (with_this.step.double_value == 0.0)
+        // Continuous range, use the middle of each slice.
+        value.double_value =
+            with_this.lower.double_value +
+            ((x + 0.5) *
+             (with_this.upper.double_value - with_this.lower.double_value) /
+             num_slices);
+      else
+        value.double_value =
+            first_double_value(with_this) + (x * with_this.step.double_value);
       fill_this[x] = mvv(id, value, info);
     }
   }
-- 
2.43.0


From 944d24e765e7009c850f8dffaab9fc29e26279f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:03 +0000
Subject: [PATCH 12/19] fix: Kokkos connector terminates long variable names

---
 src/connectors/kokkos/kokkos-connector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index d267a81..6c5c5e9 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -438,6 +438,7 @@ extern "C" void kokkosp_declare_output_type(
   auto *metadata = new VariableDatabaseData();
   metadata->name = (char *)malloc(sizeof(char) * 65);
   strncpy(metadata->name, name, 64);
+  metadata->name[64] = '\0';
   info->toolProvidedInfo = metadata;
   associate_candidates(id, info);
 }
@@ -450,6 +451,7 @@ extern "C" void kokkosp_declare_input_type(
   auto *metadata = new VariableDatabaseData();
   metadata->name = (char *)malloc(sizeof(char) * 65);
   strncpy(metadata->name, name, 64);
+  metadata->name[64] = '\0';
   info->toolProvidedInfo = metadata;
 }
 
-- 
2.43.0


From 149170e20ebba604855ad193f7170f7dec768c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:28 +0000
Subject: [PATCH 13/19] fix: datasets with several features load back

The stored features were not separated by blanks, which the loader's
tokens need: a persistent dataset with more than one feature could not be
loaded by the next run.
---
 src/Dataset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Dataset.cpp b/src/Dataset.cpp
index 60dc3ac..f19ad64 100644
--- a/src/Dataset.cpp
+++ b/src/Dataset.cpp
@@ -105,8 +105,8 @@ void Apollo::Dataset::store(std::ostream &os)
     const auto &metric = d.second;
     os << "  " << idx << ": { features: [ ";
     for (auto &f : features)
-      os << float(f) << ",";
-    os << " ], ";
+      os << float(f) << ", ";
+    os << "], ";
     os << "policy: " << policy << ", ";
     os << "xtime: " << metric;
     os << " },\n";
-- 
2.43.0


From 78f152044308d57059afa2556a43df7854bb796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:40 +0000
Subject: [PATCH 14/19] fix: PolicyNet load refuses a missing file

Like the other models, it continued with random weights instead.
---
 src/models/PolicyNet.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/models/PolicyNet.cpp b/src/models/PolicyNet.cpp
index 6363a93..c124451 100644
--- a/src/models/PolicyNet.cpp
+++ b/src/models/PolicyNet.cpp
@@ -661,10 +661,7 @@ void PolicyNet::load(const std::string &filename)
   std::ifstream f(filename, std::ios::binary);
 
   // Check if the file was opened successfully.
-  if (!f) {
-    std::cerr << "Could not load model from " << filename << std::endl;
-    return;
-  }
+  if (!f) throw std::runtime_error("Error loading file: " + filename);
 
   // Load the weights and biases of each layer from the save file.
   f.read((char *)net->layer1.weights,
-- 
2.43.0


From 8aba0109746d9ec42bb48dc703bf69e332a2733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:16 +0000
Subject: [PATCH 15/19] fix: stop the parser at the end of a truncated file

Reading a token at the end of the input dereferenced and advanced an
end-of-stream iterator and crashed instead of reporting a parse error.
---
 src/helpers/Parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/helpers/Parser.cpp b/src/helpers/Parser.cpp
index a6f48f7..4b43626 100644
--- a/src/helpers/Parser.cpp
+++ b/src/helpers/Parser.cpp
@@ -21,16 +21,16 @@ const char *Parser::getNextToken()
 
   int idx = 0;
   if (it != end) {
-    while (std::isspace(*it))
+    while (it != end && std::isspace(*it))
       ++it;
 
-    while (*it == '#') {
+    while (it != end && *it == '#') {
       is.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
-      while (std::isspace(*it))
+      while (it != end && std::isspace(*it))
         ++it;
     }
 
-    while (!std::isspace(*it)) {
+    while (it != end && !std::isspace(*it)) {
       buffer[idx] = *it;
       ++idx;
       ++it;
-- 
2.43.0


From e8957a90bc131935906ee6dc8443f43f968f7cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:50 +0000
Subject: [PATCH 16/19] fix: Kokkos tuning problems with long names get regions
 of their own

---
 src/connectors/kokkos/kokkos-connector.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 6c5c5e9..bb92454 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -555,7 +555,11 @@ extern "C" void kokkosp_request_values(
     std::string suffix = ".yaml";
     std::string name = get_region_name(tuningProblem);
     constexpr const int apollo_user_file_length = 63;
-    name = name.substr(0, apollo_user_file_length);
+    if (name.length() > apollo_user_file_length) {
+      // Keep the names of different tuning problems different when shortened.
+      std::string hash = "-" + std::to_string(std::hash<std::string>{}(name));
+      name = name.substr(0, apollo_user_file_length - hash.length()) + hash;
+    }
     std::string final_name = path + prefix + name + suffix;
     Apollo::Region *region;
     if (file_exists(final_name)) {
-- 
2.43.0


From 136c86436ada101e45843940b797b12ca4df08f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:06 +0000
Subject: [PATCH 17/19] fix: load subnormal feature values and measurements

std::stof/std::stod throw std::out_of_range for subnormal results, so a
dataset or tree that Apollo itself stored with such a value terminated the
next run. Parse with strtof/strtod and refuse only text that is no number
or overflows.
---
 src/helpers/Parser.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/helpers/Parser.cpp b/src/helpers/Parser.cpp
index 4b43626..6070594 100644
--- a/src/helpers/Parser.cpp
+++ b/src/helpers/Parser.cpp
@@ -1,5 +1,8 @@
 #include "helpers/Parser.h"
 
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <iterator>
@@ -97,17 +100,25 @@ void Parser::parse(int &val)
 template <>
 void Parser::parse(double &val)
 {
-  std::size_t pos;
-  val = std::stod(token, &pos);
-  token = &buffer[pos];
+  // std::stod() refuses subnormal numbers, which are stored like any other.
+  char *end;
+  errno = 0;
+  val = std::strtod(token, &end);
+  if (end == token || (errno == ERANGE && std::isinf(val)))
+    error("Expected a number but parsed \"" + std::string(token) + "\"");
+  token = end;
 }
 
 template <>
 void Parser::parse(float &val)
 {
-  std::size_t pos;
-  val = std::stof(token, &pos);
-  token = &buffer[pos];
+  // std::stof() refuses subnormal numbers, which are stored like any other.
+  char *end;
+  errno = 0;
+  val = std::strtof(token, &end);
+  if (end == token || (errno == ERANGE && std::isinf(val)))
+    error("Expected a number but parsed \"" + std::string(token) + "\"");
+  token = end;
 }
 
 
-- 
2.43.0


From 773e08acef20f0fc2505886557c63dbb14389ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:18 +0000
Subject: [PATCH 18/19] fix: free the previous tree when a DecisionTree is
 retrained or loaded again

Nodes of every earlier tree were kept until the model was destroyed, and
loading appended the classes and the data of the file to those already
held, so memory grew with every training and every load.
---
 src/models/impl/DecisionTreeImpl.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 6ea9002..2d4c9da 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -72,10 +72,15 @@ void DecisionTreeImpl::train(std::vector<std::vector<float>> &features,
   for (size_t i = 0, end = features.size(); i < end; ++i)
     data.emplace_back(std::move(features[i]), responses[i]);
 
+  // Free the nodes of any previous tree once the new one replaces it.
+  std::vector<Node *> old_nodes;
+  old_nodes.swap(tree_nodes);
   root = build_tree(data.begin(),
                     data.end(),
                     /* max_depth */ max_depth,
                     /* depth */ 0);
+  for (Node *node : old_nodes)
+    delete node;
 
 #ifdef ENABLE_JIT_DTREE
   compile_and_link_jit_evaluate_function();
@@ -264,7 +269,14 @@ void DecisionTreeImpl::load(const std::string &filename)
 {
   std::ifstream ifs(filename);
   if (!ifs) throw std::runtime_error("Error loading file: " + filename);
+  // Free the nodes of any previous tree once the new one replaces it.
+  std::vector<Node *> old_nodes;
+  old_nodes.swap(tree_nodes);
+  classes.clear();
+  data.clear();
   parse_tree(ifs);
+  for (Node *node : old_nodes)
+    delete node;
   ifs.close();
 #ifdef ENABLE_JIT_DTREE
   compile_and_link_jit_evaluate_function();
-- 
2.43.0


From 034dce17176fae6d5b1f278682f73ae9f884cab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:59 +0000
Subject: [PATCH 19/19] fix: Kokkos connector looks for the stored model in the
 configured directory and of its own rank

---
 src/connectors/kokkos/kokkos-connector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index bb92454..3092137 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -550,8 +550,10 @@ extern "C" void kokkosp_request_values(
   auto iter =
       tuning_regions.emplace(tuningProblem, std::make_pair("", nullptr));
   if (iter.second) {
-    std::string path = ".apollo/models/";
-    std::string prefix = "RandomForest-step-0-rank-0-";
+    std::string path =
+        Config::APOLLO_OUTPUT_DIR + "/" + Config::APOLLO_MODELS_DIR + "/";
+    std::string prefix = "RandomForest-step-0-rank-" +
+                         std::to_string(apolloRuntime->mpiRank) + "-";
     std::string suffix = ".yaml";
     std::string name = get_region_name(tuningProblem);
     constexpr const int apollo_user_file_length = 63;
-- 
2.43.0

