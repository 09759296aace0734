From 0d28874b010134c64405a619ed39e3cea28757c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 01/91] fix: keep the duplicated argument of a 2-of-{x, x, z}
 gate

@(2, [x, x, z]) is x, but the simplification erased x and kept z.
---
 src/pdag.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdag.cc b/src/pdag.cc
index 7c9e6a9..fb87bdd 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -366,7 +366,8 @@ void Gate::ProcessAtleastGateDuplicateArg(int index) noexcept {
   assert(args_.size() >= min_number_);
   if (args_.size() == 2) {  // @(2, [x, x, z]) = x
     assert(min_number_ == 2);
-    this->EraseArg(index);
+    int other = *args_.begin() == index ? *args_.rbegin() : *args_.begin();
+    this->EraseArg(other);
     this->type(kNull);
     return;
   }
-- 
2.43.0


From aea101a33632beb54725bdd311771c9ecdf1ba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 02/91] fix: clear NULL gates left by filtering merge
 candidates

FilterMergeCandidates turns gates into pass-through ones; with fewer than two
candidates left the cleanup was skipped and the following passes aborted.
---
 src/preprocessor.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 9a03e14..690f950 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -1132,8 +1132,10 @@ bool Preprocessor::MergeCommonArgs(Connective op) noexcept {
     if (candidates.size() < 2)
       continue;
     FilterMergeCandidates(&candidates);
-    if (candidates.size() < 2)
+    if (candidates.size() < 2) {
+      graph_->RemoveNullGates();  // The filtering may produce NULL gates.
       continue;
+    }
     std::vector<MergeTable::Candidates> groups;
     GroupCandidatesByArgs(&candidates, &groups);
     for (const auto& group : groups) {
-- 
2.43.0


From 8a67df3d4d478414b19624b4f83d467ab651bcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 03/91] fix: release detached gates before clearing constants
 in Boolean optimization

The local pointers kept gates with constants alive outside of the graph,
which aborted the clean-up.
---
 src/preprocessor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 690f950..7d72db3 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -1874,6 +1874,8 @@ void Preprocessor::ProcessCommonNode(
   }
   ClearStateMarks(root);
   node->opti_value(0);
+  root.reset();  // The gates may be detached from the graph by now.
+  node.reset();
   graph_->RemoveNullGates();
 }
 
-- 
2.43.0


From c2953581e67d679634a62914ca80eae5826a9ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 04/91] fix: do not decompose at gates without timing
 information

Gates created by preceding decompositions have no visit times; starting or
cloning from them aborted the analysis.
---
 src/preprocessor.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 7d72db3..cb2352a 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -2220,6 +2220,11 @@ bool Preprocessor::DecompositionProcessor::ProcessDestinations(
     if (!node_->parents().count(parent->index()))
       continue;
 
+    // The gate is created by the previous decompositions (e.g., K/N gate
+    // simplification), so its sub-graph has no timing information.
+    if (!parent->Visited())
+      continue;
+
     bool state = false;  // State for the constant propagation.
     switch (parent->type()) {
       case kAnd:
@@ -2262,7 +2267,7 @@ bool Preprocessor::DecompositionProcessor::ProcessAncestors(
         changed = true;
         gate->ProcessConstantArg(node_, state);
         preprocessor_->RegisterToClear(gate);
-      } else {
+      } else if (gate->Visited()) {  // New gates don't have timing.
         GatePtr clone = gate->Clone();
         if (preprocessor_->RegisterToClear(clone)) {
           to_swap.emplace_back(arg.first, clone);
-- 
2.43.0


From 42ede3700e0353485c292f61d910a9162f41e236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 05/91] fix: mark a replaced root gate as module upon gathering
 modules

---
 src/preprocessor.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index cb2352a..c1eaddb 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -1069,7 +1069,8 @@ std::vector<GateWeakPtr> Preprocessor::GatherModules() noexcept {
   graph_->Clear<Pdag::kGateMark>();
   const GatePtr& root = graph_->root();
   assert(!root->mark());
-  assert(root->module());
+  if (!root->module())  // The root may have been replaced by its argument.
+    root->module(true);
   root->mark(true);
   std::vector<GateWeakPtr> modules;
   modules.push_back(root);
-- 
2.43.0


From 3a4d351c3656722a403966f3c48612ce352d882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 06/91] fix: release replaced gates before clearing constants
 in multiple definitions

---
 src/preprocessor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index c1eaddb..3a6f606 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -771,6 +771,7 @@ bool Preprocessor::ProcessMultipleDefinitions() noexcept {
       ReplaceGate(duplicate.lock(), def.first);
     }
   }
+  multi_def.clear();  // The gates may be detached from the graph by now.
   graph_->RemoveNullGates();
   return true;
 }
-- 
2.43.0


From ed30e8e4fc2f909f363e7a1d2de82a43993bd8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 07/91] fix: do not make BDD proxies for constant modules

Modules may turn out to be constant only in the BDD. Also, the argument
order with several constant arguments is made a strict weak ordering.
---
 src/bdd.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bdd.cc b/src/bdd.cc
index acb4448..fdb7e61 100644
--- a/src/bdd.cc
+++ b/src/bdd.cc
@@ -155,7 +155,7 @@ Bdd::Function Bdd::ConvertGraph(
   }
   for (const Gate::ConstArg<Gate>& arg : gate.args<Gate>()) {
     Function res = ConvertGraph(arg.second, gates);
-    if (arg.second.module()) {
+    if (arg.second.module() && !res.vertex->terminal()) {
       args.push_back(
           {arg.first < 0, FindOrAddVertex(arg.second, kOne_, kOne_, true)});
     } else {
@@ -164,10 +164,10 @@ Bdd::Function Bdd::ConvertGraph(
     }
   }
   boost::sort(args, [](const Function& lhs, const Function& rhs) {
-    if (lhs.vertex->terminal())
-      return true;
     if (rhs.vertex->terminal())
       return false;
+    if (lhs.vertex->terminal())
+      return true;
     return Ite::Ref(lhs.vertex).order() > Ite::Ref(rhs.vertex).order();
   });
   auto it = args.cbegin();
-- 
2.43.0


From 754a305a3b96cbb9de9a3e484c06077f3da155e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 08/91] fix: register a NULL gate again upon making it a state
 destination argument

---
 src/preprocessor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 3a6f606..2e440fc 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -2085,6 +2085,8 @@ void Preprocessor::ProcessStateDestinations(
       ReplaceGate(target, new_gate);
     }
     new_gate->AddArg(target);  // Only after replacing target!
+    if (target->type() == kNull)
+      target->type(kNull);  // The NULL root may have lost its registration.
     new_gate->descendant(node->index());  // Preserve continuity.
   }
 }
-- 
2.43.0


From 0bcad51be20c99610ec3d92ee5cc05ca861d9fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 09/91] fix: release merge candidates before clearing constants
 in merging common arguments

---
 src/preprocessor.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 2e440fc..7ae7f0b 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -1135,6 +1135,8 @@ bool Preprocessor::MergeCommonArgs(Connective op) noexcept {
       continue;
     FilterMergeCandidates(&candidates);
     if (candidates.size() < 2) {
+      candidates.clear();
+      root.reset();
       graph_->RemoveNullGates();  // The filtering may produce NULL gates.
       continue;
     }
@@ -1156,6 +1158,9 @@ bool Preprocessor::MergeCommonArgs(Connective op) noexcept {
         TransformCommonArgs(&member_group);
       }
     }
+    groups.clear();  // The gates may be detached from the graph by now.
+    candidates.clear();
+    root.reset();
     graph_->RemoveNullGates();
   }
   return changed;
-- 
2.43.0


From c2e26bdbb7012a8110893d3c4621c9d1089a00fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 10/91] fix: keep the root a module upon pulling up its only
 argument

---
 src/pdag.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdag.cc b/src/pdag.cc
index fb87bdd..5ffc2a6 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -771,9 +771,12 @@ bool Pdag::IsTrivial() noexcept {
   assert(root_->args().size() == 1);
   if (!root_->args<Gate>().empty()) {  // Pull the child gate to the root.
     int signed_index = root_->args<Gate>().begin()->first;
+    bool module = root_->module();
     root_ = root_->args<Gate>().begin()->second;  // Destroy the previous root.
     assert(root_->parents().empty() && !root_->constant() &&
            root_->type() != kNull);
+    if (module && !root_->module())
+      root_->module(true);  // The root is always a module.
     complement() ^= signed_index < 0;
     return false;
   }
-- 
2.43.0


From 1088b981c47b2ca3f6df4d1d94eefeec3720d76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 11/91] fix: account for the complemented root BDD function in
 MIF

---
 src/importance_analysis.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/importance_analysis.cc b/src/importance_analysis.cc
index 8e7bff9..17abb4a 100644
--- a/src/importance_analysis.cc
+++ b/src/importance_analysis.cc
@@ -80,7 +80,7 @@ double ImportanceAnalyzer<Bdd>::CalculateMif(int index) noexcept {
   int order = bdd_graph_->index_to_order().find(index)->second;
   double mif = CalculateMif(root, order, !original_mark);
   bdd_graph_->ClearMarks(original_mark);
-  return mif;
+  return bdd_graph_->root().complement ? -mif : mif;
 }
 
 double ImportanceAnalyzer<Bdd>::CalculateMif(const Bdd::VertexPtr& vertex,
-- 
2.43.0


From 93f20260ba0f2dd6f575c3838608e1a54015190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 12/91] fix: keep non-coherent modules at the product order
 limit

---
 src/zbdd.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/zbdd.cc b/src/zbdd.cc
index ee63ff6..f619da2 100644
--- a/src/zbdd.cc
+++ b/src/zbdd.cc
@@ -304,16 +304,16 @@ Zbdd::VertexPtr Zbdd::ConvertBddPrimeImplicants(
   Bdd::Function common = Bdd::Consensus()(bdd_graph, ite, complement);
   VertexPtr consensus = ConvertBdd(common.vertex, common.complement, bdd_graph,
                                    limit_order, ites);
-  if (limit_order == 0) {  // Cut-off on the product order.
+  // Unity modules may happen with minimal cut sets.
+  bool may_be_unity = ite->module() && !kSettings_.prime_implicants();
+  assert(!(may_be_unity && ite->coherent()) &&
+         "Only non-coherent modules through PI.");
+  if (limit_order == 0 && !may_be_unity) {  // Cut-off on the product order.
     if (consensus->terminal())
       return consensus;
     return kEmpty_;
   }
-  int sublimit = limit_order - 1;  // Assumes non-Unity element.
-  if (ite->module() && !kSettings_.prime_implicants()) {
-    assert(!ite->coherent() && "Only non-coherent modules through PI.");
-    sublimit += 1;  // Unity modules may happen with minimal cut sets.
-  }
+  int sublimit = may_be_unity ? limit_order : limit_order - 1;
   VertexPtr high =
       ConvertBdd(ite->high(), complement, bdd_graph, sublimit, ites);
   VertexPtr low = ConvertBdd(ite->low(), ite->complement_edge() ^ complement,
-- 
2.43.0


From 6bf5b28c04291dafd1bb2ca331de37fa23e816e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 13/91] fix: apply the product order limit to single-variable
 ZBDDs

---
 src/zbdd.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zbdd.cc b/src/zbdd.cc
index f619da2..7434bfe 100644
--- a/src/zbdd.cc
+++ b/src/zbdd.cc
@@ -78,7 +78,8 @@ Zbdd::Zbdd(const Pdag* graph, const Settings& settings) noexcept
       root_ = kBase_;
     } else {
       const Variable& var = top_gate.args<Variable>().begin()->second;
-      root_ = FindOrAddVertex(var.index(), kBase_, kEmpty_, var.order());
+      root_ = Prune(FindOrAddVertex(var.index(), kBase_, kEmpty_, var.order()),
+                    kSettings_.limit_order());
     }
   }
   CHECK_ZBDD(true);
-- 
2.43.0


From 70d1ae9f684aae91a10952ac649f4d8b794f02db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 14/91] fix: estimate gamma and beta deviate intervals with
 quantiles

---
 src/expression/random_deviate.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index fb5e810..88bae50 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -132,10 +132,8 @@ void GammaDeviate::Validate() const {
 }
 
 Interval GammaDeviate::interval() noexcept {
-  using boost::math::gamma_q;
-  double k_max = k_.value();
   double high_estimate =
-      theta_.value() * std::pow(gamma_q(k_max, gamma_q(k_max, 0) - 0.99), -1);
+      theta_.value() * boost::math::gamma_p_inv(k_.value(), 0.99);
   return Interval::left_open(0, high_estimate);
 }
 
@@ -161,7 +159,7 @@ void BetaDeviate::Validate() const {
 
 Interval BetaDeviate::interval() noexcept {
   double high_estimate =
-      std::pow(boost::math::ibeta(alpha_.value(), beta_.value(), 0.99), -1);
+      boost::math::ibeta_inv(alpha_.value(), beta_.value(), 0.99);
   return Interval::closed(0, high_estimate);
 }
 
-- 
2.43.0


From 4e6659463fa9de181a35e10a5dab8957f145256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 15/91] fix: count a constant probability on the SIL bound only
 once

---
 src/probability_analysis.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/probability_analysis.cc b/src/probability_analysis.cc
index ecd3708..f72cc63 100644
--- a/src/probability_analysis.cc
+++ b/src/probability_analysis.cc
@@ -102,6 +102,8 @@ void PartitionY(const Points& points, T* y_fractions) {
       std::swap(p_1, p_0);
     }
     auto fraction = [&k, &p_1, &p_0, &t_1, &t_0](double b_0, double b_1) {
+      if (k == 0 && p_0 == b_0 && b_0 > 0)
+        return 0.0;  // The constant on the bound belongs to the lower bucket.
       if (p_0 <= b_0 && b_1 <= p_1)  // Sub-range.
         return (b_1 - b_0) / k;
       if (b_0 <= p_0 && p_1 <= b_1)  // Super-range.
-- 
2.43.0


From 2d0621418616ff5142603c972879fbe6bf8cfc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 16/91] fix: tolerate rounding errors in availability of the
 complete periodic test

---
 src/expression/exponential.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/expression/exponential.cc b/src/expression/exponential.cc
index bbe1d0a..fc91700 100644
--- a/src/expression/exponential.cc
+++ b/src/expression/exponential.cc
@@ -22,6 +22,8 @@
 
 #include <cmath>
 
+#include <algorithm>
+
 #include "src/error.h"
 
 namespace scram::mef {
@@ -240,9 +242,10 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
     p_fail = p_repair * p_mu_lambda(p_mu, p_lambda, t) +
              (1 - sigma) * p_fail_transient;
     p_repair = (1 - p_mu) * p_repair + sigma * p_fail_transient;
-    p_available =
+    p_available = std::max(  // The rounding error may result in negative.
+        0.0,
         1 - p_fail - p_repair -
-        (available ? 0 : p_available * (1 - gamma) * (1 - p_lambda_test));
+            (available ? 0 : p_available * (1 - gamma) * (1 - p_lambda_test)));
     assert(p_repair >= 0 && p_repair <= 1);
     assert(p_fail >= 0 && p_fail <= 1);
     assert(p_available >= 0);
@@ -252,7 +255,7 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
     p_fail = p_available * p_lambda + p_fail +
              p_repair * p_mu_lambda(p_mu, p_lambda, t);
     p_repair = p_repair * (1 - p_mu);
-    p_available = 1 - p_fail - p_repair;
+    p_available = std::max(0.0, 1 - p_fail - p_repair);
     assert(p_repair >= 0 && p_repair <= 1);
     assert(p_fail >= 0 && p_fail <= 1);
     assert(p_available >= 0);
-- 
2.43.0


From 0c2d47bedbcd8efd4ce814a67ac12ba7dae2d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 17/91] fix: keep periodic test probabilities within bounds at
 extreme rates

---
 src/expression/exponential.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/expression/exponential.cc b/src/expression/exponential.cc
index fc91700..3ea634f 100644
--- a/src/expression/exponential.cc
+++ b/src/expression/exponential.cc
@@ -54,8 +54,9 @@ double p_exp(double lambda, double time) {
 /// @returns The probability that the second process has occurred.
 double p_exp(double p_mu, double p_lambda, double mu, double lambda,
              double time) {
-  return lambda == mu ? p_lambda - (1 - p_lambda) * lambda * time
-                      : (lambda * p_mu - mu * p_lambda) / (lambda - mu);
+  double p = lambda == mu ? p_lambda - (1 - p_lambda) * lambda * time
+                          : (lambda * p_mu - mu * p_lambda) / (lambda - mu);
+  return std::max(0.0, p);  // The cancellation error may result in negative.
 }
 
 }  // namespace
@@ -201,7 +202,8 @@ double PeriodicTest::InstantTest::Compute(double lambda, double mu, double tau,
   int num_periods = delta / tau;
   double fraction = carry(p_exp(lambda, tau), p_exp(mu, tau), tau);
   double compound = std::pow(fraction, num_periods);  // Geometric progression.
-  prob = prob * compound + p_exp(lambda, tau) * (compound - 1) / (fraction - 1);
+  double sum = fraction == 1 ? num_periods : (compound - 1) / (fraction - 1);
+  prob = prob * compound + p_exp(lambda, tau) * sum;
 
   double time_after_test = delta - num_periods * tau;
   return p_period(p_exp(lambda, time_after_test), p_exp(mu, time_after_test),
@@ -239,9 +241,11 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
                     double t, bool available = true) {
     double p_fail_transient =
         p_fail + p_available * (gamma + (1 - gamma) * p_lambda_test);
-    p_fail = p_repair * p_mu_lambda(p_mu, p_lambda, t) +
-             (1 - sigma) * p_fail_transient;
-    p_repair = (1 - p_mu) * p_repair + sigma * p_fail_transient;
+    p_fail = std::min(  // The rounding error may result in more than 1.
+        1.0, p_repair * p_mu_lambda(p_mu, p_lambda, t) +
+                 (1 - sigma) * p_fail_transient);
+    p_repair =
+        std::min(1.0, (1 - p_mu) * p_repair + sigma * p_fail_transient);
     p_available = std::max(  // The rounding error may result in negative.
         0.0,
         1 - p_fail - p_repair -
@@ -252,8 +256,8 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
   };
   // Time after test.
   auto p_period = [&](double p_lambda, double p_mu, double t) {
-    p_fail = p_available * p_lambda + p_fail +
-             p_repair * p_mu_lambda(p_mu, p_lambda, t);
+    p_fail = std::min(1.0, p_available * p_lambda + p_fail +
+                               p_repair * p_mu_lambda(p_mu, p_lambda, t));
     p_repair = p_repair * (1 - p_mu);
     p_available = std::max(0.0, 1 - p_fail - p_repair);
     assert(p_repair >= 0 && p_repair <= 1);
-- 
2.43.0


From d4646e7776b1a374883ab223f65db198b2e76916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 18/91] fix: do not overflow the number of test periods

---
 src/expression/exponential.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expression/exponential.cc b/src/expression/exponential.cc
index 3ea634f..7a9a824 100644
--- a/src/expression/exponential.cc
+++ b/src/expression/exponential.cc
@@ -168,7 +168,7 @@ double PeriodicTest::InstantRepair::Compute(double lambda, double tau,
   if (time <= theta)  // No test has been performed.
     return p_exp(lambda, time);
   double delta = time - theta;
-  double time_after_test = delta - static_cast<int>(delta / tau) * tau;
+  double time_after_test = delta - std::floor(delta / tau) * tau;
   return p_exp(lambda, time_after_test ? time_after_test : tau);
 }
 
@@ -199,7 +199,7 @@ double PeriodicTest::InstantTest::Compute(double lambda, double mu, double tau,
   };
 
   double delta = time - theta;
-  int num_periods = delta / tau;
+  double num_periods = std::floor(delta / tau);
   double fraction = carry(p_exp(lambda, tau), p_exp(mu, tau), tau);
   double compound = std::pow(fraction, num_periods);  // Geometric progression.
   double sum = fraction == 1 ? num_periods : (compound - 1) / (fraction - 1);
-- 
2.43.0


From 6c9ffc6dcf31f425304a846f341ce42a75c751ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:04 +0000
Subject: [PATCH 19/91] fix: validate argument expressions before their users

---
 src/initializer.cc | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/initializer.cc b/src/initializer.cc
index 8ec668b..76e60cd 100644
--- a/src/initializer.cc
+++ b/src/initializer.cc
@@ -23,6 +23,7 @@
 #include <functional>  // std::mem_fn
 #include <sstream>
 #include <type_traits>
+#include <unordered_set>
 
 #include <boost/exception/errinfo_at_line.hpp>
 #include <boost/exception/errinfo_file_name.hpp>
@@ -1800,15 +1801,31 @@ void Initializer::ValidateExpressions() {
   cycle::CheckCycle<Parameter>(model_->table<Parameter>(), "parameter");
 
   // Validate expressions.
-  for (const std::pair<Expression*, xml::Element>& expression : expressions_) {
+  // The arguments go first
+  // because the validation evaluates the argument expressions.
+  std::unordered_map<Expression*, const xml::Element*> elements;
+  for (const std::pair<Expression*, xml::Element>& expression : expressions_)
+    elements.emplace(expression.first, &expression.second);
+  std::unordered_set<Expression*> visited;
+  auto validate = [&elements, &visited](Expression* expression,
+                                        const auto& self) -> void {
+    if (!visited.insert(expression).second)
+      return;
+    for (Expression* arg : expression->args())
+      self(arg, self);
+    auto it = elements.find(expression);
+    if (it == elements.end())
+      return;
     try {
-      expression.first->Validate();
+      expression->Validate();
     } catch (ValidityError& err) {
-      err << boost::errinfo_file_name(expression.second.filename())
-          << boost::errinfo_at_line(expression.second.line());
+      err << boost::errinfo_file_name(it->second->filename())
+          << boost::errinfo_at_line(it->second->line());
       throw;
     }
-  }
+  };
+  for (const std::pair<Expression*, xml::Element>& expression : expressions_)
+    validate(expression.first, validate);
 
   // Validate CCF groups.
   for (const CcfGroup& group : model_->ccf_groups())
-- 
2.43.0


From b7878a50cc311d58a77e0dc1e95950083f0dd447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 20/91] fix: compute value domains of non-monotonic numerical
 expressions

---
 src/expression/numerical.cc | 63 +++++++++++++++++++++++++++++++++++++
 src/expression/numerical.h  | 15 +++++++++
 2 files changed, 78 insertions(+)

diff --git a/src/expression/numerical.cc b/src/expression/numerical.cc
index 7bd94f4..7ac2400 100644
--- a/src/expression/numerical.cc
+++ b/src/expression/numerical.cc
@@ -20,6 +20,11 @@
 
 #include "numerical.h"
 
+#include <cmath>
+
+#include <algorithm>
+#include <limits>
+
 #include "src/error.h"
 
 namespace scram::mef {
@@ -65,6 +70,64 @@ void Pow::Validate() const {
                     " positive exponent is required."));
   }
 }
+
+template <>
+Interval Abs::interval() noexcept {
+  Interval arg = args().front()->interval();
+  auto [min, max] = std::minmax({std::abs(arg.lower()), std::abs(arg.upper())});
+  return Interval::closed(Contains(arg, 0) ? 0 : min, max);
+}
+
+template <>
+Interval Cosh::interval() noexcept {
+  Interval arg = args().front()->interval();
+  auto [min, max] = std::minmax({std::cosh(arg.lower()),
+                                 std::cosh(arg.upper())});
+  return Interval::closed(Contains(arg, 0) ? 1 : min, max);
+}
+
+template <>
+Interval Tan::interval() noexcept {
+  Interval arg = args().front()->interval();
+  // The index of the continuous branch of the function.
+  auto branch = [](double x) {
+    return std::floor(x / ConstantExpression::kPi.value() + 0.5);
+  };
+  if (branch(arg.lower()) != branch(arg.upper())) {
+    double inf = std::numeric_limits<double>::infinity();
+    return Interval::closed(-inf, inf);
+  }
+  return Interval::closed(std::tan(arg.lower()), std::tan(arg.upper()));
+}
+
+template <>
+Interval Mod::interval() noexcept {
+  Interval one = args().front()->interval();
+  Interval two = args().back()->interval();
+  int low = one.lower();
+  int high = one.upper();
+  int min = two.lower();
+  int max = two.upper();
+  if (low == high && min == max && max)
+    return Interval::closed(low % max, low % max);
+  // The remainder has the sign of the dividend.
+  double limit = std::max(std::abs(two.lower()), std::abs(two.upper())) - 1;
+  return Interval::closed(low < 0 ? std::max<double>(low, -limit) : 0,
+                          high > 0 ? std::min<double>(high, limit) : 0);
+}
+
+template <>
+Interval Pow::interval() noexcept {
+  Interval base = args().front()->interval();
+  Interval exponent = args().back()->interval();
+  auto [min, max] = std::minmax({std::pow(base.lower(), exponent.lower()),
+                                 std::pow(base.lower(), exponent.upper()),
+                                 std::pow(base.upper(), exponent.lower()),
+                                 std::pow(base.upper(), exponent.upper())});
+  if (base.lower() < 0 && base.upper() > 0)  // Passes through 0.
+    return Interval::closed(std::min(min, 0.0), std::max(max, 0.0));
+  return Interval::closed(min, max);
+}
 /// @endcond
 
 Mean::Mean(std::vector<Expression*> args) : ExpressionFormula(std::move(args)) {
diff --git a/src/expression/numerical.h b/src/expression/numerical.h
index 786cba7..7ef9e9c 100644
--- a/src/expression/numerical.h
+++ b/src/expression/numerical.h
@@ -185,6 +185,21 @@ template <>
 inline Interval Sin::interval() noexcept {
   return Interval::closed(-1, 1);
 }
+
+template <>
+Interval Abs::interval() noexcept;
+
+template <>
+Interval Cosh::interval() noexcept;
+
+template <>
+Interval Tan::interval() noexcept;
+
+template <>
+Interval Mod::interval() noexcept;
+
+template <>
+Interval Pow::interval() noexcept;
 /// @}
 /// @endcond
 
-- 
2.43.0


From 82b29b0678beeb2a66ab5b14a4fc1b16c1c5148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 21/91] fix: compute value domains of non-monotonic Boolean
 expressions

---
 src/expression/boolean.h | 74 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 74 insertions(+)

diff --git a/src/expression/boolean.h b/src/expression/boolean.h
index fb3e81f..f721bd3 100644
--- a/src/expression/boolean.h
+++ b/src/expression/boolean.h
@@ -20,7 +20,9 @@
 
 #pragma once
 
+#include <algorithm>
 #include <functional>
+#include <vector>
 
 #include "src/expression.h"
 
@@ -36,4 +38,76 @@ using Gt = NaryExpression<std::greater<>, 2>;  ///< (>) test.
 using Leq = NaryExpression<std::less_equal<>, 2>;  ///< (<=) test.
 using Geq = NaryExpression<std::greater_equal<>, 2>;  ///< (>=) test.
 
+/// @cond Doxygen_With_Smart_Using_Declaration
+/// Interval specializations for the functions with non-monotonic results.
+/// @{
+namespace detail {
+
+/// @param[in] arg  The argument of a logical function.
+///
+/// @returns The domain of the truth values of the argument.
+inline Interval TruthInterval(Expression* arg) noexcept {
+  Interval interval = arg->interval();
+  bool constant = interval.lower() == interval.upper();
+  return Interval::closed(!Contains(interval, 0),
+                          !constant || interval.lower() != 0);
+}
+
+/// @param[in] args  The two arguments to compare for equality.
+///
+/// @returns The domain of the equality test result.
+inline Interval EqualityInterval(const std::vector<Expression*>& args) noexcept {
+  Interval one = args.front()->interval();
+  Interval two = args.back()->interval();
+  if (one.upper() < two.lower() || two.upper() < one.lower())
+    return Interval::closed(0, 0);
+  bool constant = one.lower() == one.upper() && two.lower() == two.upper();
+  return Interval::closed(constant, 1);
+}
+
+}  // namespace detail
+
+template <>
+inline Interval Not::interval() noexcept {
+  Interval arg = detail::TruthInterval(args().front());
+  return Interval::closed(1 - arg.upper(), 1 - arg.lower());
+}
+
+template <>
+inline Interval And::interval() noexcept {
+  double min = 1;
+  double max = 1;
+  for (Expression* arg : args()) {
+    Interval interval = detail::TruthInterval(arg);
+    min = std::min(min, interval.lower());
+    max = std::min(max, interval.upper());
+  }
+  return Interval::closed(min, max);
+}
+
+template <>
+inline Interval Or::interval() noexcept {
+  double min = 0;
+  double max = 0;
+  for (Expression* arg : args()) {
+    Interval interval = detail::TruthInterval(arg);
+    min = std::max(min, interval.lower());
+    max = std::max(max, interval.upper());
+  }
+  return Interval::closed(min, max);
+}
+
+template <>
+inline Interval Eq::interval() noexcept {
+  return detail::EqualityInterval(args());
+}
+
+template <>
+inline Interval Df::interval() noexcept {
+  Interval equal = detail::EqualityInterval(args());
+  return Interval::closed(1 - equal.upper(), 1 - equal.lower());
+}
+/// @}
+/// @endcond
+
 }  // namespace scram::mef
-- 
2.43.0


From e5c7353c0f4c127a4f2206f642392f145618d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:05 +0000
Subject: [PATCH 22/91] fix: do not throw from deviate interval estimates at
 extreme parameters

---
 src/expression/random_deviate.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index 88bae50..b7869ee 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -38,6 +38,18 @@ namespace scram::mef {
 
 std::mt19937 RandomDeviate::rng_;
 
+namespace {
+
+namespace policies = boost::math::policies;
+
+/// The quantile estimates must not throw upon extreme parameters.
+const auto kQuantilePolicy = policies::make_policy(
+    policies::domain_error<policies::ignore_error>(),
+    policies::overflow_error<policies::ignore_error>(),
+    policies::evaluation_error<policies::ignore_error>());
+
+}  // namespace
+
 UniformDeviate::UniformDeviate(Expression* min, Expression* max)
     : RandomDeviate({min, max}), min_(*min), max_(*max) {}
 
@@ -133,7 +145,7 @@ void GammaDeviate::Validate() const {
 
 Interval GammaDeviate::interval() noexcept {
   double high_estimate =
-      theta_.value() * boost::math::gamma_p_inv(k_.value(), 0.99);
+      theta_.value() * boost::math::gamma_p_inv(k_.value(), 0.99, kQuantilePolicy);
   return Interval::left_open(0, high_estimate);
 }
 
@@ -159,7 +171,8 @@ void BetaDeviate::Validate() const {
 
 Interval BetaDeviate::interval() noexcept {
   double high_estimate =
-      boost::math::ibeta_inv(alpha_.value(), beta_.value(), 0.99);
+      boost::math::ibeta_inv(alpha_.value(), beta_.value(), 0.99,
+                             kQuantilePolicy);
   return Interval::closed(0, high_estimate);
 }
 
-- 
2.43.0


From 9a4808ebc105799a0c1c8fde5940aeaaefdffecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:05 +0000
Subject: [PATCH 23/91] fix: avoid integer overflow in the modulo expression

---
 src/expression/numerical.cc | 26 ++++++++++++++------------
 src/expression/numerical.h  | 10 +++++++++-
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/expression/numerical.cc b/src/expression/numerical.cc
index 7ac2400..e78a4c1 100644
--- a/src/expression/numerical.cc
+++ b/src/expression/numerical.cc
@@ -45,12 +45,12 @@ template <>
 void Mod::Validate() const {
   assert(args().size() == 2);
   auto* arg_two = args().back();
-  int arg_value = arg_two->value();
+  double arg_value = std::trunc(arg_two->value());
   if (arg_value == 0)
     SCRAM_THROW(DomainError("Modulo second operand must not be 0."));
   Interval interval = arg_two->interval();
-  int high = interval.upper();
-  int low = interval.lower();
+  double high = std::trunc(interval.upper());
+  double low = std::trunc(interval.lower());
   if (high == 0 || low == 0 || (low < 0 && 0 < high)) {
     SCRAM_THROW(
         DomainError("Modulo second operand sample must not contain 0."));
@@ -104,16 +104,18 @@ template <>
 Interval Mod::interval() noexcept {
   Interval one = args().front()->interval();
   Interval two = args().back()->interval();
-  int low = one.lower();
-  int high = one.upper();
-  int min = two.lower();
-  int max = two.upper();
-  if (low == high && min == max && max)
-    return Interval::closed(low % max, low % max);
+  double low = std::trunc(one.lower());
+  double high = std::trunc(one.upper());
+  double min = std::trunc(two.lower());
+  double max = std::trunc(two.upper());
+  if (low == high && min == max) {
+    double value = IntegerModulo(low, max);
+    return Interval::closed(value, value);
+  }
   // The remainder has the sign of the dividend.
-  double limit = std::max(std::abs(two.lower()), std::abs(two.upper())) - 1;
-  return Interval::closed(low < 0 ? std::max<double>(low, -limit) : 0,
-                          high > 0 ? std::min<double>(high, limit) : 0);
+  double limit = std::max(std::abs(min), std::abs(max)) - 1;
+  return Interval::closed(low < 0 ? std::max(low, -limit) : 0,
+                          high > 0 ? std::min(high, limit) : 0);
 }
 
 template <>
diff --git a/src/expression/numerical.h b/src/expression/numerical.h
index 7ef9e9c..ba246d9 100644
--- a/src/expression/numerical.h
+++ b/src/expression/numerical.h
@@ -55,6 +55,14 @@ struct Bifunctor {  // Nasty abuse of terminology :(. Haskellers will hate this.
 template <double (*F)(double, double)>
 using BifunctorExpression = NaryExpression<Bifunctor<F>, 2>;
 
+/// @param[in] dividend  The number to be truncated and divided.
+/// @param[in] divisor  The number to be truncated and divided by.
+///
+/// @returns The remainder of the integer division.
+inline double IntegerModulo(double dividend, double divisor) {
+  return std::fmod(std::trunc(dividend), std::trunc(divisor));
+}
+
 using Neg = NaryExpression<std::negate<>, 1>;  ///< Negation.
 using Add = NaryExpression<std::plus<>, -1>;  ///< Sum operation.
 using Sub = NaryExpression<std::minus<>, -1>;  ///< Subtraction from the first.
@@ -73,7 +81,7 @@ using Tanh = FunctorExpression<&std::tanh>;  ///< Hyperbolic tangent.
 using Exp = FunctorExpression<&std::exp>;  ///< Exponential.
 using Log = FunctorExpression<&std::log>;  ///< Natural logarithm.
 using Log10 = FunctorExpression<&std::log10>;  ///< Decimal logarithm.
-using Mod = NaryExpression<std::modulus<int>, 2>;  ///< Modulo (%) operation.
+using Mod = BifunctorExpression<&IntegerModulo>;  ///< Modulo (%) operation.
 using Pow = BifunctorExpression<&std::pow>;  ///< Base raised to a power.
 using Sqrt = FunctorExpression<&std::sqrt>;  ///< Square root.
 using Ceil = FunctorExpression<&std::ceil>;  ///< Nearest (>=) integer.
-- 
2.43.0


From 46ef25ec9e000f510abc330360b1fa4a3cd632d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 24/91] fix: a sequence path without collected formulas is
 unconditional

Such paths were dropped from the disjunction of the sequence
unless all of its paths were of that kind.
---
 src/event_tree_analysis.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/event_tree_analysis.cc b/src/event_tree_analysis.cc
index 6bd06a6..d6237da 100644
--- a/src/event_tree_analysis.cc
+++ b/src/event_tree_analysis.cc
@@ -113,7 +113,10 @@ void EventTreeAnalysis::Analyze() noexcept {
     auto gate = std::make_unique<mef::Gate>("__" + sequence.first->name());
     std::vector<mef::FormulaPtr> gate_formulas;
     std::vector<mef::Expression*> arg_expressions;
+    bool is_unconditional = false;  // Some path has collected nothing.
     for (PathCollector& path_collector : sequence.second) {
+      is_unconditional |=
+          path_collector.formulas.empty() && path_collector.expressions.empty();
       if (path_collector.formulas.size() == 1) {
         gate_formulas.push_back(std::move(path_collector.formulas.front()));
       } else if (path_collector.formulas.size() > 1) {
@@ -134,6 +137,8 @@ void EventTreeAnalysis::Analyze() noexcept {
     }
     assert(gate_formulas.empty() || arg_expressions.empty());
     bool is_expression_only = !arg_expressions.empty();
+    if (is_unconditional)
+      gate_formulas.clear();  // The disjunction with the true path.
     if (gate_formulas.size() == 1) {
       gate->formula(std::move(gate_formulas.front()));
     } else if (gate_formulas.size() > 1) {
-- 
2.43.0


From 13e6de938b38f34ff83cb885cde7b953784cfc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 25/91] fix: report event and product probabilities of the
 analysed phase

The reporter evaluated them after the analysis,
when the mission time of the alignment phase was already restored.
---
 gui/importancetablemodel.cpp |  2 +-
 src/fault_tree_analysis.cc   | 15 +++++++++++----
 src/fault_tree_analysis.h    | 20 ++++++++++++++------
 src/importance_analysis.cc   |  2 +-
 src/importance_analysis.h    |  1 +
 src/reporter.cc              |  4 ++--
 6 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/gui/importancetablemodel.cpp b/gui/importancetablemodel.cpp
index 79a0c47..5fbaddc 100644
--- a/gui/importancetablemodel.cpp
+++ b/gui/importancetablemodel.cpp
@@ -92,7 +92,7 @@ QVariant ImportanceTableModel::data(const QModelIndex &index, int role) const
     case 1:
         return record.factors.occurrence;
     case 2:
-        return record.event.p();
+        return record.p;
     case 3:
         return record.factors.mif;
     case 4:
diff --git a/src/fault_tree_analysis.cc b/src/fault_tree_analysis.cc
index 3af8499..c99fc0d 100644
--- a/src/fault_tree_analysis.cc
+++ b/src/fault_tree_analysis.cc
@@ -85,7 +85,10 @@ void Print(const ProductContainer& products) {
 
 ProductContainer::ProductContainer(const Zbdd& products,
                                    const Pdag& graph) noexcept
-    : products_(products), graph_(graph), size_(0) {
+    : products_(products),
+      graph_(graph),
+      p_vars_(graph.basic_events().size()),
+      size_(0) {
   Pdag::IndexMap<bool> filter(graph_.basic_events().size());
   for (const std::vector<int>& product : products_) {
     int order_index = product.empty() ? 0 : product.size() - 1;
@@ -99,15 +102,19 @@ ProductContainer::ProductContainer(const Zbdd& products,
       if (filter[i])
         continue;
       filter[i] = true;
-      product_events_.insert(graph_.basic_events()[i]);
+      const mef::BasicEvent* event = graph_.basic_events()[i];
+      product_events_.insert(event);
+      if (event->HasExpression())
+        p_vars_[i] = event->p();
     }
   }
 }
 
 double Product::p() const {
   double p = 1;
-  for (const Literal& literal : *this) {
-    p *= literal.complement ? 1 - literal.event.p() : literal.event.p();
+  for (int index : data_) {
+    double p_var = p_vars_[std::abs(index)];
+    p *= index < 0 ? 1 - p_var : p_var;
   }
   return p;
 }
diff --git a/src/fault_tree_analysis.h b/src/fault_tree_analysis.h
index a561ef5..8469c4c 100644
--- a/src/fault_tree_analysis.h
+++ b/src/fault_tree_analysis.h
@@ -68,8 +68,10 @@ class Product {
   ///
   /// @param[in] data  The underlying set.
   /// @param[in] graph  The graph with indices to events map.
-  Product(const std::vector<int>& data, const Pdag& graph) noexcept
-      : data_(data), graph_(graph) {}
+  /// @param[in] p_vars  The probabilities of events by index.
+  Product(const std::vector<int>& data, const Pdag& graph,
+          const Pdag::IndexMap<double>& p_vars) noexcept
+      : data_(data), graph_(graph), p_vars_(p_vars) {}
 
   /// @returns true for unity product with no literals.
   bool empty() const { return data_.empty(); }
@@ -82,7 +84,8 @@ class Product {
   /// @note An empty set indicates the Base/Unity set.
   int order() const { return empty() ? 1 : size(); }
 
-  /// @returns The product of the literal probabilities.
+  /// @returns The product of the literal probabilities
+  ///          as of the time of the analysis.
   ///
   /// @pre Events are initialized with expressions.
   double p() const;
@@ -102,6 +105,7 @@ class Product {
  private:
   const std::vector<int>& data_;  ///< The collection of event indices.
   const Pdag& graph_;  ///< The host graph.
+  const Pdag::IndexMap<double>& p_vars_;  ///< The probabilities of events.
 };
 
 /// A container of analysis result products with Literals.
@@ -113,9 +117,10 @@ class ProductContainer {
     ///
     /// @returns The wrapped product of Literals.
     Product operator()(const std::vector<int>& product) const {
-      return Product(product, graph);
+      return Product(product, graph, p_vars);
     }
     const Pdag& graph;  ///< The host graph.
+    const Pdag::IndexMap<double>& p_vars;  ///< The probabilities of events.
   };
 
  public:
@@ -134,11 +139,11 @@ class ProductContainer {
   /// @{
   auto begin() const {
     return boost::make_transform_iterator(products_.begin(),
-                                          ProductExtractor{graph_});
+                                          ProductExtractor{graph_, p_vars_});
   }
   auto end() const {
     return boost::make_transform_iterator(products_.end(),
-                                          ProductExtractor{graph_});
+                                          ProductExtractor{graph_, p_vars_});
   }
   /// @}
 
@@ -154,6 +159,9 @@ class ProductContainer {
  private:
   const Zbdd& products_;  ///< Container of analysis results.
   const Pdag& graph_;  ///< The analysis graph.
+  /// The event probabilities at the time of the analysis;
+  /// the model may change afterwards (e.g., mission time in phases).
+  Pdag::IndexMap<double> p_vars_;
   int size_;  ///< The number of products.
   std::vector<int> distribution_;  ///< Product counts by order.
   /// The set of events in the resultant products.
diff --git a/src/importance_analysis.cc b/src/importance_analysis.cc
index 17abb4a..864a4cf 100644
--- a/src/importance_analysis.cc
+++ b/src/importance_analysis.cc
@@ -55,7 +55,7 @@ void ImportanceAnalysis::Analyze() noexcept {
       if (p_total != p_var * imp.mif)
         imp.rrw = p_total / (p_total - p_var * imp.mif);
     }
-    importance_.push_back({event, imp});
+    importance_.push_back({event, imp, p_var});
   }
   LOG(DEBUG3) << "Calculated importance factors in " << DUR(imp_time);
   Analysis::AddAnalysisTime(DUR(imp_time));
diff --git a/src/importance_analysis.h b/src/importance_analysis.h
index 86e9df2..1363e98 100644
--- a/src/importance_analysis.h
+++ b/src/importance_analysis.h
@@ -47,6 +47,7 @@ struct ImportanceFactors {
 struct ImportanceRecord {
   const mef::BasicEvent& event;  ///< The event occurring in products.
   const ImportanceFactors factors;  ///< The importance factors of the event.
+  double p;  ///< The event probability at the time of the analysis.
 };
 
 class Zbdd;  // The container of products to be queries for important events.
diff --git a/src/reporter.cc b/src/reporter.cc
index e442b8d..23616cc 100644
--- a/src/reporter.cc
+++ b/src/reporter.cc
@@ -479,9 +479,9 @@ void Reporter::ReportResults(
   for (const core::ImportanceRecord& entry : importance_analysis.importance()) {
     const core::ImportanceFactors& factors = entry.factors;
     const mef::BasicEvent& event = entry.event;
-    auto add_data = [&event, &factors](xml::StreamElement* element) {
+    auto add_data = [&entry, &factors](xml::StreamElement* element) {
       element->SetAttribute("occurrence", factors.occurrence)
-          .SetAttribute("probability", event.p())
+          .SetAttribute("probability", entry.p)
           .SetAttribute("MIF", factors.mif)
           .SetAttribute("CIF", factors.cif)
           .SetAttribute("DIF", factors.dif)
-- 
2.43.0


From 420fc1af5e92240b0aa5f03088e45107d5bbbeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:32 +0000
Subject: [PATCH 26/91] fix: restore house events set repeatedly in a phase in
 reverse order

The oldest saved state must be restored last;
otherwise, the phase's setting leaks into the following phases.
---
 src/risk_analysis.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/risk_analysis.cc b/src/risk_analysis.cc
index 114f29c..ba1d679 100644
--- a/src/risk_analysis.cc
+++ b/src/risk_analysis.cc
@@ -58,8 +58,9 @@ void RiskAnalysis::RunAnalysis(std::optional<Context> context) noexcept {
         model_->mission_time().value(init_time);
         Analysis::settings().mission_time(init_time);
 
-        for (const std::pair<mef::HouseEvent*, bool>& entry : house_events)
-          entry.first->state(entry.second);
+        // In reverse because an event may be set more than once.
+        for (auto it = house_events.rbegin(); it != house_events.rend(); ++it)
+          it->first->state(it->second);
       });
 
   if (context) {
-- 
2.43.0


From bec0cff969cd67ea3f2fe457b77747409778fd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 27/91] fix: apply substitutions to trivial graphs with MOCUS

The trivial case skipped the analysis of the resulting ZBDD.
---
 src/mocus.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mocus.cc b/src/mocus.cc
index 9c43e8c..e5f68c7 100644
--- a/src/mocus.cc
+++ b/src/mocus.cc
@@ -40,6 +40,7 @@ void Mocus::Analyze(const Pdag*) noexcept {
   if (graph_->IsTrivial()) {
     LOG(DEBUG2) << "The PDAG is trivial!";
     zbdd_ = std::make_unique<Zbdd>(graph_, kSettings_);
+    zbdd_->Analyze(graph_);
     return;
   }
 
-- 
2.43.0


From 71a87911d168c435e3842b5092189b852ccea1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 28/91] fix: Make CCF group members referenceable by path

The members defined by a CCF group were registered in the model
but not in the path table of basic events, so that they could be referenced
neither from their own private scope nor by their full path.
---
 src/initializer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/initializer.cc b/src/initializer.cc
index 76e60cd..e213ff4 100644
--- a/src/initializer.cc
+++ b/src/initializer.cc
@@ -1272,7 +1272,9 @@ void Initializer::ProcessCcfMembers(const xml::Element& members_node,
       err << boost::errinfo_at_line(event_node.line());
       throw;
     }
+    BasicEvent* member = basic_event.get();
     Register(std::move(basic_event), event_node);
+    path_basic_events_.insert(member);
   }
 }
 
-- 
2.43.0


From cc37d8f5b0bbe8c4a40a23f0808d281bd81d922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 29/91] fix: Tolerate rounding in the total probability

The sum of the probabilities of all the paths to a sequence may exceed 1
by a rounding error, which aborted the analysis.
---
 src/probability_analysis.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/probability_analysis.cc b/src/probability_analysis.cc
index f72cc63..960551e 100644
--- a/src/probability_analysis.cc
+++ b/src/probability_analysis.cc
@@ -21,6 +21,8 @@
 
 #include "probability_analysis.h"
 
+#include <algorithm>
+
 #include <boost/range/algorithm/find_if.hpp>
 
 #include "event.h"
@@ -40,7 +42,9 @@ void ProbabilityAnalysis::Analyze() noexcept {
   LOG(DEBUG3) << "Calculating probabilities...";
   // Get the total probability.
   p_total_ = this->CalculateTotalProbability();
-  assert(p_total_ >= 0 && p_total_ <= 1 && "The total probability is invalid.");
+  assert(p_total_ > -1e-9 && p_total_ < 1 + 1e-9 &&
+         "The total probability is invalid.");
+  p_total_ = std::clamp(p_total_, 0.0, 1.0);  // Floating-point rounding.
   if (p_total_ == 1 &&
       Analysis::settings().approximation() != Approximation::kNone) {
     Analysis::AddWarning("Probability may have been adjusted to 1.");
-- 
2.43.0


From ec8efc647356af255961cb6e3f4567b718091812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 30/91] fix: Reject event-tree sequences without a valid
 probability

The expressions collected by the paths of a sequence are combined without
any validation, so that a valid-looking event tree with a sum outside of
[0, 1] aborted the probability analysis instead of a diagnostic.
---
 src/event_tree_analysis.cc | 26 +++++++++++++++++++++++++-
 src/event_tree_analysis.h  |  5 ++++-
 src/risk_analysis.cc       |  4 ++--
 src/risk_analysis.h        |  6 ++++--
 4 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/event_tree_analysis.cc b/src/event_tree_analysis.cc
index d6237da..65cf56c 100644
--- a/src/event_tree_analysis.cc
+++ b/src/event_tree_analysis.cc
@@ -93,7 +93,29 @@ EventTreeAnalysis::PathCollector::PathCollector(const PathCollector& other)
     formulas.push_back(std::make_unique<mef::Formula>(*formula));
 }
 
-void EventTreeAnalysis::Analyze() noexcept {
+namespace {
+
+/// Ensures that the collected expressions yield the probability of a sequence.
+///
+/// @param[in] expression  The sum of the path expressions.
+/// @param[in] sequence  The sequence for error messages.
+///
+/// @throws DomainError  The value is not probability (beyond rounding).
+void EnsureSequenceProbability(mef::Expression& expression,
+                               const mef::Sequence& sequence) {
+  double value = expression.value();
+  if (value >= 0 && value < 1 + 1e-9)
+    return;
+  SCRAM_THROW(
+      mef::DomainError("The expressions collected by the event-tree sequence "
+                       "do not yield a probability."))
+      << errinfo_value(std::to_string(value))
+      << mef::errinfo_element(sequence.name(), "sequence");
+}
+
+}  // namespace
+
+void EventTreeAnalysis::Analyze() {
   assert(initiating_event_.event_tree());
   int formula_id = 0;  // Enumeration of collected formulas turned into gates.
   // Creates an internal gate representing the formula.
@@ -158,6 +180,8 @@ void EventTreeAnalysis::Analyze() noexcept {
             std::make_unique<mef::Add>(std::move(arg_expressions)));
         event->expression(expressions_.back().get());
       }
+      if (Analysis::settings().probability_analysis())
+        EnsureSequenceProbability(event->expression(), *sequence.first);
       gate->formula(std::make_unique<mef::Formula>(
           mef::kNull, mef::Formula::ArgSet{event.get()}));
       events_.push_back(std::move(event));
diff --git a/src/event_tree_analysis.h b/src/event_tree_analysis.h
index d1206e9..7123595 100644
--- a/src/event_tree_analysis.h
+++ b/src/event_tree_analysis.h
@@ -53,7 +53,10 @@ class EventTreeAnalysis : public Analysis {
                     const Settings& settings, mef::Context* context);
 
   /// Analyzes an event tree given the initiating event.
-  void Analyze() noexcept;
+  ///
+  /// @throws mef::DomainError  The collected expressions of a sequence
+  ///                           do not yield a probability.
+  void Analyze();
 
   /// @returns The initiating event of the event tree analysis.
   const mef::InitiatingEvent& initiating_event() const {
diff --git a/src/risk_analysis.cc b/src/risk_analysis.cc
index ba1d679..5911542 100644
--- a/src/risk_analysis.cc
+++ b/src/risk_analysis.cc
@@ -33,7 +33,7 @@ namespace scram::core {
 RiskAnalysis::RiskAnalysis(mef::Model* model, const Settings& settings)
     : Analysis(settings), model_(model) {}
 
-void RiskAnalysis::Analyze() noexcept {
+void RiskAnalysis::Analyze() {
   assert(results_.empty() && "Rerunning the analysis.");
   // Set the seed for the pseudo-random number generator if given explicitly.
   // Otherwise it defaults to the implementation dependent value.
@@ -50,7 +50,7 @@ void RiskAnalysis::Analyze() noexcept {
   }
 }
 
-void RiskAnalysis::RunAnalysis(std::optional<Context> context) noexcept {
+void RiskAnalysis::RunAnalysis(std::optional<Context> context) {
   std::vector<std::pair<mef::HouseEvent*, bool>> house_events;
   /// Restores the model after application of the context.
   ext::scope_guard restorator(
diff --git a/src/risk_analysis.h b/src/risk_analysis.h
index ea1097f..b74127d 100644
--- a/src/risk_analysis.h
+++ b/src/risk_analysis.h
@@ -100,7 +100,9 @@ class RiskAnalysis : public Analysis {
   ///       with or without its probabilities.
   ///
   /// @pre The analysis is performed only once.
-  void Analyze() noexcept;
+  ///
+  /// @throws mef::DomainError  Event-tree sequences have invalid probability.
+  void Analyze();
 
   /// @returns The results of the analysis.
   const std::vector<Result>& results() const { return results_; }
@@ -118,7 +120,7 @@ class RiskAnalysis : public Analysis {
   /// @pre The model is in pristine.
   ///
   /// @post The model is restored to the original state.
-  void RunAnalysis(std::optional<Context> context = {}) noexcept;
+  void RunAnalysis(std::optional<Context> context = {});
 
   /// Runs all possible analysis on a given target.
   /// Analysis types are deduced from the settings.
-- 
2.43.0


From c5e60810ad866c0931ebeaaf590ed33148b9bf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 31/91] fix: Add substitutions to the report schema

The reporter lists the number of substitutions in the model features,
but the schema of the report does not accept the element.
---
 share/report.rng | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/share/report.rng b/share/report.rng
index 7d67566..9489c46 100644
--- a/share/report.rng
+++ b/share/report.rng
@@ -95,6 +95,11 @@
             <data type="nonNegativeInteger"/>
           </element>
         </optional>
+        <optional>
+          <element name="substitutions">
+            <data type="nonNegativeInteger"/>
+          </element>
+        </optional>
       </element>
       <zeroOrMore>
         <element name="warning"> <text/> </element>
-- 
2.43.0


From 757d24dd0ecf83ecff889af684809a42b6ef21dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:02 +0000
Subject: [PATCH 32/91] fix: Omit the empty results from the report

An expression-only event tree without probability analysis
has no results to report; the empty element is invalid against the schema.
---
 src/reporter.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/reporter.cc b/src/reporter.cc
index 23616cc..9ff0573 100644
--- a/src/reporter.cc
+++ b/src/reporter.cc
@@ -36,6 +36,7 @@
 #include "ccf_group.h"
 #include "element.h"
 #include "error.h"
+#include "ext/algorithm.h"
 #include "logger.h"
 #include "parameter.h"
 #include "version.h"
@@ -74,7 +75,14 @@ void Reporter::Report(const core::RiskAnalysis& risk_an, std::FILE* out,
   xml::StreamElement report = xml_stream.root("report");
   ReportInformation(risk_an, &report);
 
-  if (risk_an.results().empty() && risk_an.event_tree_results().empty())
+  bool has_results =
+      ext::any_of(risk_an.results(), [](const auto& result) {
+        return result.fault_tree_analysis || result.probability_analysis ||
+               result.importance_analysis || result.uncertainty_analysis;
+      }) ||
+      (risk_an.settings().probability_analysis() &&
+       !risk_an.event_tree_results().empty());
+  if (!has_results)
     return;
   TIMER(DEBUG1, "Reporting analysis results");
   xml::StreamElement results = report.AddChild("results");
-- 
2.43.0


From d2fbbcb4464efa4d634a74232da809f3acfe4220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:09 +0000
Subject: [PATCH 33/91] fix: Keep the confidence range of the mean within [0,
 1]

The report schema requires probability values; the symmetric margin of
a small number of trials reaches below 0 or above 1.
---
 src/uncertainty_analysis.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index 27b542a..27d2905 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -20,6 +20,7 @@
 
 #include "uncertainty_analysis.h"
 
+#include <algorithm>
 #include <cmath>
 
 #include <boost/accumulators/accumulators.hpp>
@@ -112,8 +113,10 @@ void UncertaintyAnalysis::CalculateStatistics(
   mean_ = boost::accumulators::mean(acc);
   sigma_ = std::sqrt(num_trials * variance(acc) / (num_trials - 1));
   error_factor_ = std::exp(1.96 * sigma_);
-  confidence_interval_.first = mean_ - sigma_ * 1.96 / std::sqrt(num_trials);
-  confidence_interval_.second = mean_ + sigma_ * 1.96 / std::sqrt(num_trials);
+  // The mean is a probability.
+  double margin = sigma_ * 1.96 / std::sqrt(num_trials);
+  confidence_interval_.first = std::max(mean_ - margin, 0.0);
+  confidence_interval_.second = std::min(mean_ + margin, 1.0);
 
   for (int i = 0; i < num_quantiles; ++i) {
     quantiles_[i] = quantile(acc, quantile_probability = quantiles_[i]);
-- 
2.43.0


From 05eac2a8494d17e93b571864ab7a6dfe9b9e14bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 34/91] fix: Report no deviation for a single Monte Carlo trial

The sample deviation of one trial was 0/0: NaN in the report.
---
 src/uncertainty_analysis.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index 27d2905..ef4b7d2 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -111,7 +111,9 @@ void UncertaintyAnalysis::CalculateStatistics(
     distribution_.push_back(hist[i]);
   }
   mean_ = boost::accumulators::mean(acc);
-  sigma_ = std::sqrt(num_trials * variance(acc) / (num_trials - 1));
+  sigma_ = num_trials > 1  // The sample deviation is undefined for one sample.
+               ? std::sqrt(num_trials * variance(acc) / (num_trials - 1))
+               : 0;
   error_factor_ = std::exp(1.96 * sigma_);
   // The mean is a probability.
   double margin = sigma_ * 1.96 / std::sqrt(num_trials);
-- 
2.43.0


From 32dca4cb21b2559038ced8bc78b8170d883f0271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:25 +0000
Subject: [PATCH 35/91] fix: Accept frequencies above 1 per hour in the report
 schema

PFH is a frequency, which exceeds 1 for missions shorter than an hour.
---
 share/report.rng | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/share/report.rng b/share/report.rng
index 9489c46..c8b3a53 100644
--- a/share/report.rng
+++ b/share/report.rng
@@ -488,7 +488,11 @@
     <element name="safety-integrity-levels">
       <ref name="analysis-id"/>
       <attribute name="PFD-avg"> <ref name="probability-data"/> </attribute>
-      <attribute name="PFH-avg"> <ref name="probability-data"/> </attribute>
+      <attribute name="PFH-avg">  <!-- Frequency per hour -->
+        <data type="double">
+          <param name="minInclusive">0</param>
+        </data>
+      </attribute>
       <ref name="histogram"/>  <!-- Implicit PFD histogram -->
       <ref name="histogram"/>  <!-- Implicit PFH histogram -->
     </element>
-- 
2.43.0


From 36e06b6ac54755616ef88b93a681c05d5bf89a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 36/91] fix: Tolerate rounding in the sampled total probability

A sampled total probability may exceed 1 by a rounding error, which aborted
the uncertainty analysis.
---
 src/uncertainty_analysis.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uncertainty_analysis.h b/src/uncertainty_analysis.h
index b108c27..a095432 100644
--- a/src/uncertainty_analysis.h
+++ b/src/uncertainty_analysis.h
@@ -21,6 +21,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <utility>
 #include <vector>
 
@@ -149,8 +150,8 @@ std::vector<double> UncertaintyAnalyzer<Calculator>::Sample() noexcept {
   for (int i = 0; i < Analysis::settings().num_trials(); ++i) {
     UncertaintyAnalysis::SampleExpressions(deviate_expressions, &p_vars);
     double result = prob_analyzer_->CalculateTotalProbability(p_vars);
-    assert(result >= 0 && result <= 1);
-    samples.push_back(result);
+    assert(result > -1e-9 && result < 1 + 1e-9);
+    samples.push_back(std::clamp(result, 0.0, 1.0));  // Rounding errors.
   }
 
   return samples;
-- 
2.43.0


From 3e985a65a0a545ee120909b86f968b506188fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:20 +0000
Subject: [PATCH 37/91] fix: Order top events by their identifiers

The order of the analysis and of the report followed the order of the gate
addresses in a hash set, which changes from process to process.
---
 src/fault_tree.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fault_tree.cc b/src/fault_tree.cc
index 90e0614..9ba864a 100644
--- a/src/fault_tree.cc
+++ b/src/fault_tree.cc
@@ -20,6 +20,8 @@
 
 #include "fault_tree.h"
 
+#include <algorithm>
+
 #include "error.h"
 
 namespace scram::mef {
@@ -75,6 +77,10 @@ void FaultTree::CollectTopEvents() {
       top_events_.push_back(gate);
     }
   }
+  // The order must not depend on the addresses of the gates.
+  std::sort(
+      top_events_.begin(), top_events_.end(),
+      [](const Gate* lhs, const Gate* rhs) { return lhs->id() < rhs->id(); });
 }
 
 void FaultTree::MarkNonTopGates(Gate* gate,
-- 
2.43.0


From bc092bfdd7a6dcb6f167489ec7576bc1d0882dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:02 +0000
Subject: [PATCH 38/91] fix: Order event-tree sequences by their names

The order of the analysis and of the report followed the order of the
sequence addresses in a hash map, which changes from process to process.
---
 src/event_tree_analysis.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/event_tree_analysis.h b/src/event_tree_analysis.h
index 7123595..9f32b1a 100644
--- a/src/event_tree_analysis.h
+++ b/src/event_tree_analysis.h
@@ -19,6 +19,7 @@
 
 #pragma once
 
+#include <map>
 #include <memory>
 #include <string>
 #include <unordered_map>
@@ -83,8 +84,15 @@ class EventTreeAnalysis : public Analysis {
   struct SequenceCollector {
     const mef::InitiatingEvent& initiating_event;  ///< The analysis initiator.
     mef::Context& context;  ///< The collection context.
+    /// The order of sequences that doesn't depend on their addresses.
+    struct SequenceOrder {
+      bool operator()(const mef::Sequence* lhs,
+                      const mef::Sequence* rhs) const {
+        return lhs->name() < rhs->name();
+      }
+    };
     /// Sequences with collected paths.
-    std::unordered_map<const mef::Sequence*, std::vector<PathCollector>>
+    std::map<const mef::Sequence*, std::vector<PathCollector>, SequenceOrder>
         sequences;
   };
 
-- 
2.43.0


From 4421600b7ce6553a05dfa22e73bdef222350b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:54 +0000
Subject: [PATCH 39/91] fix: Order gates by index in preprocessing

The order of the gates with common arguments and multiple definitions
followed their addresses, so that the structure of the resulting graph,
the order of the products, and rounding changed from process to process.
---
 src/preprocessor.cc |  8 ++++----
 src/preprocessor.h  | 18 +++++++++++++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 7ae7f0b..86c24c8 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -752,7 +752,7 @@ bool Preprocessor::ProcessMultipleDefinitions() noexcept {
 
   graph_->Clear<Pdag::kGateMark>();
   // The original gate and its multiple definitions.
-  std::unordered_map<GatePtr, std::vector<GateWeakPtr>> multi_def;
+  MultipleDefinitions multi_def;
   {
     GateSet unique_gates;
     DetectMultipleDefinitions(graph_->root(), &multi_def, &unique_gates);
@@ -777,8 +777,7 @@ bool Preprocessor::ProcessMultipleDefinitions() noexcept {
 }
 
 void Preprocessor::DetectMultipleDefinitions(
-    const GatePtr& gate,
-    std::unordered_map<GatePtr, std::vector<GateWeakPtr>>* multi_def,
+    const GatePtr& gate, MultipleDefinitions* multi_def,
     GateSet* unique_gates) noexcept {
   if (gate->mark())
     return;
@@ -1429,7 +1428,8 @@ void Preprocessor::FindOptionGroup(
       bool superset = boost::includes(candidate->first, group.back()->first);
       if (!superset)
         continue;  // Does not include all the arguments.
-      bool parents = boost::includes(group.back()->second, candidate->second);
+      bool parents = boost::includes(group.back()->second, candidate->second,
+                                     GateOrder());
       if (!parents)
         continue;  // Parents do not match.
       group.push_back(candidate);
diff --git a/src/preprocessor.h b/src/preprocessor.h
index efc3e52..dff05b7 100644
--- a/src/preprocessor.h
+++ b/src/preprocessor.h
@@ -21,6 +21,7 @@
 
 #pragma once
 
+#include <map>
 #include <memory>
 #include <set>
 #include <unordered_map>
@@ -111,6 +112,17 @@ class Preprocessor : private boost::noncopyable {
  protected:
   class GateSet;  ///< Container of unique gates by semantics.
 
+  /// The order of gates that doesn't depend on their addresses.
+  struct GateOrder {
+    bool operator()(const GatePtr& lhs, const GatePtr& rhs) const {
+      return lhs->index() < rhs->index();
+    }
+  };
+
+  /// The original gates with their multiple definitions.
+  using MultipleDefinitions =
+      std::map<GatePtr, std::vector<GateWeakPtr>, GateOrder>;
+
   /// Runs the default preprocessing
   /// that achieves the graph in a normal form.
   virtual void Run() noexcept = 0;
@@ -323,8 +335,7 @@ class Preprocessor : private boost::noncopyable {
   ///
   /// @warning Gate marks must be clear.
   void DetectMultipleDefinitions(
-      const GatePtr& gate,
-      std::unordered_map<GatePtr, std::vector<GateWeakPtr>>* multi_def,
+      const GatePtr& gate, MultipleDefinitions* multi_def,
       GateSet* unique_gates) noexcept;
 
   /// Traverses the PDAG to detect modules.
@@ -475,7 +486,8 @@ class Preprocessor : private boost::noncopyable {
   /// common arguments of gates into new gates.
   struct MergeTable {
     using CommonArgs = std::vector<int>;  ///< Unique, sorted common arguments.
-    using CommonParents = std::set<GatePtr>;  ///< Unique common parent gates.
+    /// Unique common parent gates.
+    using CommonParents = std::set<GatePtr, GateOrder>;
     using Option = std::pair<CommonArgs, CommonParents>;  ///< One possibility.
     using OptionGroup = std::vector<Option*>;  ///< A set of best options.
     using MergeGroup = std::vector<Option>;  ///< Isolated group for processing.
-- 
2.43.0


From b0b2deaf95b8d17c2ebf5b07399eb2b9bb6b43fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:37 +0000
Subject: [PATCH 40/91] fix: Serialize Boolean constants in formulas

The constants were written as references to the internal __true__ and __false__
events, which do not exist in the saved document.
---
 src/serialization.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/serialization.cc b/src/serialization.cc
index 1992506..4798319 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -79,8 +79,13 @@ void SerializeElement(const Element& element, xml::StreamElement* xml_element) {
 void Serialize(const Formula& formula, xml::StreamElement* parent) {
   auto stream_event = [](const Formula::ArgEvent& event,
                          xml::StreamElement* xml) {
-    xml->AddChild("event").SetAttribute(
-        "name", ext::as<const mef::Event*>(event)->name());
+    const auto* mef_event = ext::as<const mef::Event*>(event);
+    if (mef_event == &HouseEvent::kTrue || mef_event == &HouseEvent::kFalse) {
+      xml->AddChild("constant").SetAttribute("value",
+                                             mef_event == &HouseEvent::kTrue);
+    } else {
+      xml->AddChild("event").SetAttribute("name", mef_event->name());
+    }
   };
   auto stream_arg = [&stream_event](const Formula::Arg& arg,
                                     xml::StreamElement* xml) {
-- 
2.43.0


From 2a5cfdda48c229b1b79e3e5c5861a9aa72d65540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:04 +0000
Subject: [PATCH 41/91] fix: Serialize constants without loss of precision

Six significant digits changed the values of constant expressions upon saving.
---
 src/serialization.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/serialization.cc b/src/serialization.cc
index 4798319..331f527 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -19,7 +19,11 @@
 
 #include "serialization.h"
 
+#include <cstdio>
+#include <cstdlib>
+
 #include <memory>
+#include <string>
 
 #include <boost/exception/errinfo_errno.hpp>
 #include <boost/exception/errinfo_file_name.hpp>
@@ -147,12 +151,25 @@ void Serialize(const FaultTree& fault_tree, xml::StreamElement* parent) {
     Serialize(gate, &ft_element);
 }
 
+/// @param[in] value  The value of a constant expression.
+///
+/// @returns The shortest decimal representation that is read as the same value.
+std::string ToString(double value) {
+  char buffer[32];
+  for (int precision = 6; precision <= 17; ++precision) {
+    std::snprintf(buffer, sizeof(buffer), "%.*g", precision, value);
+    if (std::strtod(buffer, nullptr) == value)
+      break;
+  }
+  return buffer;
+}
+
 void Serialize(const Expression& expression, xml::StreamElement* parent) {
   if (const auto* constant =
           dynamic_cast<const ConstantExpression*>(&expression)) {
     /// @todo Track the original value type of the constant expression.
     parent->AddChild("float").SetAttribute(
-        "value", const_cast<ConstantExpression*>(constant)->value());
+        "value", ToString(const_cast<ConstantExpression*>(constant)->value()));
   } else if (const auto* exponential =
                  dynamic_cast<const Exponential*>(&expression)) {
     xml::StreamElement xml = parent->AddChild("exponential");
-- 
2.43.0


From 801dfcb7d9cd131b7fe4716af20edb1796174c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:23 +0000
Subject: [PATCH 42/91] fix: Serialize the system mission time

The event dialog of the GUI makes exponential expressions with the mission time
of the model; saving such a model failed on an assertion.
The GUI schema accepts the element to load what was saved.
---
 share/gui.rng        | 1 +
 src/serialization.cc | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/share/gui.rng b/share/gui.rng
index 23f44b1..e944ebd 100644
--- a/share/gui.rng
+++ b/share/gui.rng
@@ -316,6 +316,7 @@
     <choice>
       <ref name="constant"/>
       <ref name="built-in"/>
+      <element name="system-mission-time"> <empty/> </element>
     </choice>
   </define>
 
diff --git a/src/serialization.cc b/src/serialization.cc
index 331f527..db750eb 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -36,6 +36,7 @@
 #include "expression/exponential.h"
 #include "ext/variant.h"
 #include "fault_tree.h"
+#include "parameter.h"
 #include "xml_stream.h"
 
 namespace scram::mef {
@@ -176,6 +177,8 @@ void Serialize(const Expression& expression, xml::StreamElement* parent) {
     assert(exponential->args().size() == 2);
     for (const Expression* arg : exponential->args())
       Serialize(*arg, &xml);
+  } else if (dynamic_cast<const MissionTime*>(&expression)) {
+    parent->AddChild("system-mission-time");
   } else {
     assert(false && "Unsupported expression");
   }
-- 
2.43.0


From e874d62c93fa4881001bf7d2588c3f2554072489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 43/91] fix: Escape space characters and ]]> in XML output

Readers normalize unescaped tabs and newlines in attributes
and carriage returns anywhere, and reject ']]>' in text.
---
 src/xml_stream.h | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/xml_stream.h b/src/xml_stream.h
index f41ed6b..b7b38b5 100644
--- a/src/xml_stream.h
+++ b/src/xml_stream.h
@@ -229,7 +229,8 @@ class StreamElement {
   ///
   /// @returns The reference to this element.
   ///
-  /// @post &, <, " chars are escaped in the value text.
+  /// @post &, <, ", and tab, newline, carriage return chars are escaped
+  ///       in the value text.
   ///
   /// @throws StreamError  Invalid setup for the attribute.
   template <typename T>
@@ -257,7 +258,8 @@ class StreamElement {
   ///
   /// @post No more elements or attributes can be added.
   /// @post More text can be added.
-  /// @post &, <, " chars are escaped in the text.
+  /// @post &, <, ", ]]>, and tab, newline, carriage return chars are escaped
+  ///       in the text.
   ///
   /// @throws StreamError  Invalid setup or state for text addition.
   template <typename T>
@@ -359,7 +361,11 @@ class StreamElement {
             return false;
           case '&':
           case '<':
+          case ']':
           case '"':
+          case '\t':
+          case '\n':
+          case '\r':
             return true;
         }
       }
@@ -378,6 +384,23 @@ class StreamElement {
           case '<':
             out_ << "&lt;";
             break;
+          case ']':
+            if (value[1] == ']' && value[2] == '>') {  // Not allowed in text.
+              out_ << "]]&gt;";
+              value += 2;
+            } else {
+              out_ << *value;
+            }
+            break;
+          case '\t':  // Unescaped space characters get normalized by readers.
+            out_ << "&#9;";
+            break;
+          case '\n':
+            out_ << "&#10;";
+            break;
+          case '\r':
+            out_ << "&#13;";
+            break;
           case '"':
             out_ << "&quot;";
             break;
-- 
2.43.0


From 23fec9e8f93b3f2e2258d02cc6df7ab2a0899a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:13 +0000
Subject: [PATCH 44/91] fix: Refuse to serialize unsupported constructs

Alignments, substitutions, and external libraries were dropped without notice,
and the other unsupported constructs failed on assertions.
---
 src/serialization.cc | 80 +++++++++++++++++++++++++++++++++++++-------
 src/serialization.h  |  2 ++
 2 files changed, 69 insertions(+), 13 deletions(-)

diff --git a/src/serialization.cc b/src/serialization.cc
index db750eb..0ef416c 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -25,11 +25,13 @@
 #include <memory>
 #include <string>
 
+#include <boost/algorithm/cxx11/all_of.hpp>
 #include <boost/exception/errinfo_errno.hpp>
 #include <boost/exception/errinfo_file_name.hpp>
 #include <boost/exception/errinfo_file_open_mode.hpp>
 
 #include "element.h"
+#include "error.h"
 #include "event.h"
 #include "expression.h"
 #include "expression/constant.h"
@@ -137,15 +139,12 @@ void Serialize(const Formula& formula, xml::StreamElement* parent) {
 }
 
 void Serialize(const Gate& gate, xml::StreamElement* parent) {
-  assert(gate.role() == RoleSpecifier::kPublic);
   xml::StreamElement gate_element = parent->AddChild("define-gate");
   SerializeElement(gate, &gate_element);
   Serialize(gate.formula(), &gate_element);
 }
 
 void Serialize(const FaultTree& fault_tree, xml::StreamElement* parent) {
-  assert(fault_tree.components().empty());
-  assert(fault_tree.role() == RoleSpecifier::kPublic);
   xml::StreamElement ft_element = parent->AddChild("define-fault-tree");
   SerializeElement(fault_tree, &ft_element);
   for (const Gate& gate : fault_tree.gates())
@@ -185,7 +184,6 @@ void Serialize(const Expression& expression, xml::StreamElement* parent) {
 }
 
 void Serialize(const BasicEvent& basic_event, xml::StreamElement* parent) {
-  assert(basic_event.role() == RoleSpecifier::kPublic);
   xml::StreamElement be_element = parent->AddChild("define-basic-event");
   SerializeElement(basic_event, &be_element);
   if (basic_event.HasExpression())
@@ -193,7 +191,6 @@ void Serialize(const BasicEvent& basic_event, xml::StreamElement* parent) {
 }
 
 void Serialize(const HouseEvent& house_event, xml::StreamElement* parent) {
-  assert(house_event.role() == RoleSpecifier::kPublic);
   assert(&house_event != &HouseEvent::kTrue &&
          &house_event != &HouseEvent::kFalse);
   xml::StreamElement he_element = parent->AddChild("define-house-event");
@@ -202,22 +199,79 @@ void Serialize(const HouseEvent& house_event, xml::StreamElement* parent) {
       .SetAttribute("value", house_event.state() ? "true" : "false");
 }
 
+/// @returns true if the expression can be serialized.
+bool IsSupported(const Expression& expression) {
+  if (dynamic_cast<const Exponential*>(&expression)) {
+    return boost::algorithm::all_of(
+        expression.args(), [](const Expression* arg) {
+          return IsSupported(*arg);
+        });
+  }
+  return dynamic_cast<const ConstantExpression*>(&expression) ||
+         dynamic_cast<const MissionTime*>(&expression);
+}
+
+/// Ensures that nothing in the model gets lost or altered upon serialization.
+///
+/// @todo Implement serialization for the unsupported constructs.
+///
+/// @throws IllegalOperation  The model contains unsupported constructs.
+void CheckSupport(const Model& model) {
+  auto ensure = [](bool supported, const char* construct) {
+    if (!supported) {
+      SCRAM_THROW(IllegalOperation(
+          std::string("The serialization doesn't support ") + construct));
+    }
+  };
+  ensure(model.ccf_groups().empty(), "CCF groups.");
+  ensure(model.parameters().empty(), "parameters.");
+  ensure(model.initiating_events().empty(), "initiating events.");
+  ensure(model.event_trees().empty(), "event trees.");
+  ensure(model.sequences().empty(), "sequences.");
+  ensure(model.rules().empty(), "rules.");
+  ensure(model.alignments().empty(), "alignments.");
+  ensure(model.substitutions().empty(), "substitutions.");
+  ensure(model.libraries().empty(), "external libraries.");
+  ensure(model.extern_functions().empty(), "external functions.");
+
+  for (const FaultTree& fault_tree : model.fault_trees()) {
+    ensure(fault_tree.components().empty(), "components.");
+    ensure(fault_tree.role() == RoleSpecifier::kPublic, "private fault trees.");
+  }
+  for (const Gate& gate : model.gates()) {
+    ensure(gate.role() == RoleSpecifier::kPublic, "private gates.");
+    switch (gate.formula().connective()) {
+      case kIff:
+      case kImply:
+      case kCardinality:
+        ensure(false, "iff, imply, and cardinality formulas.");
+        break;
+      default:
+        break;
+    }
+  }
+  for (const BasicEvent& basic_event : model.basic_events()) {
+    ensure(basic_event.role() == RoleSpecifier::kPublic,
+           "private basic events.");
+    ensure(!basic_event.HasExpression() ||
+               IsSupported(basic_event.expression()),
+           "expressions other than constants and exponential distributions.");
+  }
+  for (const HouseEvent& house_event : model.house_events()) {
+    ensure(house_event.role() == RoleSpecifier::kPublic,
+           "private house events.");
+  }
+}
+
 }  // namespace
 
 void Serialize(const Model& model, std::FILE* out) {
+  CheckSupport(model);
   xml::Stream xml_stream(out);
   xml::StreamElement root = xml_stream.root("opsa-mef");
   if (!model.HasDefaultName())
     root.SetAttribute("name", model.name());
   SerializeLabelAndAttributes(model, &root);
-  /// @todo Implement serialization for the following unsupported constructs.
-  assert(model.ccf_groups().empty());
-  assert(model.parameters().empty());
-  assert(model.initiating_events().empty());
-  assert(model.event_trees().empty());
-  assert(model.sequences().empty());
-  assert(model.rules().empty());
-
   for (const FaultTree& fault_tree : model.fault_trees())
     Serialize(fault_tree, &root);
 
diff --git a/src/serialization.h b/src/serialization.h
index 8b766b7..1eee770 100644
--- a/src/serialization.h
+++ b/src/serialization.h
@@ -37,6 +37,7 @@ namespace scram::mef {
 /// @param[in,out] out  The stream for XML data.
 ///
 /// @throws IOError  The write operation has failed.
+/// @throws IllegalOperation  The model contains unsupported constructs.
 void Serialize(const Model& model, std::FILE* out);
 
 /// Convenience function for serialization into a file.
@@ -46,6 +47,7 @@ void Serialize(const Model& model, std::FILE* out);
 ///
 /// @throws IOError  The output file is not accessible,
 ///                  or the write operation has failed.
+/// @throws IllegalOperation  The model contains unsupported constructs.
 void Serialize(const Model& model, const std::string& file);
 
 }  // namespace scram::mef
-- 
2.43.0


From 5d020bb02a6e1779f5674700295905a5b988ded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 45/91] fix: Keep analysis flags of project files

The absence of a command-line flag reset the analyses and prime implicants
requested in the project file.
---
 src/scram.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/scram.cc b/src/scram.cc
index 523d778..370ee9b 100644
--- a/src/scram.cc
+++ b/src/scram.cc
@@ -208,7 +208,8 @@ void ConstructSettings(const po::variables_map& vm,
   } else if (vm.count("mocus")) {
     settings->algorithm(scram::core::Algorithm::kMocus);
   }
-  settings->prime_implicants(vm.count("prime-implicants"));
+  if (vm.count("prime-implicants"))
+    settings->prime_implicants(true);
   // Determine if the probability approximation is requested.
   if (vm.count("rare-event")) {
     assert(!vm.count("mcub"));
@@ -217,12 +218,16 @@ void ConstructSettings(const po::variables_map& vm,
     settings->approximation(scram::core::Approximation::kMcub);
   }
   SET("time-step", double, time_step);
-  settings->safety_integrity_levels(vm.count("sil"));
-
-  settings->probability_analysis(vm.count("probability"));
-  settings->importance_analysis(vm.count("importance"));
-  settings->uncertainty_analysis(vm.count("uncertainty"));
-  settings->ccf_analysis(vm.count("ccf"));
+  if (vm.count("sil"))
+    settings->safety_integrity_levels(true);
+  if (vm.count("probability"))
+    settings->probability_analysis(true);
+  if (vm.count("importance"))
+    settings->importance_analysis(true);
+  if (vm.count("uncertainty"))
+    settings->uncertainty_analysis(true);
+  if (vm.count("ccf"))
+    settings->ccf_analysis(true);
   SET("seed", int, seed);
   SET("limit-order", int, limit_order);
   SET("cut-off", double, cut_off);
-- 
2.43.0


From 6dc509a4db74af1ec0bd0bb6eb6596d53fa7203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 46/91] fix: Reject NaN settings

Comparisons with NaN are false,
so the settings accepted NaN as a time or probability.
---
 src/settings.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/settings.cc b/src/settings.cc
index afd50ac..f6f4d14 100644
--- a/src/settings.cc
+++ b/src/settings.cc
@@ -95,7 +95,7 @@ Settings& Settings::limit_order(int order) {
 }
 
 Settings& Settings::cut_off(double prob) {
-  if (prob < 0 || prob > 1)
+  if (!(prob >= 0 && prob <= 1))
     SCRAM_THROW(SettingsError(
         "The cut-off probability cannot be negative or more than 1."))
         << errinfo_value(std::to_string(prob));
@@ -141,7 +141,7 @@ Settings& Settings::seed(int s) {
 }
 
 Settings& Settings::mission_time(double time) {
-  if (time < 0)
+  if (!(time >= 0))
     SCRAM_THROW(SettingsError("The mission time cannot be negative."))
         << errinfo_value(std::to_string(time));
 
@@ -150,7 +150,7 @@ Settings& Settings::mission_time(double time) {
 }
 
 Settings& Settings::time_step(double time) {
-  if (time < 0)
+  if (!(time >= 0))
     SCRAM_THROW(SettingsError("The time step cannot be negative."))
         << errinfo_value(std::to_string(time));
   if (!time && safety_integrity_levels_)
-- 
2.43.0


From 4727d48f112ff0df86312572629fc79ca75e1927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:08 +0000
Subject: [PATCH 47/91] fix: Reset prime implicants before setting the
 approximation

Choosing ZBDD or MOCUS over prime implicants threw from a noexcept function.
---
 src/settings.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/settings.cc b/src/settings.cc
index f6f4d14..f01fad8 100644
--- a/src/settings.cc
+++ b/src/settings.cc
@@ -35,10 +35,9 @@ Settings& Settings::algorithm(Algorithm value) noexcept {
       approximation(Approximation::kNone);
       break;
     default:
+      prime_implicants_ = false;  // Before setting an approximation.
       if (approximation_ == Approximation::kNone)
         approximation(Approximation::kRareEvent);
-      if (prime_implicants_)
-        prime_implicants(false);
   }
   return *this;
 }
-- 
2.43.0


From 7fb99fa0d689226416897e043bb011bdaa47cf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 48/91] fix: Read empty, commented, and multi-line XML values

Empty attributes and texts, CDATA sections failed on assertions,
comments cut the text, and line breaks around numbers were rejected.
---
 src/xml.h | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/xml.h b/src/xml.h
index 9f3b85c..ee74cb8 100644
--- a/src/xml.h
+++ b/src/xml.h
@@ -134,11 +134,12 @@ inline const xmlChar* to_utf8(const char* c_string) noexcept {
 ///
 /// @pre The string is normalized by the XML parser.
 inline std::string_view trim(const std::string_view& text) noexcept {
-  auto pos_first = text.find_first_not_of(' ');
+  constexpr const char* kSpaces = " \t\n\r";  // XML white space.
+  auto pos_first = text.find_first_not_of(kSpaces);
   if (pos_first == std::string_view::npos)
     return {};
 
-  auto pos_last = text.find_last_not_of(' ');
+  auto pos_last = text.find_last_not_of(kSpaces);
   auto len = pos_last - pos_first + 1;
 
   return std::string_view(text.data() + pos_first, len);
@@ -283,14 +284,15 @@ class Element {
   /// @returns The attribute value or
   ///          empty string if no attribute (optional attribute).
   ///
-  /// @pre XML attributes never contain empty strings.
   /// @pre XML attribute values are simple texts w/o DTD processing.
   std::string_view attribute(const char* name) const {
     const xmlAttr* property = xmlHasProp(to_node(), detail::to_utf8(name));
     if (!property)
       return {};
     const xmlNode* text_node = property->children;
-    assert(text_node && text_node->type == XML_TEXT_NODE);
+    if (!text_node)
+      return {};  // The value is an empty string.
+    assert(text_node->type == XML_TEXT_NODE && !text_node->next);
     assert(text_node->content);
     return detail::trim(detail::from_utf8(text_node->content));
   }
@@ -321,16 +323,19 @@ class Element {
     }
   }
 
-  /// @returns The XML element's text.
+  /// @returns The XML element's text (empty if the element has no text).
   ///
-  /// @pre The Element has text.
-  std::string_view text() const {
-    const xmlNode* text_node = element_->children;
-    while (text_node && text_node->type != XML_TEXT_NODE)
-      text_node = text_node->next;
-    assert(text_node && "Element does not have text.");
-    assert(text_node->content && "Missing text in Element.");
-    return detail::trim(detail::from_utf8(text_node->content));
+  /// @note Comments and CDATA section boundaries don't interrupt the text.
+  std::string text() const {
+    std::string value;
+    for (const xmlNode* node = element_->children; node; node = node->next) {
+      if ((node->type == XML_TEXT_NODE ||
+           node->type == XML_CDATA_SECTION_NODE) &&
+          node->content) {
+        value += detail::from_utf8(node->content);
+      }
+    }
+    return std::string(detail::trim(value));
   }
 
   /// Generic text value extraction following XML data types.
@@ -339,8 +344,6 @@ class Element {
   ///
   /// @returns The value of type T interpreted from attribute value.
   ///
-  /// @pre The text is not empty.
-  ///
   /// @throws ValidityError  Casting is unsuccessful.
   template <typename T>
   std::enable_if_t<std::is_arithmetic_v<T>, T> text() const {
-- 
2.43.0


From e875da9eaf23e8315ebc7abb6e36494a082a6397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:23 +0000
Subject: [PATCH 49/91] fix: Reject XML entity declarations

References to custom entities in attributes failed on an assertion,
and the content of entities in place of elements was ignored.
---
 src/xml.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xml.cc b/src/xml.cc
index de9b947..8bd2c10 100644
--- a/src/xml.cc
+++ b/src/xml.cc
@@ -40,6 +40,10 @@ Document::Document(const std::string& file_path, Validator* validator)
   assert(doc_ && "Internal XML library failure.");
   if (xmlXIncludeProcessFlags(get(), kParserOptions) < 0 || xmlGetLastError())
     SCRAM_THROW(detail::GetError<XIncludeError>());
+  if (get()->intSubset && get()->intSubset->entities) {
+    SCRAM_THROW(ParseError("Entity declarations are not supported."))
+        << boost::errinfo_file_name(file_path);
+  }
   if (validator)
     validator->validate(*this);
 }
-- 
2.43.0


From 633e5989ff2e8693f0c4e28f6744ae66f373c2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 50/91] fix: Reject version numbers out of range

The overflow let incompatible versions pass.
---
 src/ext/version.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ext/version.cc b/src/ext/version.cc
index bcb3a31..acf662e 100644
--- a/src/ext/version.cc
+++ b/src/ext/version.cc
@@ -20,6 +20,8 @@
 
 #include "src/ext/version.h"
 
+#include <limits>
+
 namespace ext {
 
 std::optional<std::array<int, 3>> extract_version(std::string_view version,
@@ -43,8 +45,11 @@ std::optional<std::array<int, 3>> extract_version(std::string_view version,
       return {};
 
     } else {
+      int digit = c - '0';
+      if (numbers[i] > (std::numeric_limits<int>::max() - digit) / 10)
+        return {};
       numbers[i] *= 10;
-      numbers[i] += c - '0';
+      numbers[i] += digit;
       expect_separator = true;
     }
   }
-- 
2.43.0


From 663d486c88be4e8187ddf118144a3963dcaa37da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:13 +0000
Subject: [PATCH 51/91] fix: reject huge connective numbers instead of
 asserting

A formula with min/max above the range of the stored number (e.g. 70000)
failed an assertion (or was silently truncated in release builds).
---
 src/event.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/event.cc b/src/event.cc
index 9658648..057dde7 100644
--- a/src/event.cc
+++ b/src/event.cc
@@ -127,10 +127,11 @@ void Formula::Swap(ArgEvent current, ArgEvent other) {
 
 void Formula::ValidateMinMaxNumber(std::optional<int> min_number,
                                    std::optional<int> max_number) {
-  assert(!min_number ||
-         std::numeric_limits<decltype(min_number_)>::max() >= *min_number);
-  assert(!max_number ||
-         std::numeric_limits<decltype(max_number_)>::max() >= *max_number);
+  for (const std::optional<int>& number : {min_number, max_number}) {
+    if (number && *number > std::numeric_limits<decltype(min_number_)>::max())
+      SCRAM_THROW(ValidityError("The connective number is too large."))
+          << errinfo_value(std::to_string(*number));
+  }
 
   if (min_number) {
     if (*min_number < 0)
-- 
2.43.0


From 57812556eebe13ba254297e57167eaea29b5806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 52/91] fix: keep single-argument cardinality gates well-formed

The translation of a cardinality connective with one argument produced an
OR gate with one argument, which crashed the preprocessor.
---
 src/pdag.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdag.cc b/src/pdag.cc
index 5ffc2a6..c0dd396 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -682,7 +682,7 @@ GatePtr Pdag::ConstructComplexGate(const mef::Formula& formula, bool ccf,
         if (atleast->min_number() == 0) {
           atleast->MakeConstant(true);
         } else if (atleast->min_number() == 1) {
-          atleast->type(kOr);
+          atleast->type(atleast->args().size() == 1 ? kNull : kOr);
         } else if (atleast->min_number() == atleast->args().size()) {
           atleast->type(kAnd);
         }
-- 
2.43.0


From 98f50438efbec2d956bd04a9e199b5dafaa281be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:49 +0000
Subject: [PATCH 53/91] fix: reject expressions that are not numbers

NaN passed every range validation (all comparisons are false), and
XML 'nan'/'inf' literals were accepted as numbers; analyses then reported
NaN probabilities or failed assertions.
---
 src/expression.cc  | 6 +++---
 src/expression.h   | 9 ++++++++-
 src/initializer.cc | 3 +++
 src/xml.h          | 2 +-
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/expression.cc b/src/expression.cc
index c22f9ad..4d1690d 100644
--- a/src/expression.cc
+++ b/src/expression.cc
@@ -74,7 +74,7 @@ std::string ToString(const Interval& interval) {
 
 void EnsureProbability(Expression* expression, const char* type) {
   double value = expression->value();
-  if (value < 0 || value > 1)
+  if (!(value >= 0 && value <= 1))
     SCRAM_THROW(DomainError("Invalid " + std::string(type) + " value"))
         << errinfo_value(std::to_string(value));
 
@@ -88,7 +88,7 @@ void EnsurePositive(Expression* expression, const char* description) {
   using namespace std::string_literals;  // NOLINT
 
   double value = expression->value();
-  if (value <= 0)
+  if (!(value > 0))
     SCRAM_THROW(DomainError(description + " argument value must be positive."s))
         << errinfo_value(std::to_string(value));
 
@@ -103,7 +103,7 @@ void EnsureNonNegative(Expression* expression, const char* description) {
   using namespace std::string_literals;  // NOLINT
 
   double value = expression->value();
-  if (value < 0)
+  if (!(value >= 0))
     SCRAM_THROW(
         DomainError(description + " argument value cannot be negative."s))
         << errinfo_value(std::to_string(value));
diff --git a/src/expression.h b/src/expression.h
index b837952..17f5fa4 100644
--- a/src/expression.h
+++ b/src/expression.h
@@ -22,6 +22,8 @@
 #pragma once
 
 #include <algorithm>
+#include <cmath>
+#include <limits>
 #include <utility>
 #include <vector>
 
@@ -43,7 +45,7 @@ inline bool Contains(const Interval& interval, double value) {
 
 /// Checks if a given interval is within the probability domain.
 inline bool IsProbability(const Interval& interval) {
-  return boost::icl::within(interval, Interval::closed(0, 1));
+  return interval.lower() >= 0 && interval.upper() <= 1;
 }
 
 /// Checks if all values in a given interval are non-negative.
@@ -259,6 +261,11 @@ class NaryExpression<T, -1> : public ExpressionFormula<NaryExpression<T, -1>> {
       double max_min = T()(max_value, arg_min);
       double min_max = T()(min_value, arg_max);
       double min_min = T()(min_value, arg_min);
+      if (std::isnan(max_max) || std::isnan(max_min) || std::isnan(min_max) ||
+          std::isnan(min_min)) {  // Indeterminate with infinite bounds.
+        double inf = std::numeric_limits<double>::infinity();
+        return Interval::closed(-inf, inf);
+      }
       std::tie(min_value, max_value) =
           std::minmax({max_max, max_min, min_max, min_min});
     }
diff --git a/src/initializer.cc b/src/initializer.cc
index e213ff4..1e5c582 100644
--- a/src/initializer.cc
+++ b/src/initializer.cc
@@ -20,6 +20,7 @@
 
 #include "initializer.h"
 
+#include <cmath>
 #include <functional>  // std::mem_fn
 #include <sstream>
 #include <type_traits>
@@ -1820,6 +1821,8 @@ void Initializer::ValidateExpressions() {
       return;
     try {
       expression->Validate();
+      if (std::isnan(expression->value()))
+        SCRAM_THROW(DomainError("The expression value is not a number."));
     } catch (ValidityError& err) {
       err << boost::errinfo_file_name(it->second->filename())
           << boost::errinfo_at_line(it->second->line());
diff --git a/src/xml.h b/src/xml.h
index ee74cb8..8579fd3 100644
--- a/src/xml.h
+++ b/src/xml.h
@@ -86,7 +86,7 @@ std::enable_if_t<std::is_arithmetic_v<T>, T> to(const std::string_view& value) {
     char* end_char = nullptr;
     double ret = std::strtod(value.data(), &end_char);
     int len = end_char - value.data();
-    if (len != value.size() || ret == HUGE_VAL || ret == -HUGE_VAL) {
+    if (len != value.size() || !std::isfinite(ret)) {
       SCRAM_THROW(ValidityError("Failed to interpret value to double"))
           << errinfo_value(std::string(value));
     }
-- 
2.43.0


From 9aaa3618328f06498af016e237c24de8e16b980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:30 +0000
Subject: [PATCH 54/91] fix: keep products of unity modules at the order limit

The BDD to ZBDD conversion dropped the low branch at the order limit
if it was not a terminal, although non-coherent modules may be unity
and thus contribute no literals to the products.
---
 src/zbdd.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/zbdd.cc b/src/zbdd.cc
index 7434bfe..25ba6fe 100644
--- a/src/zbdd.cc
+++ b/src/zbdd.cc
@@ -289,11 +289,8 @@ Zbdd::VertexPtr Zbdd::ConvertBdd(const ItePtr& ite, bool complement,
                                      ites);
   VertexPtr low = ConvertBdd(ite->low(), ite->complement_edge() ^ complement,
                              bdd_graph, limit_order, ites);
-  if (limit_order == 0) {  // Cut-off on the set order.
-    if (low->terminal())
-      return low;
-    return kEmpty_;
-  }
+  if (limit_order == 0)  // Cut-off on the set order.
+    return low;  // Only products of modules that may be unity, if any.
   VertexPtr high =
       ConvertBdd(ite->high(), complement, bdd_graph, --limit_order, ites);
   return GetReducedVertex(ite, false, high, low);
-- 
2.43.0


From c376c501d9bd25a06ea58a7466f4020ee70ebeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:11 +0000
Subject: [PATCH 55/91] fix: use the point estimate for undefined samples

Distributions with extreme parameters (e.g. beta-deviate with 1e308) may
overflow upon sampling, and the resulting NaN failed an assertion or
spread into all statistics.
---
 src/uncertainty_analysis.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index ef4b7d2..a967cca 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -81,6 +81,8 @@ void UncertaintyAnalysis::SampleExpressions(
   // Sample all expressions with distributions.
   for (const auto& expression : deviate_expressions) {
     double prob = expression.second.Sample();
+    if (std::isnan(prob))  // Overflows in the distribution or its function.
+      prob = expression.second.value();
     (*p_vars)[expression.first] = prob > 1 ? 1 : prob < 0 ? 0 : prob;
   }
 }
-- 
2.43.0


From 515078744c7e20ddf4ea051a613679431bc091c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:22 +0000
Subject: [PATCH 56/91] fix: stop analysis after the preprocessor with
 probabilities

The preprocessor-only option crashed if any quantitative analysis was
requested, because the products are not available.
---
 src/risk_analysis.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/risk_analysis.cc b/src/risk_analysis.cc
index 5911542..7ab7e1c 100644
--- a/src/risk_analysis.cc
+++ b/src/risk_analysis.cc
@@ -101,7 +101,7 @@ void RiskAnalysis::RunAnalysis(std::optional<Context> context) {
           results_.back().fault_tree_analysis = nullptr;
           results_.back().importance_analysis = nullptr;
         }
-        if (Analysis::settings().probability_analysis())
+        if (results_.back().probability_analysis)
           result.p_sequence = results_.back().probability_analysis->p_total();
         LOG(INFO) << "Finished analysis for sequence: " << sequence.name();
       }
@@ -139,7 +139,11 @@ void RiskAnalysis::RunAnalysis(const mef::Gate& target,
   auto fta = std::make_unique<FaultTreeAnalyzer<Algorithm>>(
       target, Analysis::settings(), model_);
   fta->Analyze();
-  if (Analysis::settings().probability_analysis()) {
+  bool has_products = true;
+#ifndef NDEBUG
+  has_products = !Analysis::settings().preprocessor;
+#endif
+  if (has_products && Analysis::settings().probability_analysis()) {
     switch (Analysis::settings().approximation()) {
       case Approximation::kNone:
         RunAnalysis<Algorithm, Bdd>(fta.get(), result);
-- 
2.43.0


From 1ffd1c0fa53f6b444ce9075934ac8874e14c4ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:33 +0000
Subject: [PATCH 57/91] fix: do not apply unchecked verbosity levels

With --help or --version, the verbosity level is not validated.
---
 src/scram.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scram.cc b/src/scram.cc
index 370ee9b..7e81193 100644
--- a/src/scram.cc
+++ b/src/scram.cc
@@ -357,7 +357,7 @@ int main(int argc, char* argv[]) {
     if (ret == 1)
       return 1;
 
-    if (vm.count("verbosity")) {
+    if (ret == 0 && vm.count("verbosity")) {
       scram::Logger::report_level(
           static_cast<scram::LogLevel>(vm["verbosity"].as<int>()));
     }
-- 
2.43.0


From 6d35cd872ca130a0328b76ff477790a9a6c3fd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 58/91] fix: report failures to write buffered output

The error state of the output was checked before the buffered tail was
written (at fclose or exit), so a full device left a truncated or empty
report or serialised model with exit status 0.
---
 src/reporter.cc      | 4 ++++
 src/serialization.cc | 4 ++++
 src/xml_stream.h     | 5 ++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/reporter.cc b/src/reporter.cc
index 9ff0573..0123c97 100644
--- a/src/reporter.cc
+++ b/src/reporter.cc
@@ -119,6 +119,10 @@ void Reporter::Report(const core::RiskAnalysis& risk_an,
           << boost::errinfo_errno(errno) << boost::errinfo_file_open_mode("w");
     }
     Report(risk_an, fp.get(), indent);
+    if (std::fclose(fp.release()) != 0) {
+      SCRAM_THROW(IOError("Cannot close the output file for report."))
+          << boost::errinfo_errno(errno) << boost::errinfo_file_open_mode("w");
+    }
   } catch (IOError& err) {
     err << boost::errinfo_file_name(file);
     throw;
diff --git a/src/serialization.cc b/src/serialization.cc
index 0ef416c..d0e0899 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -52,6 +52,10 @@ void Serialize(const Model& model, const std::string& file) {
           << boost::errinfo_errno(errno) << boost::errinfo_file_open_mode("w");
     }
     Serialize(model, fp.get());
+    if (std::fclose(fp.release()) != 0) {
+      SCRAM_THROW(IOError("Cannot close the output file for serialization."))
+          << boost::errinfo_errno(errno) << boost::errinfo_file_open_mode("w");
+    }
   } catch (IOError& err) {
     err << boost::errinfo_file_name(file);
     throw;
diff --git a/src/xml_stream.h b/src/xml_stream.h
index b7b38b5..166c4c2 100644
--- a/src/xml_stream.h
+++ b/src/xml_stream.h
@@ -21,6 +21,7 @@
 #pragma once
 
 #include <cassert>
+#include <cerrno>
 #include <cstdio>
 
 #include <algorithm>
@@ -451,7 +452,9 @@ class Stream {
   ///
   /// @post The exception is thrown only if no other exception is on flight.
   ~Stream() noexcept(false) {
-    int err = std::ferror(out_.file());
+    int err = std::fflush(out_.file()) ? errno : 0;
+    if (!err && std::ferror(out_.file()))
+      err = EIO;  // The cause is lost.
     if (err && (std::uncaught_exceptions() == uncaught_exceptions_))
       SCRAM_THROW(IOError("FILE error on write")) << boost::errinfo_errno(err);
   }
-- 
2.43.0


From 2563d895ca2388ff02881068444594adeb6c0af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:40 +0000
Subject: [PATCH 59/91] fix: apply the mission time of analysis settings

A model loaded once and analysed with other settings (as the GUI does)
silently kept the mission time it was loaded with.
---
 src/risk_analysis.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/risk_analysis.cc b/src/risk_analysis.cc
index 7ab7e1c..0d19373 100644
--- a/src/risk_analysis.cc
+++ b/src/risk_analysis.cc
@@ -54,15 +54,19 @@ void RiskAnalysis::RunAnalysis(std::optional<Context> context) {
   std::vector<std::pair<mef::HouseEvent*, bool>> house_events;
   /// Restores the model after application of the context.
   ext::scope_guard restorator(
-      [&house_events, this, init_time = model_->mission_time().value()] {
+      [&house_events, this, init_time = model_->mission_time().value(),
+       total_time = Analysis::settings().mission_time()] {
         model_->mission_time().value(init_time);
-        Analysis::settings().mission_time(init_time);
+        Analysis::settings().mission_time(total_time);
 
         // In reverse because an event may be set more than once.
         for (auto it = house_events.rbegin(); it != house_events.rend(); ++it)
           it->first->state(it->second);
       });
 
+  // The settings may differ from the ones the model is initialized with.
+  model_->mission_time().value(Analysis::settings().mission_time());
+
   if (context) {
     double mission_time =
         context->phase.time_fraction() * model_->mission_time().value();
-- 
2.43.0


From ca1667b237bd6eb339912fb43e7ab7a617d430fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:33 +0000
Subject: [PATCH 60/91] fix: accept CCF groups with factors for only level 1

Alpha- and phi-factor groups may give a single factor for level 1, i.e., only independent failures. Analysis aborted on an assertion.
---
 src/ccf_group.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ccf_group.cc b/src/ccf_group.cc
index f5cf57c..68d15a2 100644
--- a/src/ccf_group.cc
+++ b/src/ccf_group.cc
@@ -148,7 +148,7 @@ void CcfGroup::ApplyModel() {
   }
 
   ExpressionMap probabilities = this->CalculateProbabilities();
-  assert(probabilities.size() > 1);
+  assert(!probabilities.empty());
 
   // Generate CCF events.
   for (auto& [level, prob] : probabilities) {
@@ -176,8 +176,11 @@ void CcfGroup::ApplyModel() {
 
   // Assign formulas to the proxy gates.
   for (std::pair<Gate*, Formula::ArgSet>& gate : proxy_gates) {
-    assert(gate.second.size() >= 2);
-    gate.first->formula(std::make_unique<Formula>(kOr, std::move(gate.second)));
+    assert(!gate.second.empty());
+    // The factors may be given only for independent failures (level 1).
+    Connective connective = gate.second.size() == 1 ? kNull : kOr;
+    gate.first->formula(
+        std::make_unique<Formula>(connective, std::move(gate.second)));
   }
 }
 
-- 
2.43.0


From 56369911db294e91cb343445fdbcfe8d548fa993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:56 +0000
Subject: [PATCH 61/91] fix: accept alpha-factor CCF groups with a single
 factor

The sum of a single factor is the factor itself; addition requires two or more arguments.
---
 src/ccf_group.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ccf_group.cc b/src/ccf_group.cc
index 68d15a2..9b57e1c 100644
--- a/src/ccf_group.cc
+++ b/src/ccf_group.cc
@@ -259,7 +259,9 @@ CcfGroup::ExpressionMap AlphaFactorModel::CalculateProbabilities() {
     sum_args.emplace_back(CcfGroup::Register<Mul>(
         {CcfGroup::Register<ConstantExpression>(factor.first), factor.second}));
   }
-  Expression* sum = CcfGroup::Register<Add>(std::move(sum_args));
+  Expression* sum = sum_args.size() == 1
+                        ? sum_args.front()
+                        : CcfGroup::Register<Add>(std::move(sum_args));
   int num_members = CcfGroup::members().size();
 
   for (int i = 0; i < max_level; ++i) {
-- 
2.43.0


From bec73cc4bd5106e840396d5733727231659d64a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:43 +0000
Subject: [PATCH 62/91] fix: refuse NaN and infinite generator factors

Comparisons with NaN are false, so that such factors passed the range checks.
---
 scripts/fault_tree_generator.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 08538db..084926e 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -112,9 +112,9 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         Raises:
             FactorError: Invalid values or setup.
         """
-        if min_value < 0 or min_value > 1:
+        if not 0 <= min_value <= 1:
             raise FactorError("Min probability must be in [0, 1] range.")
-        if max_value < 0 or max_value > 1:
+        if not 0 <= max_value <= 1:
             raise FactorError("Max probability must be in [0, 1] range.")
         if min_value > max_value:
             raise FactorError("Min probability > Max probability.")
@@ -135,14 +135,14 @@ class Factors:  # pylint: disable=too-many-instance-attributes
             FactorError: Invalid values or setup.
         """
         max_common = 0.9  # a practical limit (not a formal constraint)
-        if common_b <= 0 or common_b > max_common:
+        if not 0 < common_b <= max_common:
             raise FactorError("common_b not in (0, " + str(max_common) + "].")
-        if common_g <= 0 or common_g > max_common:
+        if not 0 < common_g <= max_common:
             raise FactorError("common_g not in (0, " + str(max_common) + "].")
         max_parent = 100  # also a practical limit
-        if parents_b < 2 or parents_b > max_parent:
+        if not 2 <= parents_b <= max_parent:
             raise FactorError("parents_b not in [2, " + str(max_parent) + "].")
-        if parents_g < 2 or parents_g > max_parent:
+        if not 2 <= parents_g <= max_parent:
             raise FactorError("parents_g not in [2, " + str(max_parent) + "].")
         self.common_b = common_b
         self.common_g = common_g
@@ -161,7 +161,7 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         Raises:
             FactorError: Invalid values or setup.
         """
-        if num_args < 2:
+        if not 2 <= num_args < float("inf"):
             raise FactorError("avg. # of gate arguments can't be less than 2.")
         if num_basic < 1:
             raise FactorError("# of basic events must be more than 0.")
@@ -243,8 +243,8 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         """
         if not weights:
             raise FactorError("No weights are provided")
-        if [i for i in weights if i < 0]:
-            raise FactorError("Weights cannot be negative")
+        if [i for i in weights if not 0 <= i < float("inf")]:
+            raise FactorError("Weights cannot be negative or infinite")
         if len(weights) > len(Factors.__OPERATORS):
             raise FactorError("Too many weights are provided")
         if sum(weights) == 0:
-- 
2.43.0


From 34f5633382357ee7b685ae033432cc859cb0e824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:47 +0000
Subject: [PATCH 63/91] fix: report unsatisfiable numbers of generated gates as
 factor errors

Over-constrained factors ended with assertion failures or divisions by zero, and the adjustment of common to twice the minimum always failed its own assertion.
---
 scripts/fault_tree_generator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 084926e..9cf5edd 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -379,16 +379,21 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         alpha = self.__num_gate / self.num_basic
         common = max(self.common_g, self.common_b)
         min_common = 1 - (1 + alpha) / self.num_args / alpha
+        if min_common <= 0:
+            raise FactorError("Not enough gates and avg. # of args "
+                              "to achieve the # of basic events")
         if common < min_common:
             common = round(min_common + 0.05, 1)
         elif common > 2 * min_common:  # Really hope it does not happen
             common = 2 * min_common
-        assert common < 1  # Very brittle configuration here
+        if not min_common < common < 1:  # Very brittle configuration here
+            raise FactorError("Too many gates and avg. # of args "
+                              "for the # of basic events")
 
         self.common_g = common
         self.common_b = common
         parents = 1 / (1 - min_common / common)
-        assert parents > 2  # This is brittle as well
+        assert parents >= 2  # This is brittle as well
         self.parents_g = parents
         self.parents_b = parents
 
-- 
2.43.0


From 1b70998c0cac4c3fcb34975a40a32d1a0e36289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:51 +0000
Subject: [PATCH 64/91] fix: refuse generator factors without room for basic
 events

A non-positive ratio of basic events to gates made the generation endless or negative.
---
 scripts/fault_tree_generator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 9cf5edd..9af33ed 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -212,11 +212,17 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         """Calculates any derived factors from the setup.
 
         This function must be called after all public factors are initialized.
+
+        Raises:
+            FactorError: The factors leave no room for basic events or gates.
         """
         self.__max_args = Factors.__calculate_max_args(self.num_args,
                                                        self.__norm_weights)
         g_factor = 1 - self.common_g + self.common_g / self.parents_g
         self.__ratio = self.num_args * g_factor - 1
+        if self.__ratio <= 0:
+            raise FactorError("Too many common gates "
+                              "for the avg. # of gate arguments.")
         self.__percent_basic = self.__ratio / (1 + self.__ratio)
         self.__percent_gate = 1 / (1 + self.__ratio)
 
-- 
2.43.0


From 8c5de141d58a74dcb394cf53c124dd1c8ece7fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:55 +0000
Subject: [PATCH 65/91] fix: sample at least two arguments for generated gates

The upper bound may be below two with few average arguments and K/N or fixed gates in the mix.
---
 scripts/fault_tree_generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 9af33ed..e8d811d 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -303,6 +303,7 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         # Dealing with the fractional part.
         if random.random() < (self.__max_args - max_args):
             max_args += 1
+        max_args = max(max_args, 2)
 
         if gate.operator == "atleast":
             if max_args < 3:
-- 
2.43.0


From 0f28b499d3f3dd31c7ab82b6838094a797300614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:58 +0000
Subject: [PATCH 66/91] fix: distribute generated house events without eligible
 gates

The search for a target gate never ended if only the top gate could take arguments.
---
 scripts/fault_tree_generator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index e8d811d..3057e0d 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -634,12 +634,13 @@ def distribute_house_events(fault_tree):
     Args:
         fault_tree: The fault tree container of all events and constructs.
     """
+    target_gates = [
+        x for x in fault_tree.gates if x is not fault_tree.top_gate and
+        x.operator != "xor" and x.operator != "not"
+    ] or [fault_tree.top_gate]
     while len(fault_tree.house_events) < fault_tree.factors.num_house:
-        target_gate = random.choice(fault_tree.gates)
-        if (target_gate is not fault_tree.top_gate and
-                target_gate.operator != "xor" and
-                target_gate.operator != "not"):
-            target_gate.add_argument(fault_tree.construct_house_event())
+        target_gate = random.choice(target_gates)
+        target_gate.add_argument(fault_tree.construct_house_event())
 
 
 def generate_ccf_groups(fault_tree):
-- 
2.43.0


From fc3d27e0942ba9f7a3404cd0ba52d00441683b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:01 +0000
Subject: [PATCH 67/91] fix: generate the requested number of CCF groups

Large groups at the beginning could exhaust the basic events.
---
 scripts/fault_tree_generator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 3057e0d..3d9eecb 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -656,10 +656,11 @@ def generate_ccf_groups(fault_tree):
         last_mem = 0
         while len(fault_tree.ccf_groups) < fault_tree.factors.num_ccf:
             max_args = int(2 * fault_tree.factors.num_args - 2)
-            group_size = random.randint(2, max_args)
+            # Leave enough members for the remaining groups.
+            num_left = fault_tree.factors.num_ccf - len(fault_tree.ccf_groups)
+            max_size = len(members) - first_mem - 2 * (num_left - 1)
+            group_size = min(random.randint(2, max_args), max_size)
             last_mem = first_mem + group_size
-            if last_mem > len(members):
-                break
             fault_tree.construct_ccf_group(members[first_mem:last_mem])
             first_mem = last_mem
         fault_tree.non_ccf_events = members[first_mem:]
-- 
2.43.0


From 7772fcd3e6f1881afbe5e08c81fc642105ee525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:05 +0000
Subject: [PATCH 68/91] fix: summarize a generated fault tree of a single gate

There are no gate arguments to average.
---
 scripts/fault_tree_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 3d9eecb..af13184 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -789,7 +789,8 @@ def calculate_complexity_factors(fault_tree):
             num_common_g = len([x for x in gate.g_arguments if x.is_common()])
             common_g += num_common_g / num_g_arguments
     common_b /= len([x for x in fault_tree.gates if x.b_arguments])
-    common_g /= len([x for x in fault_tree.gates if x.g_arguments])
+    # A fault tree may consist of the single top gate.
+    common_g /= len([x for x in fault_tree.gates if x.g_arguments]) or 1
     frac_b /= len(fault_tree.gates)
     return frac_b, common_b, common_g
 
-- 
2.43.0


From a6f0a50efd92edc03e5084ac46c4e86994ad1177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:09 +0000
Subject: [PATCH 69/91] fix: keep the number of generated basic events

The generation kept creating basic events and gates after the number was reached unless common nodes happened to be available, left common nodes without parents, or never ended. Use only existing nodes after the number is reached, give unused common nodes a parent, and refuse fewer basic events than gate arguments.
---
 scripts/fault_tree_generator.py | 50 +++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index af13184..e9a9ba6 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -223,6 +223,9 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         if self.__ratio <= 0:
             raise FactorError("Too many common gates "
                               "for the avg. # of gate arguments.")
+        max_args = max(self.__max_args, 3 if self.__weights_g[2] else 2)
+        if self.num_basic < max_args:
+            raise FactorError("Not enough basic events for gate arguments.")
         self.__percent_basic = self.__ratio / (1 + self.__ratio)
         self.__percent_gate = 1 / (1 + self.__ratio)
 
@@ -518,7 +521,7 @@ def candidate_gates(common_gate):
         yield i
 
 
-def correct_for_exhaustion(gates_queue, common_gate, fault_tree):
+def correct_for_exhaustion(gates_queue, common_basic, common_gate, fault_tree):
     """Corrects the generation for queue exhaustion.
 
     Corner case when not enough new basic events initialized,
@@ -527,35 +530,57 @@ def correct_for_exhaustion(gates_queue, common_gate, fault_tree):
 
     Args:
         gates_queue: A deque of gates to be initialized.
+        common_basic: A list of common basic events.
         common_gate: A list of common gates.
         fault_tree: The fault tree container of all events and constructs.
     """
     if gates_queue:
         return
-    if len(fault_tree.basic_events) < fault_tree.factors.num_basic:
-        # Initialize one more gate
-        # by randomly choosing places in the fault tree.
+
+    def choose_gate():
+        """Randomly chooses places in the fault tree."""
         random_gate = random.choice(fault_tree.gates)
         while (random_gate.operator == "not" or random_gate.operator == "xor" or
                random_gate in common_gate):
             random_gate = random.choice(fault_tree.gates)
+        return random_gate
+
+    orphan_gates = [x for x in common_gate if x.is_orphan()]
+    if orphan_gates:
+        choose_gate().add_argument(orphan_gates[0])
+        gates_queue.append(orphan_gates[0])
+    elif len(fault_tree.basic_events) < fault_tree.factors.num_basic:
+        # Initialize one more gate
+        target_gate = choose_gate()
         new_gate = fault_tree.construct_gate()
-        random_gate.add_argument(new_gate)
+        target_gate.add_argument(new_gate)
         gates_queue.append(new_gate)
+    else:
+        for basic_event in common_basic:
+            if basic_event.is_orphan():
+                choose_gate().add_argument(basic_event)
 
 
-def choose_basic_event(s_common, common_basic, fault_tree):
+def choose_basic_event(s_common, common_basic, gate, fault_tree):
     """Creates a new basic event or uses a common one for gate arguments.
 
     Args:
         s_common: Sampled factor to choose common basic events.
         common_basic: A list of common basic events to choose from.
+        gate: The parent gate for the basic event.
         fault_tree: The fault tree container of all events and constructs.
 
     Returns:
         Basic event argument for a gate.
     """
-    if s_common >= fault_tree.factors.common_b or not common_basic:
+    if len(fault_tree.basic_events) >= fault_tree.factors.num_basic:
+        # No new basic events, and the gate must get a different argument.
+        common_basic = ([x for x in common_basic if x not in gate.b_arguments]
+                        or [
+                            x for x in fault_tree.basic_events
+                            if x not in gate.b_arguments
+                        ])
+    elif s_common >= fault_tree.factors.common_b or not common_basic:
         return fault_tree.construct_basic_event()
 
     orphans = [x for x in common_basic if not x.parents]
@@ -595,10 +620,13 @@ def init_gates(gates_queue, common_basic, common_gate, fault_tree):
         s_common = random.random()  # sample the reuse frequency
 
         # Case when the number of basic events is already satisfied
-        if len(fault_tree.basic_events) == fault_tree.factors.num_basic:
+        is_exhausted = (len(fault_tree.basic_events) >=
+                        fault_tree.factors.num_basic)
+        if is_exhausted:
             s_common = 0  # use only common nodes
 
-        if s_percent < fault_tree.factors.get_percent_gate():
+        if (s_percent < fault_tree.factors.get_percent_gate() and
+                not (is_exhausted and num_tries >= max_tries)):
             # Create a new gate or use a common one
             if s_common < fault_tree.factors.common_g and num_tries < max_tries:
                 # Lazy evaluation of ancestors
@@ -623,9 +651,9 @@ def init_gates(gates_queue, common_basic, common_gate, fault_tree):
                 gates_queue.append(new_gate)
         else:
             gate.add_argument(
-                choose_basic_event(s_common, common_basic, fault_tree))
+                choose_basic_event(s_common, common_basic, gate, fault_tree))
 
-    correct_for_exhaustion(gates_queue, common_gate, fault_tree)
+    correct_for_exhaustion(gates_queue, common_basic, common_gate, fault_tree)
 
 
 def distribute_house_events(fault_tree):
-- 
2.43.0


From 55100f05ebb01b6c454c2015abf61598c55196d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:26 +0000
Subject: [PATCH 70/91] fix: do not nest NOT of an event that is already an
 argument

scram refuses formulas that have an event and its complement, or the same complement twice, as duplicate arguments.
---
 scripts/fault_tree.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/scripts/fault_tree.py b/scripts/fault_tree.py
index 0e7dd3a..2d28cf0 100644
--- a/scripts/fault_tree.py
+++ b/scripts/fault_tree.py
@@ -150,6 +150,11 @@ class Gate(Event):  # pylint: disable=too-many-instance-attributes
             len(x) for x in (self.b_arguments, self.h_arguments,
                              self.g_arguments, self.u_arguments))
 
+    def all_arguments(self):
+        """Returns a new set of all the arguments."""
+        return (self.b_arguments | self.h_arguments | self.g_arguments |
+                self.u_arguments)
+
     def add_argument(self, argument):
         """Adds argument into a collection of gate arguments.
 
@@ -217,10 +222,16 @@ class Gate(Event):  # pylint: disable=too-many-instance-attributes
             mef_xml += args_to_xml("basic-event", gate.b_arguments)
             mef_xml += args_to_xml("event", gate.u_arguments)
 
+            # An event can be an argument of a formula only once.
+            used_args = gate.all_arguments()
+
             def converter(arg_gate):
                 """Converter for single nesting NOT connective."""
                 if gate.operator != "not" and arg_gate.operator == "not":
-                    return convert_formula(arg_gate)
+                    nested_args = arg_gate.all_arguments()
+                    if not nested_args & used_args:
+                        used_args.update(nested_args)
+                        return convert_formula(arg_gate)
                 return arg_to_xml("gate", arg_gate)
 
             if nest:
-- 
2.43.0


From 5ad6c9ef32e6305d8f5362698c1202f45c60c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 71/91] fix: adjust common factors equal to the minimum for
 constrained gates

Equality leaves no room for parents just like smaller values.
---
 scripts/fault_tree_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index e9a9ba6..54e13f0 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -392,7 +392,7 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         if min_common <= 0:
             raise FactorError("Not enough gates and avg. # of args "
                               "to achieve the # of basic events")
-        if common < min_common:
+        if common <= min_common:
             common = round(min_common + 0.05, 1)
         elif common > 2 * min_common:  # Really hope it does not happen
             common = 2 * min_common
-- 
2.43.0


From 512f62c302a85ac965bc5645b310d2d1885ca5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:03 +0000
Subject: [PATCH 72/91] fix: restore the original flavor attribute upon undo

SetFlavor only remembered the Basic/Undeveloped flavor, so undoing it dropped an explicit
'basic' or 'conditional' flavor attribute and the type of an 'undeveloped' one.
---
 gui/model.cpp | 18 +++++++++++-------
 gui/model.h   |  2 ++
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/gui/model.cpp b/gui/model.cpp
index 30763c2..16883be 100644
--- a/gui/model.cpp
+++ b/gui/model.cpp
@@ -76,6 +76,13 @@ BasicEvent::SetFlavor::SetFlavor(BasicEvent *basicEvent, Flavor flavor)
                      .arg(basicEvent->id(), flavorToString(flavor))),
       m_flavor(flavor), m_basicEvent(basicEvent)
 {
+    switch (m_flavor) {
+    case Basic:
+        break;
+    case Undeveloped:
+        m_attribute = mef::Attribute{"flavor", "undeveloped", ""};
+        break;
+    }
 }
 
 void BasicEvent::SetFlavor::redo()
@@ -85,14 +92,11 @@ void BasicEvent::SetFlavor::redo()
         return;
 
     mef::Element *mefEvent = m_basicEvent->data();
-    switch (m_flavor) {
-    case Basic:
+    std::optional<mef::Attribute> cur_attribute =
         mefEvent->RemoveAttribute("flavor");
-        break;
-    case Undeveloped:
-        mefEvent->SetAttribute({"flavor", "undeveloped", ""});
-        break;
-    }
+    if (m_attribute)
+        mefEvent->SetAttribute(std::move(*m_attribute));
+    m_attribute = std::move(cur_attribute);
     m_basicEvent->m_flavor = m_flavor;
     emit m_basicEvent->flavorChanged(m_flavor);
     m_flavor = cur_flavor;
diff --git a/gui/model.h b/gui/model.h
index e13b6ab..a3b6878 100644
--- a/gui/model.h
+++ b/gui/model.h
@@ -258,6 +258,8 @@ public:
     private:
         Flavor m_flavor;          ///< The basic event flavor.
         BasicEvent *m_basicEvent; ///< The target basic event.
+        /// The attribute for the flavor to be applied.
+        std::optional<mef::Attribute> m_attribute;
     };
 
 signals:
-- 
2.43.0


From fccae5a5021c9a19ad5491a67d292d00adb5ba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:12 +0000
Subject: [PATCH 73/91] fix: remove the row of the removed element from GUI
 tables

The removal announced the last row as removed and then moved the last
element into the freed row, so the persistent indexes and the children
that proxies and views track by the element address pointed to the
removed element (assertion failure or stale rows).
---
 gui/elementcontainermodel.cpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/gui/elementcontainermodel.cpp b/gui/elementcontainermodel.cpp
index c770167..3dfc933 100644
--- a/gui/elementcontainermodel.cpp
+++ b/gui/elementcontainermodel.cpp
@@ -92,21 +92,17 @@ void ElementContainerModel::addElement(Element *element)
 
 void ElementContainerModel::removeElement(Element *element)
 {
-    GUI_ASSERT(m_elementToIndex.count(element), );
-    int index = m_elementToIndex.find(element)->second;
-    int lastIndex = m_elements.size() - 1;
-    auto *lastElement = m_elements.back();
-    // The following is basically a swap with the last item.
-    beginRemoveRows({}, lastIndex, lastIndex);
-    m_elementToIndex.erase(element);
-    m_elements.pop_back();
+    auto it = m_elementToIndex.find(element);
+    GUI_ASSERT(it != m_elementToIndex.end(), );
+    int index = it->second;
+    // The views track the rows (and their children) by the element addresses;
+    // therefore, the removed row must be the row of the element.
+    beginRemoveRows({}, index, index);
+    m_elementToIndex.erase(it);
+    m_elements.erase(m_elements.begin() + index);
+    for (int i = index; i < m_elements.size(); ++i)
+        m_elementToIndex[m_elements[i]] = i;
     endRemoveRows();
-    if (index != lastIndex) {
-        m_elements[index] = lastElement;
-        m_elementToIndex[lastElement] = index;
-        emit dataChanged(createIndex(index, 0, lastElement),
-                         createIndex(index, columnCount() - 1, lastElement));
-    }
     disconnect(element, 0, this, 0);
 }
 
-- 
2.43.0


From a13bf2300dc17e262692e8a8c78c1c284e92cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:34 +0000
Subject: [PATCH 74/91] fix: announce renamed arguments in the GUI gate table

The rows under a gate show its argument events by name,
but the gate table did not notify about the rename of an argument,
so views and proxies kept showing the old name.
---
 gui/elementcontainermodel.cpp | 29 ++++++++++++++++++++++++++++-
 gui/elementcontainermodel.h   | 18 ++++++++++++++++++
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/gui/elementcontainermodel.cpp b/gui/elementcontainermodel.cpp
index 3dfc933..5886e51 100644
--- a/gui/elementcontainermodel.cpp
+++ b/gui/elementcontainermodel.cpp
@@ -259,10 +259,37 @@ void HouseEventContainerModel::connectElement(Element *element)
 }
 
 GateContainerModel::GateContainerModel(Model *model, QObject *parent)
-    : ElementContainerModel(model->gates(), model, parent)
+    : ElementContainerModel(model->gates(), model, parent), m_model(model)
 {
     for (Element *element : elements())
         connectElement(element);
+    connectArguments(model->gates());
+    connectArguments(model->basicEvents());
+    connectArguments(model->houseEvents());
+}
+
+template <class T>
+void GateContainerModel::connectArgument(T *event)
+{
+    connect(event, &Element::idChanged, this, [this, event] {
+        for (Gate *gate : m_model->parents(event->data())) {
+            QModelIndex parent = createIndex(getElementIndex(gate), 0, gate);
+            QModelIndex first = index(0, 0, parent);
+            QModelIndex last = index(gate->numArgs() - 1, 0, parent);
+            emit dataChanged(first, last);
+        }
+    });
+}
+
+template <class T>
+void GateContainerModel::connectArguments(const ProxyTable<T> &events)
+{
+    for (const std::unique_ptr<T> &event : events)
+        connectArgument(event.get());
+    connect(m_model, qOverload<T *>(&Model::added), this,
+            &GateContainerModel::connectArgument<T>);
+    connect(m_model, qOverload<T *>(&Model::removed), this,
+            [this](T *event) { disconnect(event, 0, this, 0); });
 }
 
 void GateContainerModel::connectElement(Element *element)
diff --git a/gui/elementcontainermodel.h b/gui/elementcontainermodel.h
index 9a1f78c..fec493d 100644
--- a/gui/elementcontainermodel.h
+++ b/gui/elementcontainermodel.h
@@ -194,6 +194,24 @@ private:
     static const std::uintptr_t m_parentMask = 1; ///< Tagged parent pointer.
 
     void connectElement(Element *element) final;
+
+    /// Tracks the name of an event shown as an argument of the gates.
+    ///
+    /// @tparam T  The proxy event type.
+    ///
+    /// @param[in] event  The event in the model.
+    template <class T>
+    void connectArgument(T *event);
+
+    /// Connects the current and future events of the model.
+    ///
+    /// @tparam T  The proxy event type.
+    ///
+    /// @param[in] events  The current events in the model.
+    template <class T>
+    void connectArguments(const ProxyTable<T> &events);
+
+    Model *m_model; ///< The model with the argument events.
 };
 
 /// The proxy model specialized for the gate tree-table.
-- 
2.43.0


From 5278d1ffa3e40f3a660b0becbe33f99a23e67ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:44 +0000
Subject: [PATCH 75/91] fix: reset the GUI gate table without a stale data
 change

The gate table announced changed data of a row whose number of
arguments had already changed before resetting the model.
A sorting proxy answers the data change with a layout change
while it still maps the old arguments,
so a view or client reading the rows accesses removed arguments.
---
 gui/elementcontainermodel.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gui/elementcontainermodel.cpp b/gui/elementcontainermodel.cpp
index 5886e51..478fd2f 100644
--- a/gui/elementcontainermodel.cpp
+++ b/gui/elementcontainermodel.cpp
@@ -296,10 +296,7 @@ void GateContainerModel::connectElement(Element *element)
 {
     ElementContainerModel::connectElement(element);
     connect(static_cast<Gate *>(element), &Gate::formulaChanged, this,
-            [this, element] {
-                int row = getElementIndex(element);
-                emit dataChanged(createIndex(row, 1, element),
-                                 createIndex(row, 2, element));
+            [this] {
                 /// @todo Track gate formula changes more precisely.
                 beginResetModel();
                 endResetModel();
-- 
2.43.0


From b486e23bcf96abf711386555720339d321229888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:49 +0000
Subject: [PATCH 76/91] fix: validate GUI numbers in the locale of their
 conversion

The number validators followed the system locale with group separators,
but the dialogs convert the accepted text with QString::toDouble
(the C locale, no group separators),
so entries like "1,000" (or "0,5" with a decimal comma)
were accepted and silently became 0.
---
 gui/validator.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/gui/validator.cpp b/gui/validator.cpp
index 200395a..d84fc6d 100644
--- a/gui/validator.cpp
+++ b/gui/validator.cpp
@@ -23,11 +23,30 @@
 #include <limits>
 
 #include <QDoubleValidator>
+#include <QLocale>
 #include <QRegularExpression>
 #include <QRegularExpressionValidator>
 
 namespace scram::gui {
 
+namespace {
+
+/// The dialogs convert the accepted text to numbers in the C locale
+/// without group separators; therefore, the text must be validated likewise.
+class DoubleValidator : public QDoubleValidator
+{
+public:
+    DoubleValidator(double bottom, double top)
+        : QDoubleValidator(bottom, top, /*decimals=*/1000)
+    {
+        QLocale locale = QLocale::c();
+        locale.setNumberOptions(QLocale::RejectGroupSeparator);
+        setLocale(locale);
+    }
+};
+
+} // namespace
+
 const QValidator *Validator::name()
 {
     static const QRegularExpressionValidator nameValidator(
@@ -45,14 +64,14 @@ const QValidator *Validator::percent()
 
 const QValidator *Validator::probability()
 {
-    static const QDoubleValidator probabilityValidator(0, 1, 1000);
+    static const DoubleValidator probabilityValidator(0, 1);
     return &probabilityValidator;
 }
 
 const QValidator *Validator::nonNegative()
 {
-    static const QDoubleValidator nonNegativeValidator(
-        0, std::numeric_limits<double>::max(), 1000);
+    static const DoubleValidator nonNegativeValidator(
+        0, std::numeric_limits<double>::max());
     return &nonNegativeValidator;
 }
 
-- 
2.43.0


From 613f1ede06ffd242f7bdf70b93e3f169a1eff872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:56 +0000
Subject: [PATCH 77/91] fix: refuse GUI names that XML cannot represent

The name validator accepted every Unicode letter and number,
but the identifiers in MEF files are XML names (NCName),
so elements named with the other letters (e.g. the micro sign or
superscript digits) made the saved file unreadable.
---
 gui/validator.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/gui/validator.cpp b/gui/validator.cpp
index d84fc6d..873da15 100644
--- a/gui/validator.cpp
+++ b/gui/validator.cpp
@@ -27,10 +27,29 @@
 #include <QRegularExpression>
 #include <QRegularExpressionValidator>
 
+#include <libxml/tree.h>
+
 namespace scram::gui {
 
 namespace {
 
+/// Some of the Unicode letters and numbers are not allowed in XML names;
+/// files saved with these names would be refused upon the next opening.
+class NameValidator : public QRegularExpressionValidator
+{
+public:
+    using QRegularExpressionValidator::QRegularExpressionValidator;
+
+    State validate(QString &input, int &pos) const override
+    {
+        if (!input.isEmpty()
+            && xmlValidateNCName(BAD_CAST input.toUtf8().constData(),
+                                 /*space=*/0) != 0)
+            return Invalid;
+        return QRegularExpressionValidator::validate(input, pos);
+    }
+};
+
 /// The dialogs convert the accepted text to numbers in the C locale
 /// without group separators; therefore, the text must be validated likewise.
 class DoubleValidator : public QDoubleValidator
@@ -49,7 +68,7 @@ public:
 
 const QValidator *Validator::name()
 {
-    static const QRegularExpressionValidator nameValidator(
+    static const NameValidator nameValidator(
         QRegularExpression(QStringLiteral(R"([[:alpha:]]\w*(-\w+)*)"),
                            QRegularExpression::UseUnicodePropertiesOption));
     return &nameValidator;
-- 
2.43.0


From 524d32b9f7bbe9f6ddf70374ef5a937c566a6282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:03 +0000
Subject: [PATCH 78/91] fix: pass the min number to at-least formulas from the
 GUI dialog

The lambda dropped the number, so that adding or editing an at-least gate
constructed an invalid formula.
---
 gui/mainwindow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index de5286b..de3f208 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -1134,7 +1134,7 @@ std::unique_ptr<mef::Formula> MainWindow::extract(const EventDialog &dialog)
     mef::Connective connective = dialog.connective();
     auto minNumber = [&connective, &dialog]() -> std::optional<int> {
         if (connective == mef::kAtleast)
-            dialog.minNumber();
+            return dialog.minNumber();
         return {};
     }();
     return std::make_unique<mef::Formula>(connective, std::move(arg_set),
-- 
2.43.0


From 1982ea3a8f3fe4e3cf4c9896beabf9d027395580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:13 +0000
Subject: [PATCH 79/91] fix: show the min number of at-least gates in the GUI
 dialog

The number was set before the arguments that determine its upper limit,
so that numbers above 2 were silently clamped.
---
 gui/eventdialog.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gui/eventdialog.cpp b/gui/eventdialog.cpp
index 0897563..ec83e9b 100644
--- a/gui/eventdialog.cpp
+++ b/gui/eventdialog.cpp
@@ -309,12 +309,15 @@ void EventDialog::setupData(const model::Gate &element)
     }
 
     connectiveBox->setCurrentIndex(element.type());
-    if (element.minNumber())
-        minNumberBox->setValue(*element.minNumber());
     for (const mef::Formula::Arg &arg : element.args())
         argsList->addItem(QString::fromStdString(
             ext::as<const mef::Event *>(arg.event)->id()));
     emit formulaArgsChanged(); ///< @todo Bogus signal order conflicts.
+    // The arguments determine the upper limit of the min number.
+    if (element.minNumber()) {
+        minNumberBox->setValue(*element.minNumber());
+        validate();
+    }
 }
 
 std::unique_ptr<mef::Expression> EventDialog::expression() const
-- 
2.43.0


From 890645986f1a25fe4ff75bb4522bda257d31cca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:23 +0000
Subject: [PATCH 80/91] fix: show expression values with full precision in the
 GUI dialog

The dialog showed six digits, so that accepting it without a change
replaced probabilities and rates with their rounded values.
---
 gui/eventdialog.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gui/eventdialog.cpp b/gui/eventdialog.cpp
index ec83e9b..3294907 100644
--- a/gui/eventdialog.cpp
+++ b/gui/eventdialog.cpp
@@ -21,6 +21,7 @@
 
 #include <QCompleter>
 #include <QListView>
+#include <QLocale>
 #include <QObject>
 #include <QPushButton>
 #include <QShortcut>
@@ -279,14 +280,16 @@ void EventDialog::setupData(const model::BasicEvent &element)
         if (auto *constExpr = dynamic_cast<mef::ConstantExpression *>(
                 &basicEvent.expression())) {
             expressionType->setCurrentIndex(0);
-            constantValue->setText(QString::number(constExpr->value()));
+            constantValue->setText(QString::number(
+                constExpr->value(), 'g', QLocale::FloatingPointShortest));
         } else {
             auto *exponentialExpr =
                 dynamic_cast<mef::Exponential *>(&basicEvent.expression());
             GUI_ASSERT(exponentialExpr, );
             expressionType->setCurrentIndex(1);
             exponentialRate->setText(
-                QString::number(exponentialExpr->args().front()->value()));
+                QString::number(exponentialExpr->args().front()->value(), 'g',
+                                QLocale::FloatingPointShortest));
         }
     } else {
         expressionBox->setChecked(false);
-- 
2.43.0


From 736f7499fdcb0a64dde2d258d50129e0b3292e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:44 +0000
Subject: [PATCH 81/91] fix: do not accept incomplete model names in the GUI

The dialog accepted intermediate input like 'a-' that the schema refuses,
so that the saved model could not be opened.
---
 gui/mainwindow.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index de3f208..392384f 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -32,6 +32,7 @@
 #include <QMessageBox>
 #include <QPrinter>
 #include <QProgressDialog>
+#include <QPushButton>
 #include <QtConcurrent>
 #include <QtOpenGL>
 
@@ -76,6 +77,12 @@ public:
     {
         setupUi(this);
         nameLine->setValidator(Validator::name());
+        // Incomplete names must not be accepted; an empty one is the default.
+        connect(nameLine, &QLineEdit::textChanged, this, [this] {
+            buttonBox->button(QDialogButtonBox::Ok)
+                ->setEnabled(nameLine->text().isEmpty()
+                             || nameLine->hasAcceptableInput());
+        });
     }
 };
 
-- 
2.43.0


From 7417348988c6363c0d60ed9ad36bf13f722fafba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:53 +0000
Subject: [PATCH 82/91] fix: validate formula arguments added with the button

The button bypassed the validator and added incomplete names like 'a-'.
---
 gui/eventdialog.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gui/eventdialog.cpp b/gui/eventdialog.cpp
index 3294907..2922772 100644
--- a/gui/eventdialog.cpp
+++ b/gui/eventdialog.cpp
@@ -112,6 +112,8 @@ EventDialog::EventDialog(mef::Model *model, QWidget *parent)
         if (name.isEmpty())
             return;
         addArgLine->setStyleSheet(yellowBackground);
+        if (addArgLine->hasAcceptableInput() == false)
+            return; // The button does not go through the line validation.
         if (hasFormulaArg(name)) {
             m_errorBar->showMessage(
                 //: Duplicate arguments are not allowed in a formula.
-- 
2.43.0


From d82bcec66d18d067fd793b0c9ec7da525427fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:12 +0000
Subject: [PATCH 83/91] fix: remove the temporary file upon failed GUI saves

---
 gui/mainwindow.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index 392384f..f540d8e 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -690,6 +690,8 @@ bool MainWindow::saveToFile(std::string destination)
                 << boost::errinfo_errno(err.code().value());
         }
     } catch (const IOError &err) {
+        boost::system::error_code ignored;
+        fs::remove(temp_file, ignored);
         displayError(err, _("Save error", "error on saving to file"), this);
         return false;
     }
-- 
2.43.0


From 3adf02f441a2b8cd080a56d9eaeb0875a225d4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:12 +0000
Subject: [PATCH 84/91] fix: drop characters of GUI labels that XML cannot
 represent

Labels with control characters made the saved file ill-formed.
---
 gui/eventdialog.cpp | 14 ++++++++++++++
 gui/eventdialog.h   |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/gui/eventdialog.cpp b/gui/eventdialog.cpp
index 2922772..ed3925e 100644
--- a/gui/eventdialog.cpp
+++ b/gui/eventdialog.cpp
@@ -19,6 +19,9 @@
 
 #include "eventdialog.h"
 
+#include <algorithm>
+#include <iterator>
+
 #include <QCompleter>
 #include <QListView>
 #include <QLocale>
@@ -179,6 +182,17 @@ EventDialog::EventDialog(mef::Model *model, QWidget *parent)
     connect(this, &EventDialog::validated, okButton, &QPushButton::setEnabled);
 }
 
+QString EventDialog::label() const
+{
+    QString text = labelText->toPlainText();
+    // Pasted control characters cannot be represented in XML.
+    auto it = std::remove_if(text.begin(), text.end(), [](QChar c) {
+        return (c < QLatin1Char(' ') && !c.isSpace()) || c.unicode() >= 0xFFFE;
+    });
+    text.truncate(static_cast<int>(std::distance(text.begin(), it)));
+    return text.simplified();
+}
+
 std::vector<std::string> EventDialog::arguments() const
 {
     std::vector<std::string> result;
diff --git a/gui/eventdialog.h b/gui/eventdialog.h
index c1da1ae..a13806d 100644
--- a/gui/eventdialog.h
+++ b/gui/eventdialog.h
@@ -93,7 +93,7 @@ public:
     /// @returns The name data.
     QString name() const { return nameLine->text(); }
     /// @returns The label data.
-    QString label() const { return labelText->toPlainText().simplified(); }
+    QString label() const;
 
     /// @returns The Boolean constant data.
     bool booleanConstant() const { return stateBox->currentIndex(); }
-- 
2.43.0


From dcb2198fc7327a72881f1872e69edcf9499e4ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:34 +0000
Subject: [PATCH 85/91] fix: report invalid models of projects in the GUI

The validity errors escaped as internal errors.
---
 gui/mainwindow.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index f540d8e..5575b8a 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -278,6 +278,10 @@ bool MainWindow::setProjectFile(const std::string &projectFilePath,
         displayError(err, _("Version Error"), _("Version incompatibility"),
                      this);
         return false;
+    } catch (const scram::mef::ValidityError &err) {
+        displayError(err, _("Initialization Error"), _("Invalid input model"),
+                     this);
+        return false;
     }
     return true;
 }
-- 
2.43.0


From f8068bdfb7ba94a640728cc570a09a8bfc59ff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:15 +0000
Subject: [PATCH 86/91] fix: keep the time of exponential expressions upon GUI
 edits

A new rate silently replaced the time with the system mission time.
---
 gui/eventdialog.cpp | 5 +++--
 gui/eventdialog.h   | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gui/eventdialog.cpp b/gui/eventdialog.cpp
index ed3925e..39ecd01 100644
--- a/gui/eventdialog.cpp
+++ b/gui/eventdialog.cpp
@@ -303,6 +303,7 @@ void EventDialog::setupData(const model::BasicEvent &element)
                 dynamic_cast<mef::Exponential *>(&basicEvent.expression());
             GUI_ASSERT(exponentialExpr, );
             expressionType->setCurrentIndex(1);
+            m_time = exponentialExpr->args().back();
             exponentialRate->setText(
                 QString::number(exponentialExpr->args().front()->value(), 'g',
                                 QLocale::FloatingPointShortest));
@@ -355,8 +356,8 @@ std::unique_ptr<mef::Expression> EventDialog::expression() const
             new mef::ConstantExpression(exponentialRate->text().toDouble()));
         auto *rate_arg = rate.get();
         m_model->Add(std::move(rate));
-        return std::make_unique<mef::Exponential>(rate_arg,
-                                                  &m_model->mission_time());
+        return std::make_unique<mef::Exponential>(
+            rate_arg, m_time ? m_time : &m_model->mission_time());
     }
     default:
         GUI_ASSERT(false && "unexpected expression", nullptr);
diff --git a/gui/eventdialog.h b/gui/eventdialog.h
index a13806d..61ab3f8 100644
--- a/gui/eventdialog.h
+++ b/gui/eventdialog.h
@@ -189,6 +189,7 @@ private:
     QStatusBar *m_errorBar; ///< The bar for error/validation messages.
     QString m_initName;     ///< The name not validated for duplicates.
     const mef::Element *m_event = nullptr; ///< Set only for existing events.
+    mef::Expression *m_time = nullptr; ///< The time of existing exponentials.
     bool m_fixContainerName = false; ///< @todo Implement fault tree change.
 };
 
-- 
2.43.0


From 73695cce34b368eae7e62afe530a1956d3407198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:34 +0000
Subject: [PATCH 87/91] fix: edit basic events with the mission time expression
 in the GUI

The GUI schema accepts the system mission time as an expression, but the
dialog failed its assertion upon opening for these events.
---
 gui/eventdialog.cpp | 11 +++++++----
 gui/mainwindow.cpp  |  2 ++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/gui/eventdialog.cpp b/gui/eventdialog.cpp
index 39ecd01..773ab4c 100644
--- a/gui/eventdialog.cpp
+++ b/gui/eventdialog.cpp
@@ -298,15 +298,18 @@ void EventDialog::setupData(const model::BasicEvent &element)
             expressionType->setCurrentIndex(0);
             constantValue->setText(QString::number(
                 constExpr->value(), 'g', QLocale::FloatingPointShortest));
-        } else {
-            auto *exponentialExpr =
-                dynamic_cast<mef::Exponential *>(&basicEvent.expression());
-            GUI_ASSERT(exponentialExpr, );
+        } else if (auto *exponentialExpr = dynamic_cast<mef::Exponential *>(
+                       &basicEvent.expression())) {
             expressionType->setCurrentIndex(1);
             m_time = exponentialExpr->args().back();
             exponentialRate->setText(
                 QString::number(exponentialExpr->args().front()->value(), 'g',
                                 QLocale::FloatingPointShortest));
+        } else { // The system mission time.
+            expressionType->setCurrentIndex(0);
+            constantValue->setText(
+                QString::number(basicEvent.expression().value(), 'g',
+                                QLocale::FloatingPointShortest));
         }
     } else {
         expressionBox->setChecked(false);
diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index 5575b8a..024649c 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -1293,6 +1293,8 @@ void MainWindow::editElement(EventDialog *dialog, model::BasicEvent *element)
 
         auto *exp_lhs = dynamic_cast<mef::Exponential *>(lhs);
         auto *exp_rhs = dynamic_cast<mef::Exponential *>(rhs);
+        if (const_lhs && !exp_rhs && const_lhs->value() == rhs->value())
+            return true; // The dialog shows the mission time as its value.
         if (exp_lhs && exp_rhs
             && exp_lhs->args().front()->value()
                    == exp_rhs->args().front()->value())
-- 
2.43.0


From 3a43aaaac5f285fe6a85d3c5fe3da89a8fc3ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 88/91] fix: keep settings without GUI controls upon accepting
 the dialog

The settings of projects that the dialog does not control (cut-off, seed,
uncertainty, etc.) and values beyond the limits of its controls were reset
to defaults even if nothing was changed in the dialog.
---
 gui/settingsdialog.cpp | 19 ++++++++++++++-----
 gui/settingsdialog.h   |  3 +++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/gui/settingsdialog.cpp b/gui/settingsdialog.cpp
index 0a13163..619ec04 100644
--- a/gui/settingsdialog.cpp
+++ b/gui/settingsdialog.cpp
@@ -28,7 +28,8 @@ namespace scram::gui {
 
 SettingsDialog::SettingsDialog(const core::Settings &initSettings,
                                QWidget *parent)
-    : QDialog(parent), ui(new Ui::SettingsDialog)
+    : QDialog(parent), ui(new Ui::SettingsDialog),
+      m_settings(initSettings)
 {
     ui->setupUi(this);
     setupState(initSettings);
@@ -39,7 +40,7 @@ SettingsDialog::~SettingsDialog() = default;
 
 core::Settings SettingsDialog::settings() const
 {
-    core::Settings result;
+    core::Settings result = m_settings;
     try {
         if (ui->bdd->isChecked()) {
             result.algorithm(core::Algorithm::kBdd);
@@ -51,8 +52,12 @@ core::Settings SettingsDialog::settings() const
         }
 
         result.prime_implicants(ui->primeImplicants->isChecked());
-        result.probability_analysis(ui->probability->isChecked());
         result.importance_analysis(ui->importance->isChecked());
+        if (ui->probability->isChecked() == false) {
+            result.uncertainty_analysis(false);
+            result.safety_integrity_levels(false);
+        }
+        result.probability_analysis(ui->probability->isChecked());
 
         if (ui->approximationsBox->isChecked() == false) {
             result.approximation(core::Approximation::kNone);
@@ -63,8 +68,10 @@ core::Settings SettingsDialog::settings() const
             result.approximation(core::Approximation::kMcub);
         }
 
-        result.limit_order(ui->productOrder->value());
-        result.mission_time(ui->missionTime->value());
+        if (ui->productOrder->value() != m_productOrder)
+            result.limit_order(ui->productOrder->value());
+        if (ui->missionTime->value() != m_missionTime)
+            result.mission_time(ui->missionTime->value());
     } catch (const Error &err) {
         GUI_ASSERT(false && err.what(), result);
     }
@@ -78,6 +85,8 @@ void SettingsDialog::setupState(const core::Settings &initSettings)
     ui->importance->setChecked(initSettings.importance_analysis());
     ui->missionTime->setValue(initSettings.mission_time());
     ui->productOrder->setValue(initSettings.limit_order());
+    m_missionTime = ui->missionTime->value();
+    m_productOrder = ui->productOrder->value();
 
     switch (initSettings.algorithm()) {
     case core::Algorithm::kBdd:
diff --git a/gui/settingsdialog.h b/gui/settingsdialog.h
index 1ceb2fd..1e52273 100644
--- a/gui/settingsdialog.h
+++ b/gui/settingsdialog.h
@@ -55,6 +55,9 @@ private:
     void setupConnections();
 
     std::unique_ptr<Ui::SettingsDialog> ui; ///< The dialog UI.
+    core::Settings m_settings; ///< The settings out of the dialog control.
+    double m_missionTime; ///< The initially displayed (limited) value.
+    int m_productOrder; ///< The initially displayed (limited) value.
 };
 
 } // namespace scram::gui
-- 
2.43.0


From cde08acffca5035bc11253ca829b4762e0c386d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 89/91] fix: normalize fault trees in the GUI model

The GUI commands manage only gates in fault trees and assume that the
other events belong to the model only; but an event defined in a fault
tree stayed in the tables of the tree after its removal, so that the
change of its type into a gate failed with an uncaught exception.
---
 gui/model.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gui/model.cpp b/gui/model.cpp
index 16883be..ba25b3e 100644
--- a/gui/model.cpp
+++ b/gui/model.cpp
@@ -148,6 +148,14 @@ Model::Model(mef::Model *model) : Element(model), m_model(model)
     populate<HouseEvent>(m_model->table<mef::HouseEvent>(), &m_houseEvents);
     populate<BasicEvent>(m_model->table<mef::BasicEvent>(), &m_basicEvents);
     populate<Gate>(m_model->table<mef::Gate>(), &m_gates);
+
+    // Normalization: the commands manage only gates in fault trees.
+    for (mef::FaultTree &faultTree : m_model->table<mef::FaultTree>()) {
+        while (!faultTree.house_events().empty())
+            faultTree.Remove(&*faultTree.table<mef::HouseEvent>().begin());
+        while (!faultTree.basic_events().empty())
+            faultTree.Remove(&*faultTree.table<mef::BasicEvent>().begin());
+    }
 }
 
 std::vector<Gate *> Model::parents(mef::Formula::ArgEvent event) const
-- 
2.43.0


From b17cb8dfe6a56d39652e69b7d53c8f0d7be46afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:27 +0000
Subject: [PATCH 90/91] fix: compare terminal vertices consistently in the ZBDD
 argument sort

The comparator put a terminal vertex before any other vertex,
another terminal vertex included,
which is not a strict weak ordering.
std::sort may read outside of its range with such a comparator.
---
 src/zbdd.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zbdd.cc b/src/zbdd.cc
index 25ba6fe..b139ec2 100644
--- a/src/zbdd.cc
+++ b/src/zbdd.cc
@@ -348,10 +348,10 @@ Zbdd::VertexPtr Zbdd::ConvertGraph(
     }
   }
   boost::sort(args, [](const VertexPtr& lhs, const VertexPtr& rhs) {
-    if (lhs->terminal())
-      return true;
     if (rhs->terminal())
       return false;
+    if (lhs->terminal())
+      return true;
     return SetNode::Ref(lhs).order() > SetNode::Ref(rhs).order();
   });
   auto it = args.cbegin();
-- 
2.43.0


From 9fcabc121d141b2bfa32ac28a8dafae81d7d4018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:42 +0000
Subject: [PATCH 91/91] fix: apply the undo limit once the undo history is
 empty

QUndoStack refuses to change its limit while it holds commands,
so a limit chosen in the preferences with an edited model was never applied
(neither to the next model), and the dialog kept showing the old value.
---
 gui/mainwindow.cpp        |  3 +++
 gui/preferencesdialog.cpp | 10 +++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index 024649c..1d42ac6 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -525,6 +525,9 @@ void MainWindow::setupConnections()
 
     connect(this, &MainWindow::projectChanged, [this] {
         m_undoStack->clear();
+        // The limit cannot be changed while there are commands on the stack.
+        m_undoStack->setUndoLimit(
+            m_preferences.value(QStringLiteral("undoLimit"), 0).toInt());
         setWindowTitle(QStringLiteral("%1[*]").arg(getModelNameForTitle()));
         ui->actionSaveAs->setEnabled(true);
         ui->actionAddElement->setEnabled(true);
diff --git a/gui/preferencesdialog.cpp b/gui/preferencesdialog.cpp
index 713ab6d..b40e8db 100644
--- a/gui/preferencesdialog.cpp
+++ b/gui/preferencesdialog.cpp
@@ -97,12 +97,16 @@ void PreferencesDialog::setupLanguage()
 
 void PreferencesDialog::setupUndoStack(QUndoStack *undoStack)
 {
-    if (undoStack->undoLimit()) {
+    // A limit chosen with commands on the stack is not in force there yet.
+    int currentLimit =
+        m_preferences->value(QStringLiteral("undoLimit"), 0).toInt();
+    if (currentLimit) {
         ui->checkUndoLimit->setChecked(true);
-        ui->undoLimitBox->setValue(undoStack->undoLimit());
+        ui->undoLimitBox->setValue(currentLimit);
     }
     auto setUndoLimit = [this, undoStack](int undoLimit) {
-        undoStack->setUndoLimit(undoLimit);
+        if (!undoStack->count()) // Non-empty stacks refuse it.
+            undoStack->setUndoLimit(undoLimit);
         m_preferences->setValue(QStringLiteral("undoLimit"), undoLimit);
     };
     connect(ui->undoLimitBox, qOverload<int>(&QSpinBox::valueChanged),
-- 
2.43.0

