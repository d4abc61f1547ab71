From 06c2785484ef426433ea3f7218b8a597c1ca7f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 1/3] fix: check every shared variable in
 SampleSet.can_join_samples, not only those common to all samples

---
 Python/research/scripts/relnet/sample_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index c83f684..45a8d39 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -175,8 +175,8 @@ class SampleSet(Samples):
         In case result sample graph will not connected AssertionError will be raise.
         :return: (new_sample, list_of_counts)
         """
-        for var in frozenset.intersection(*[s.included_variables for s in self.samples()]):
-            if len({s.value_for_variable(var) for s in self.samples()}) > 1:
+        for var in frozenset().union(*[s.included_variables for s in self.samples()]):
+            if len({s.value_for_variable(var) for s in self.samples() if s.have_variable(var)}) > 1:
                 return False
         return True
 
-- 
2.43.0


From 6fba488a1c4921239bab20bf2a1c012c08fa466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 2/3] fix: do not split variable names when grouping single
 node samples in SampleSet.group_intersecting

---
 Python/research/scripts/relnet/sample_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 45a8d39..2f382cc 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -144,7 +144,7 @@ class SampleSet(Samples):
             if sample.edges:
                 key = sample.edges_endpoint_variables()
             else:
-                key = frozenset(sample.included_variables)  # Singe node graph
+                key = frozenset({sample.included_variables})  # Singe node graph
             if key in sample_acc:
                 sample_acc[key][sample] = count
             else:
-- 
2.43.0


From 1da7457cab51f44c748cf3feb7b10f15edf40dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:01 +0000
Subject: [PATCH 3/3] fix: do not drop a group whose key equals the union of
 two merged groups in SampleSet.group_intersecting

---
 Python/research/scripts/relnet/sample_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 2f382cc..0566815 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -154,7 +154,8 @@ class SampleSet(Samples):
             for k_a in sample_acc.keys():
                 for k_b in sample_acc.keys():
                     if k_a != k_b and not k_a.isdisjoint(k_b):
-                        sample_acc[k_a | k_b] = sample_acc.pop(k_a) | sample_acc.pop(k_b)
+                        k_ab = k_a | k_b
+                        sample_acc[k_ab] = sample_acc.pop(k_a) | sample_acc.pop(k_b) | sample_acc.pop(k_ab, {})
                         group()
                         return
         group()
-- 
2.43.0

