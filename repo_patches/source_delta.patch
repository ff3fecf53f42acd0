From 320dc372cf719ca8d1b1ed6b936f631c97c4302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 1/7] fix: heap::remove must also sift the moved element up

The last element takes the place of the removed one. It can be larger than
its new parent when the removed element is in another subtree.
---
 src/utils/heap.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/heap.cpp b/src/utils/heap.cpp
index be1a26e..3d1f005 100644
--- a/src/utils/heap.cpp
+++ b/src/utils/heap.cpp
@@ -85,8 +85,12 @@ void heap::remove(Tvar key)
   swap(i, _heap.size() - 1);
   _heap.pop_back();
   _index[key] = LOCATION_UNDEF;
-  if (i < _heap.size())
-    heapify_down(i);
+  if (i < _heap.size()) {
+    // the element moved to position i may be larger than its new parent
+    Tvar moved = _heap[i];
+    heapify_up(i);
+    heapify_down(_index[moved]);
+  }
 }
 
 void napsat::utils::heap::update(Tvar key, double activity)
-- 
2.43.0


From 5a391b3c6239135801cf2cd23114603aa4b26306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:11 +0000
Subject: [PATCH 2/7] fix: bitset::empty must look at every metadata word

---
 src/utils/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 12b7d1b..3ed90ad 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -162,7 +162,7 @@ bool bitset::empty() const {
   assert(it != _bits.cend());
   do {
     if (*it & M_DATA_MSK) return false;
-  } while (*(it++) & M_DATA_MSK);
+  } while (*(it++) & M_NEXT_MSK);
   return true;
 }
 
-- 
2.43.0


From 6ea27a9200cc5df15d2bb44417b7cd00583b5d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:11 +0000
Subject: [PATCH 3/7] fix: bitset of size 0 must not wrap around

---
 src/utils/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 3ed90ad..e6feafa 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -78,7 +78,7 @@ bitset::bitset() noexcept : _bits(1) {
   assert(_bits[0] == 0);
 }
 
-bitset::bitset(size_t size) noexcept : _bits(MP(size-1) + 1, M_NEXT_MSK) {
+bitset::bitset(size_t size) noexcept : _bits(size ? MP(size-1) + 1 : 1, M_NEXT_MSK) {
   // clear the last entry
   _bits.back() = 0;
 }
-- 
2.43.0


From 578751aac3082b3e26518f2c1956675adb7e81ed Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 4/7] fix: resolution checker removes the pivot from the base
 and its negation from the resolvent only

---
 src/proof/proof.cpp | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index 7a8b38e..b8f1c7b 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -167,24 +167,21 @@ bool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)
     Tlit pivot = link.first;
     assert(link.second < clauses.size());
     clause &cl = clauses[link.second];
-    for (unsigned i = 0; i < cl.size; i++)
-      binary_insert(tmp_lits, cl.lits[i]);
-
-    // remove duplicates
-    unsigned j = 1;
-    for (unsigned i = 1; i < tmp_lits.size(); i++)
-      if (tmp_lits[i] != tmp_lits[i-1])
-        tmp_lits[j++] = tmp_lits[i];
 
-    if (pivot == LIT_UNDEF)
-      continue;
+    if (pivot != LIT_UNDEF) {
+      // The pivot is removed from the base and its negation from the resolvent
+      // only. Removing both from the union of the clauses is not sound.
+      unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
+      if (pivot_index == tmp_lits.size() || binary_search(cl.lits, cl.size, ~pivot) == cl.size) {
+        LOG_ERROR("The resolution chain cannot resolve on the pivot " << pivot.to_string());
+        return false;
+      }
+      tmp_lits.erase(pivot_index + tmp_lits.begin());
+    }
 
-    unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
-    assert (pivot_index != tmp_lits.size());
-    tmp_lits.erase(pivot_index + tmp_lits.begin());
-    unsigned neg_pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), ~pivot);
-    assert (neg_pivot_index != tmp_lits.size());
-    tmp_lits.erase(neg_pivot_index + tmp_lits.begin());
+    for (unsigned i = 0; i < cl.size; i++)
+      if (pivot == LIT_UNDEF || cl.lits[i] != ~pivot)
+        binary_insert(tmp_lits, cl.lits[i]);
   }
 
   if(tmp_lits.size() != c.size) {
-- 
2.43.0


From 4b35cde9a5e4444549599cb8bddf451a721e3ebe Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 5/7] fix: check_proof unmarks the clauses when the proof is
 incorrect

---
 src/proof/proof.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index b8f1c7b..f140a74 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -281,20 +281,21 @@ bool resolution_proof::check_proof(void)
   assert(empty_clause_id != 0xFFFFFFFF);
   vector<unsigned> clauses_to_check;
   clauses_to_check.push_back(empty_clause_id);
-  while(!clauses_to_check.empty()) {
+  bool correct = true;
+  while(correct && !clauses_to_check.empty()) {
     unsigned index = clauses_to_check.back();
     clauses[index].marked = true;
     clauses_to_check.pop_back();
-    if (!check_resolution_chain(index))
-      return false;
+    correct = check_resolution_chain(index);
     clause &c = clauses[index];
     for (pair<Tlit, unsigned> link : c.resolution_chain)
       if (!clauses[link.second].marked)
         clauses_to_check.push_back(link.second);
   }
+  // also when the proof is incorrect: a clause left marked would not be checked the next time
   for (unsigned i = 0; i < clauses.size(); i++)
     clauses[i].marked = false;
-  return true;
+  return correct;
 }
 
 bool resolution_proof::check_tautology(Tlit* lits, unsigned size)
-- 
2.43.0


From 0d35651e96e5c77f5d8e7dd6eeeb78041c40662f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 6/7] fix: remove_root_literals also removes the root literals
 brought in by the reasons

---
 src/proof/proof.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index f140a74..6cad901 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -254,7 +254,8 @@ void resolution_proof::remove_root_literals(napsat::Tclause id)
 
   unsigned i = root_lit.size();
   while (i > 0) {
-    while (i > 0 && find(c.lits, end, ~root_lit[i-1]) == end) // TODO can use binary search if too slow
+    // the reasons may bring in other literals falsified at the root level, so look at the clause as simplified so far
+    while (i > 0 && find(simplified_clause.begin(), simplified_clause.end(), ~root_lit[i-1]) == simplified_clause.end()) // TODO can use binary search if too slow
       i--;
     if (i == 0)
       break;
-- 
2.43.0


From de847adcd6bd6cba874d1588ad2143428f73ec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 7/7] fix: do not imply again a literal that is already low
 enough

reimply_literal() checked the levels only after the branch for plain
backtracking, which backtracked to the level of the clause and implied a
literal that was still assigned: it ended up on the trail twice.
---
 src/solver/NapSAT-imply.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 3590e2d..98c4a8a 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -283,6 +283,10 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
   ASSERT(lit_true(c2));
   ASSERT(lit_false(c1));
 
+  // The levels are ok. Nothing to do here.
+  if (!_options.graph_backtracking && lit_level(c2) <= lit_level(c1))
+      return;
+
   if (!_options.lazy_strong_chronological_backtracking && !_options.graph_backtracking) {
     // Non-chronological backtracking
     ASSERT(clause.external);
@@ -294,9 +298,6 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
     return;
   }
 
-  // The levels are ok. Nothing to do here.
-  if (!_options.graph_backtracking && lit_level(c2) <= lit_level(c1))
-      return;
   if (_options.lazy_strong_chronological_backtracking) {
     ASSERT(lit_is_max_literal(lits[1], lits + 2, clause.size - 2));
     if (lit_lazy_level(c2)  <= lit_level(c1)) {
-- 
2.43.0

