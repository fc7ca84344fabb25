From 0c0f7fe70cd1ad93475ffca94bcbbd7c74cad342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 1/3] fix: keep a refined probability below one

With both neighbouring entries trained up to one minus an ulp (learning rate
exponent 1) the two rounded products could add up to exactly one and refine
panicked.
---
 src/mixing/apm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mixing/apm.rs b/src/mixing/apm.rs
index b73f0bd..6d94409 100644
--- a/src/mixing/apm.rs
+++ b/src/mixing/apm.rs
@@ -126,7 +126,10 @@ impl AdaptiveProbabilityMap {
             &right_bound, &weight_right);
         let result_left: FractOnlyU32 = fix_u32::mul(
             &left_bound, &weight_left);
-        result_left.add(&result_right)
+        // both products are rounded, so their sum may reach one
+        let result_raw = result_left.raw() + result_right.raw();
+        FractOnlyU32::new(
+            result_raw.min(FractOnlyU32::ONE_UNSAFE.raw() - 1), 31)
     }
 
     pub fn update_predictions(&mut self, context: usize, input_bit: Bit,
-- 
2.43.0


From bd3b1ecb581b4e33dcdfabe24a08fbd11f52cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:37 +0000
Subject: [PATCH 2/3] fix: visit no suffix of an empty window that starts at
 index 0

The range of suffixes of an empty window whose start is 0 (a new window, or
one emptied at its wrap-around) covered the whole buffer and the assertion on
its length failed.
---
 src/history/window.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/history/window.rs b/src/history/window.rs
index ef965a5..67c3ee0 100644
--- a/src/history/window.rs
+++ b/src/history/window.rs
@@ -180,7 +180,9 @@ impl InputWindow {
 
     pub fn for_each_suffix<F: Fn(WindowIndex) -> ()>(&self, action: F) {
         let suffices_range =
-            if self.size == 0 || self.start.value <= self.cursor.value {
+            if self.size == 0 {
+                (0..0).chain(0..0)
+            } else if self.start.value <= self.cursor.value {
                 (self.start.value..self.cursor.value + 1).chain(0..0)
             } else {
                 (self.start.value..self.max_size)
-- 
2.43.0


From 79e4062b7c14d736c3d82313cb4c9e0f309df700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:14 +0000
Subject: [PATCH 3/3] x

verification: guarded read access to the prediction statistics
---
 src/predictor/mod.rs   |  8 ++++++++
 src/predictor/stats.rs | 26 ++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/src/predictor/mod.rs b/src/predictor/mod.rs
index 045dbdf..4381f8c 100644
--- a/src/predictor/mod.rs
+++ b/src/predictor/mod.rs
@@ -109,3 +109,11 @@ impl<'a> Predictor<'a> {
         self.statistics.print_state(statistics_types);
     }
 }
+
+/// Read access to the statistics, for verification builds only.
+#[cfg(demixer_verif)]
+impl<'a> Predictor<'a> {
+    pub fn verif_statistics(&self) -> &PredictionStatistics<'a> {
+        &self.statistics
+    }
+}
diff --git a/src/predictor/stats.rs b/src/predictor/stats.rs
index 8c18c45..b6c5f05 100644
--- a/src/predictor/stats.rs
+++ b/src/predictor/stats.rs
@@ -156,3 +156,29 @@ impl<'a> PredictionStatistics<'a> {
         }
     }
 }
+
+/// Read access to the totals, for verification builds only.
+#[cfg(demixer_verif)]
+impl<'a> PredictionStatistics<'a> {
+    pub fn verif_total_bytes(&self) -> u64 { self.total_bytes }
+
+    pub fn verif_total_contexts_count(&self) -> u64 {
+        self.total_contexts_count
+    }
+
+    pub fn verif_total_cost(&self) -> i64 { self.total_cost.raw() }
+
+    pub fn verif_current_byte_cost(&self) -> i64 {
+        self.current_byte_cost.raw()
+    }
+
+    pub fn verif_per_order(&self, index: usize) -> (usize, i64, u64) {
+        (self.per_order_counts[index], self.per_order_costs[index].raw(),
+         self.per_order_occurrences_count[index])
+    }
+
+    pub fn verif_per_symbol(&self, symbol: u8) -> (usize, i64) {
+        (self.per_symbol_counts[symbol as usize],
+         self.per_symbol_costs[symbol as usize].raw())
+    }
+}
-- 
2.43.0

