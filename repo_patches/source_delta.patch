From dd653ae9af9be76fd9a8d01fe900977e5303cf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:24 +0000
Subject: [PATCH 01/22] verif hooks: cfg(s2gpp_verif) include points (no effect
 without the cfg)

---
 src/cluster_listener.rs                              | 6 ++++++
 src/data_manager/mod.rs                              | 6 ++++++
 src/data_manager/preprocessor/helper.rs              | 6 ++++++
 src/data_store/mod.rs                                | 6 ++++++
 src/data_store/node_questions/mod.rs                 | 6 ++++++
 src/lib.rs                                           | 7 +++++++
 src/training/anomaly_contribution/mod.rs             | 6 ++++++
 src/training/edge_estimation/mod.rs                  | 6 ++++++
 src/training/intersection_calculation/mod.rs         | 6 ++++++
 src/training/mod.rs                                  | 6 ++++++
 src/training/node_estimation/mod.rs                  | 6 ++++++
 src/training/node_estimation/multi_kde/actors/mod.rs | 6 ++++++
 src/training/node_estimation/multi_kde/mod.rs        | 6 ++++++
 src/training/rotation/mod.rs                         | 6 ++++++
 src/training/rotation/pca/helper.rs                  | 6 ++++++
 src/training/rotation/pca/mod.rs                     | 6 ++++++
 src/training/scoring/helper.rs                       | 6 ++++++
 src/training/scoring/mod.rs                          | 6 ++++++
 src/training/segmentation/mod.rs                     | 6 ++++++
 src/training/transposition/mod.rs                    | 6 ++++++
 src/utils/mod.rs                                     | 6 ++++++
 21 files changed, 127 insertions(+)

diff --git a/src/cluster_listener.rs b/src/cluster_listener.rs
index 8e197aa..48adc6d 100644
--- a/src/cluster_listener.rs
+++ b/src/cluster_listener.rs
@@ -145,3 +145,9 @@ impl Handler<SortedMembersMessage> for ClusterMemberListener {
 }
 
 impl ClusterListener for ClusterMemberListener {}
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/cluster_listener.rs"));
+}
diff --git a/src/data_manager/mod.rs b/src/data_manager/mod.rs
index 884c039..aa543ad 100644
--- a/src/data_manager/mod.rs
+++ b/src/data_manager/mod.rs
@@ -272,3 +272,9 @@ impl Handler<PoisonPill> for DataManager {
         ctx.stop();
     }
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/data_manager.rs"));
+}
diff --git a/src/data_manager/preprocessor/helper.rs b/src/data_manager/preprocessor/helper.rs
index 82904de..8d3b37c 100644
--- a/src/data_manager/preprocessor/helper.rs
+++ b/src/data_manager/preprocessor/helper.rs
@@ -82,3 +82,9 @@ impl Handler<PoisonPill> for PreprocessorHelper {
         ctx.stop()
     }
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/preprocessor_helper.rs"));
+}
diff --git a/src/data_store/mod.rs b/src/data_store/mod.rs
index 0d8d795..25d8033 100644
--- a/src/data_store/mod.rs
+++ b/src/data_store/mod.rs
@@ -204,3 +204,9 @@ impl DataStore {
         materialized
     }
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/data_store.rs"));
+}
diff --git a/src/data_store/node_questions/mod.rs b/src/data_store/node_questions/mod.rs
index 29acfbf..090e22d 100644
--- a/src/data_store/node_questions/mod.rs
+++ b/src/data_store/node_questions/mod.rs
@@ -163,3 +163,9 @@ impl NodeQuestions {
         self.node_questions.clear();
     }
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/node_questions.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index 44c1119..c651c6f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 use actix::prelude::*;
 use anyhow::Result;
 
@@ -63,3 +64,9 @@ pub async fn s2gpp_async(params: Parameters) -> Result<()> {
 
     Ok(())
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/root.rs"));
+}
diff --git a/src/training/anomaly_contribution/mod.rs b/src/training/anomaly_contribution/mod.rs
index 5bc07eb..a7763b6 100644
--- a/src/training/anomaly_contribution/mod.rs
+++ b/src/training/anomaly_contribution/mod.rs
@@ -189,3 +189,9 @@ impl Handler<QueryClustercontributionDone> for AnomalyContribution {
             })
     }
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/anomaly_contribution.rs"));
+}
diff --git a/src/training/edge_estimation/mod.rs b/src/training/edge_estimation/mod.rs
index 6c0572a..d7b62b3 100644
--- a/src/training/edge_estimation/mod.rs
+++ b/src/training/edge_estimation/mod.rs
@@ -65,3 +65,9 @@ impl EdgeEstimator for Training {
         ctx.address().do_send(EdgeEstimationDone);
     }
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/edge_estimation.rs"));
+}
diff --git a/src/training/intersection_calculation/mod.rs b/src/training/intersection_calculation/mod.rs
index 8b8963d..6ef3c8e 100644
--- a/src/training/intersection_calculation/mod.rs
+++ b/src/training/intersection_calculation/mod.rs
@@ -342,3 +342,9 @@ impl Handler<IntersectionRotationMessage> for Training {
         }
     }
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/intersection_calculation.rs"));
+}
diff --git a/src/training/mod.rs b/src/training/mod.rs
index a2d4f9d..a574e30 100644
--- a/src/training/mod.rs
+++ b/src/training/mod.rs
@@ -277,3 +277,9 @@ impl Handler<ScoringDone> for Training {
         System::current().stop();
     }
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/training.rs"));
+}
diff --git a/src/training/node_estimation/mod.rs b/src/training/node_estimation/mod.rs
index 8bfb297..955db7c 100644
--- a/src/training/node_estimation/mod.rs
+++ b/src/training/node_estimation/mod.rs
@@ -336,3 +336,9 @@ pub struct ClusteringResponse<A> {
     pub cluster_centers: Array2<A>,
     pub labels: Vec<usize>,
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/node_estimation.rs"));
+}
diff --git a/src/training/node_estimation/multi_kde/actors/mod.rs b/src/training/node_estimation/multi_kde/actors/mod.rs
index a26fce9..6b46f13 100644
--- a/src/training/node_estimation/multi_kde/actors/mod.rs
+++ b/src/training/node_estimation/multi_kde/actors/mod.rs
@@ -122,3 +122,9 @@ impl Handler<PoisonPill> for MultiKDEActor {
         ctx.stop();
     }
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/multi_kde_actors.rs"));
+}
diff --git a/src/training/node_estimation/multi_kde/mod.rs b/src/training/node_estimation/multi_kde/mod.rs
index 8cdf208..6746c1d 100644
--- a/src/training/node_estimation/multi_kde/mod.rs
+++ b/src/training/node_estimation/multi_kde/mod.rs
@@ -275,3 +275,9 @@ mod tests {
         assert_eq!(assignments, expected);
     }
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/multi_kde.rs"));
+}
diff --git a/src/training/rotation/mod.rs b/src/training/rotation/mod.rs
index a604255..3ad1f78 100644
--- a/src/training/rotation/mod.rs
+++ b/src/training/rotation/mod.rs
@@ -276,3 +276,9 @@ impl Handler<RotationMatrixMessage> for Training {
 
 #[cfg(test)]
 mod tests;
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/rotation.rs"));
+}
diff --git a/src/training/rotation/pca/helper.rs b/src/training/rotation/pca/helper.rs
index 9b93b3e..18f3967 100644
--- a/src/training/rotation/pca/helper.rs
+++ b/src/training/rotation/pca/helper.rs
@@ -220,3 +220,9 @@ impl Handler<PoisonPill> for PCAHelper {
         ctx.stop();
     }
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/pca_helper.rs"));
+}
diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index 8b43799..d086a26 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -341,3 +341,9 @@ impl Handler<PCAHelperMessage> for Training {
         }
     }
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/pca.rs"));
+}
diff --git a/src/training/scoring/helper.rs b/src/training/scoring/helper.rs
index 619dee8..bc90511 100644
--- a/src/training/scoring/helper.rs
+++ b/src/training/scoring/helper.rs
@@ -81,3 +81,9 @@ impl Handler<PoisonPill> for ScoringHelper {
         ctx.stop();
     }
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/scoring_helper.rs"));
+}
diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index e70537d..f9158e9 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -385,3 +385,9 @@ impl Handler<QueryClusterContributionResponse> for Training {
         ctx.address().do_send(ScoringDone);
     }
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/scoring.rs"));
+}
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index a5c3f60..a88e03b 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -469,3 +469,9 @@ impl Handler<SegmentMessage> for Training {
         }
     }
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/segmentation.rs"));
+}
diff --git a/src/training/transposition/mod.rs b/src/training/transposition/mod.rs
index 9b48be1..6477d47 100644
--- a/src/training/transposition/mod.rs
+++ b/src/training/transposition/mod.rs
@@ -117,3 +117,9 @@ impl Handler<TranspositionRotationMessage> for Training {
         }
     }
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/transposition.rs"));
+}
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 981cc3e..6b21438 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -240,3 +240,9 @@ impl<T: Actor> From<AnyClusterNodes<T>> for AnyClusterNodesIterator<T> {
         }
     }
 }
+
+#[cfg(s2gpp_verif)]
+#[allow(dead_code, unused_imports, missing_docs)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/utils.rs"));
+}
-- 
2.43.0


From 72ce19e525639e43da373dd72a2cf5b273f2128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:30 +0000
Subject: [PATCH 02/22] fix: count own transitions only once in the distributed
 self-correction

---
 src/training/segmentation/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index a88e03b..52ff44a 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -300,11 +300,11 @@ impl Segmenter for Training {
                 self.segmentation
                     .transition_count_protocol
                     .resolve_buffer(ctx.address().recipient());
-                let transition_count = self.data_store.count_transitions()
-                    + node_transitions
-                        .iter()
-                        .map(|(_segment, transitions)| transitions.len())
-                        .sum::<usize>();
+                // node_transitions already contains this node's own transitions
+                let transition_count = node_transitions
+                    .iter()
+                    .map(|(_segment, transitions)| transitions.len())
+                    .sum::<usize>();
                 next_node.do_send(TransitionCountMessage {
                     count: transition_count,
                     clockwise_count: self.segmentation.invalid_transition_directions,
-- 
2.43.0


From 9b4fd72b358fcd62de1d5ad62d82210dd05df3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:04 +0000
Subject: [PATCH 03/22] fix: connect a wrapping transition with a single node
 before the wrap and no predecessor

EdgesOrderer::into_vec panicked when the nodes of a transition wrap around
the last segment, only one of them lies before the wrap, and no previous
node exists (e.g. segments 99, 0 in the very first transition).
---
 src/training/edge_estimation/edges_orderer.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/training/edge_estimation/edges_orderer.rs b/src/training/edge_estimation/edges_orderer.rs
index fabffb7..4275468 100644
--- a/src/training/edge_estimation/edges_orderer.rs
+++ b/src/training/edge_estimation/edges_orderer.rs
@@ -45,6 +45,7 @@ impl EdgesOrderer {
         let last_segment = previous_node.get_segment_id();
         if this_segment.ne(&(last_segment + 1)) {
             self.last_node = Some(previous_node.clone());
+            self.first_node = Some(current_node.clone());
             self.middle_node = Some(match self.edges_small.get(0) {
                 Some(first_edge) => first_edge.get_from_node(),
                 None => previous_node.clone(),
@@ -85,12 +86,15 @@ impl EdgesOrderer {
     pub fn into_vec(mut self) -> Vec<Edge> {
         match &self.middle_node {
             Some(middle_node) => {
-                let previous_node = self
-                    .edges_large
-                    .last()
-                    .as_ref()
-                    .expect("Should be filled, we have a middle_node!")
-                    .get_to_node();
+                let previous_node = match self.edges_large.last() {
+                    Some(edge) => edge.get_to_node(),
+                    // only one node before the gap and no previous transition node
+                    None => self
+                        .first_node
+                        .as_ref()
+                        .expect("Should be set, we have a middle_node!")
+                        .clone(),
+                };
                 let connecting_edge = Edge::new(previous_node, middle_node.clone());
                 self.push(connecting_edge);
 
-- 
2.43.0


From 9b2bba7e7ee48eb7014a54a683bdbd92229cb46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:14 +0000
Subject: [PATCH 04/22] fix: count_edges_in_time loses every edge when all
 edges lead to point 0

The closing pseudo edge led to point 0 as well, so the last group of edges
was never closed if its point was 0.
---
 src/training/scoring/weights.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/training/scoring/weights.rs b/src/training/scoring/weights.rs
index b40a767..2a8359a 100644
--- a/src/training/scoring/weights.rs
+++ b/src/training/scoring/weights.rs
@@ -21,9 +21,10 @@ pub(crate) trait ScoringWeights {
 impl ScoringWeights for Training {
     fn count_edges_in_time(&mut self) -> Vec<usize> {
         let start_point = self.transposition.range_start_point.unwrap_or(0);
+        // must differ from every real edge's point to close the last group
         let pseudo_edge = Edge::new(
             IndependentNode::new(0, 0, 0).into_ref(),
-            IndependentNode::new(0, 0, 0).into_ref(),
+            IndependentNode::new(0, 0, usize::MAX).into_ref(),
         )
         .into_ref();
         let mut edges_in_time = vec![];
-- 
2.43.0


From 916c47ee6c3d57392b65f9930373326709b52aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:23 +0000
Subject: [PATCH 05/22] fix: scoring hangs when there are fewer scores than
 threads

With score_length < n_threads all chunks but the last are empty and every
chunk starts at 0. If the last one answers first, the empty answers are kept
in the buffer forever and the scoring never finishes. Use at most one chunk
per score and wait for exactly as many answers.
---
 src/training/scoring/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index f9158e9..e8da87f 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -84,7 +84,6 @@ impl Scorer for Training {
         }
 
         let score_length = self.scoring.edges_in_time.len() - (self.parameters.query_length - 1);
-        self.scoring.helper_protocol.n_total = self.parameters.n_threads;
 
         let edges = self.data_store.get_edges();
         let edges_in_time = self.scoring.edges_in_time.clone();
@@ -132,11 +131,14 @@ impl Scorer for Training {
     }
 
     fn parallel_score(&mut self, score_length: usize) {
-        let n_per_thread = score_length / self.parameters.n_threads;
-        let n_rest = score_length % self.parameters.n_threads;
-
-        for i in 0..self.parameters.n_threads {
-            let rest = if i == self.parameters.n_threads - 1 {
+        // every chunk must be non-empty, otherwise several chunks have the same start
+        let n_chunks = self.parameters.n_threads.min(score_length).max(1);
+        let n_per_thread = score_length / n_chunks;
+        let n_rest = score_length % n_chunks;
+        self.scoring.helper_protocol.n_total = n_chunks;
+
+        for i in 0..n_chunks {
+            let rest = if i == n_chunks - 1 {
                 n_rest
             } else {
                 0
-- 
2.43.0


From 6e8523771a00d65f1620924b9370a7e5f4ca75b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:29 +0000
Subject: [PATCH 06/22] fix: constant scores are normalised to NaN

With max == min the range is zero and every score becomes 0/0. There is
nothing to scale then; report 0 for every point.
---
 src/training/scoring/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index e8da87f..49807dd 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -192,6 +192,11 @@ impl Scorer for Training {
     fn normalize_score(&mut self, scores: &mut Array1<f32>) {
         let all_score_max = *scores.max().unwrap();
         let all_score_min = *scores.min().unwrap();
+        if all_score_max == all_score_min {
+            // no range to scale to: (x - min) / 0 would be NaN
+            scores.fill(0.0);
+            return;
+        }
         *scores = scores
             .into_iter()
             .map(|x| (*x - all_score_min) / (all_score_max - all_score_min))
-- 
2.43.0


From 1ba32bba423046170943950eb0baa66fb01d3ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:16 +0000
Subject: [PATCH 07/22] fix: the first point of the next node can arrive before
 the own points are segmented

---
 src/training/segmentation/messages.rs |  2 +-
 src/training/segmentation/mod.rs      | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/training/segmentation/messages.rs b/src/training/segmentation/messages.rs
index a3c037c..da4d70c 100644
--- a/src/training/segmentation/messages.rs
+++ b/src/training/segmentation/messages.rs
@@ -9,7 +9,7 @@ pub struct SegmentMessage {
     pub(crate) segments: Vec<MaterializedTransition>,
 }
 
-#[derive(RemoteMessage, Serialize, Deserialize)]
+#[derive(RemoteMessage, Serialize, Deserialize, Clone)]
 pub struct SendFirstPointMessage {
     pub(crate) point: Point,
     pub(crate) transition: MaterializedTransition,
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index 52ff44a..ca53b1b 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -28,6 +28,10 @@ pub(crate) struct Segmentation {
     pub send_transition: Option<MaterializedTransition>,
     pub last_point: Option<Point>,
     pub last_transition: Option<Transition>,
+    /// this node's own points are segmented and it waits for the first point of the next cluster node
+    awaits_first_point: bool,
+    /// the first point of the next cluster node that arrived too early
+    first_point_buffer: Option<SendFirstPointMessage>,
     direct_protocol: DirectProtocol<SegmentMessage>,
     /// {cluster node id (answering): {cluster node id (asking): \[NodeInQuestion\]}}
     pub node_questions: NodeQuestions,
@@ -97,6 +101,10 @@ impl Segmenter for Training {
         let wait_for_points = self.try_send_inter_node_points();
         if wait_for_points {
             self.segmentation.transitions_for_nodes = node_transitions;
+            self.segmentation.awaits_first_point = true;
+            if let Some(msg) = self.segmentation.first_point_buffer.take() {
+                ctx.address().do_send(msg);
+            }
         } else {
             // if no other cluster node exists (i.e. local only)
             self.segmentation
@@ -386,6 +394,13 @@ impl Handler<SendFirstPointMessage> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: SendFirstPointMessage, ctx: &mut Self::Context) -> Self::Result {
+        if !self.segmentation.awaits_first_point {
+            // own points are not (finally) segmented, yet
+            self.segmentation.first_point_buffer = Some(msg);
+            return;
+        }
+        self.segmentation.awaits_first_point = false;
+
         let spanning_transition = Transition::new(
             self.segmentation.last_point.take().unwrap().into_ref(),
             msg.point.into_ref(),
-- 
2.43.0


From 54107bddd12f34ef566e7201bae0b7c16a238895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:45 +0000
Subject: [PATCH 08/22] fix: ask for the transition before the next node's
 first one also after a spanning transition

---
 src/training/segmentation/mod.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index ca53b1b..78e60aa 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -405,7 +405,7 @@ impl Handler<SendFirstPointMessage> for Training {
             self.segmentation.last_point.take().unwrap().into_ref(),
             msg.point.into_ref(),
         );
-        let last_transition = self.segmentation.last_transition.as_ref().unwrap().clone();
+        let mut last_transition = self.segmentation.last_transition.as_ref().unwrap().clone();
 
         if spanning_transition.crosses_segments()
             & spanning_transition.has_valid_direction(self.parameters.rate as isize)
@@ -442,21 +442,18 @@ impl Handler<SendFirstPointMessage> for Training {
                         .insert(from_node_id, vec![spanning_transition.materialize()]);
                 }
             }
-        } else {
-            let transition = msg.transition.into_transition();
-            let transition_from_cluster_id =
-                self.segment_id_to_assignment(transition.get_from_segment());
-            let last_transition_to_cluster_id =
-                self.segment_id_to_assignment(last_transition.get_to_segment());
-
-            self.search_split_between_transitions(
-                Some(last_transition),
-                &transition,
-                transition_from_cluster_id,
-                last_transition_to_cluster_id,
-            );
+            last_transition = spanning_transition;
         }
 
+        // the next cluster node cannot ask for the transition before its first one
+        self.segmentation.node_questions.ask(
+            &msg.transition.into_transition(),
+            Some(last_transition),
+            false,
+            1,
+            self.parameters.clone(),
+        );
+
         let node_transitions = self.segmentation.transitions_for_nodes.clone();
         self.segmentation.transitions_for_nodes.clear();
         self.segmentation
-- 
2.43.0


From 03773f28a36b1486adfee006843aa1925bc8d621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:43 +0000
Subject: [PATCH 09/22] fix: order of edges to the same point depends on which
 cluster node they come from

---
 src/data_store/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_store/mod.rs b/src/data_store/mod.rs
index 25d8033..8c9afe6 100644
--- a/src/data_store/mod.rs
+++ b/src/data_store/mod.rs
@@ -189,8 +189,9 @@ impl DataStore {
     }
 
     pub fn sort_edges(&mut self) {
+        // the edge that enters a point precedes the edges within that point, regardless of which cluster node sent them
         self.edges
-            .sort_by(|edge_a, edge_b| edge_a.get_to_id().partial_cmp(&edge_b.get_to_id()).unwrap());
+            .sort_by_key(|edge| (edge.get_to_id(), edge.get_from_node().get_from_id()));
     }
 
     // --- Misc
-- 
2.43.0


From ba58d5f4a46bf9447ea5eac93414671690bb2e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:28 +0000
Subject: [PATCH 10/22] fix: the overlap sent to the previous node lacks the
 last edge of its windows

---
 src/training/scoring/overlap.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/training/scoring/overlap.rs b/src/training/scoring/overlap.rs
index 09798e7..df81fa7 100644
--- a/src/training/scoring/overlap.rs
+++ b/src/training/scoring/overlap.rs
@@ -11,7 +11,12 @@ pub(crate) trait ScoringOverlap {
 
 impl ScoringOverlap for Training {
     fn send_overlap_to_neighbor(&mut self, ctx: &mut Context<Training>) {
-        let to_edge_idx = self.scoring.edges_in_time[self.parameters.query_length - 1];
+        // a window also contains the first edge after its last point
+        let overlap_len = match self.parameters.query_length - 1 {
+            0 => 0,
+            n_points => self.scoring.edges_in_time[n_points - 1],
+        };
+        let to_edge_idx = (overlap_len + 1).min(self.data_store.get_edges().len());
         let overlap = self
             .data_store
             .slice_edges(0..to_edge_idx)
-- 
2.43.0


From 5f78c450f834b4738274f56ea8872ee9d87b1232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:24 +0000
Subject: [PATCH 11/22] fix: a node whose points have no transition sends no
 first point and panics on the next node's one

---
 src/training/segmentation/messages.rs |  3 +-
 src/training/segmentation/mod.rs      | 61 +++++++++++++++++----------
 2 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/src/training/segmentation/messages.rs b/src/training/segmentation/messages.rs
index da4d70c..84f620b 100644
--- a/src/training/segmentation/messages.rs
+++ b/src/training/segmentation/messages.rs
@@ -12,7 +12,8 @@ pub struct SegmentMessage {
 #[derive(RemoteMessage, Serialize, Deserialize, Clone)]
 pub struct SendFirstPointMessage {
     pub(crate) point: Point,
-    pub(crate) transition: MaterializedTransition,
+    /// the first transition from that point on, if there is one
+    pub(crate) transition: Option<MaterializedTransition>,
 }
 
 #[derive(Message)]
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index 78e60aa..f56b501 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -72,6 +72,7 @@ pub(crate) trait Segmenter {
         to_node_id: usize,
     );
     fn try_send_inter_node_points(&mut self) -> bool;
+    fn send_first_point(&mut self, transition: Option<MaterializedTransition>);
     fn distribute_segments(&mut self, foreign_data: TransitionsForNodes);
     fn self_correction(
         &mut self,
@@ -251,19 +252,18 @@ impl Segmenter for Training {
     }
 
     fn try_send_inter_node_points(&mut self) -> bool {
-        let point = self.segmentation.send_point.take();
         let transition = self.segmentation.send_transition.take();
         match self.cluster_nodes.get_previous_idx() {
-            Some(prev_idx) => {
-                if let (Some(point), Some(transition)) = (point, transition) {
-                    self.cluster_nodes
-                        .get_as(&prev_idx, "Training")
-                        .unwrap()
-                        .do_send(SendFirstPointMessage { point, transition });
+            Some(_prev_idx) => {
+                let own_id = self.cluster_nodes.get_own_idx();
+                let wait_for_points = own_id.ne(&self.cluster_nodes.len()); // last cluster node does not receive a SendFirstPointMessage
+
+                // without an own transition, the next one comes with the next cluster node's first point
+                if transition.is_some() || !wait_for_points {
+                    self.send_first_point(transition);
                 }
 
-                let own_id = self.cluster_nodes.get_own_idx();
-                own_id.ne(&self.cluster_nodes.len()) // last cluster node does not receive a SendFirstPointMessage
+                wait_for_points
             }
             None => {
                 // local only case
@@ -276,6 +276,15 @@ impl Segmenter for Training {
         }
     }
 
+    fn send_first_point(&mut self, transition: Option<MaterializedTransition>) {
+        if let Some(point) = self.segmentation.send_point.take() {
+            self.cluster_nodes
+                .get_prev_as("Training")
+                .unwrap()
+                .do_send(SendFirstPointMessage { point, transition });
+        }
+    }
+
     fn distribute_segments(&mut self, mut foreign_data: TransitionsForNodes) {
         if self.cluster_nodes.len() == 0 {
             self.own_addr
@@ -405,7 +414,8 @@ impl Handler<SendFirstPointMessage> for Training {
             self.segmentation.last_point.take().unwrap().into_ref(),
             msg.point.into_ref(),
         );
-        let mut last_transition = self.segmentation.last_transition.as_ref().unwrap().clone();
+        let mut last_transition = self.segmentation.last_transition.clone();
+        let mut first_transition = msg.transition.clone();
 
         if spanning_transition.crosses_segments()
             & spanning_transition.has_valid_direction(self.parameters.rate as isize)
@@ -414,8 +424,9 @@ impl Handler<SendFirstPointMessage> for Training {
             let from_node_id =
                 self.segment_id_to_assignment(spanning_transition.get_from_segment());
             let to_node_id = self.segment_id_to_assignment(spanning_transition.get_to_segment());
-            let last_transition_to_cluster_id =
-                self.segment_id_to_assignment(last_transition.get_to_segment());
+            let last_transition_to_cluster_id = last_transition
+                .as_ref()
+                .map(|transition| self.segment_id_to_assignment(transition.get_to_segment()));
 
             if from_node_id == self.cluster_nodes.get_own_idx() {
                 // normal transition
@@ -423,8 +434,8 @@ impl Handler<SendFirstPointMessage> for Training {
             }
 
             self.find_splits(
-                Some(last_transition),
-                Some(last_transition_to_cluster_id),
+                last_transition,
+                last_transition_to_cluster_id,
                 &spanning_transition,
                 from_node_id,
                 to_node_id,
@@ -442,17 +453,23 @@ impl Handler<SendFirstPointMessage> for Training {
                         .insert(from_node_id, vec![spanning_transition.materialize()]);
                 }
             }
-            last_transition = spanning_transition;
+            first_transition = Some(spanning_transition.materialize());
+            last_transition = Some(spanning_transition);
         }
 
         // the next cluster node cannot ask for the transition before its first one
-        self.segmentation.node_questions.ask(
-            &msg.transition.into_transition(),
-            Some(last_transition),
-            false,
-            1,
-            self.parameters.clone(),
-        );
+        if let (Some(last_transition), Some(transition)) = (last_transition, msg.transition) {
+            self.segmentation.node_questions.ask(
+                &transition.into_transition(),
+                Some(last_transition),
+                false,
+                1,
+                self.parameters.clone(),
+            );
+        }
+
+        // if this cluster node had no own transition to send
+        self.send_first_point(first_transition);
 
         let node_transitions = self.segmentation.transitions_for_nodes.clone();
         self.segmentation.transitions_for_nodes.clear();
-- 
2.43.0


From b59ada9031253e9920203114149b2866ec48b03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:33 +0000
Subject: [PATCH 12/22] fix: buffered rotation messages are overtaken by
 messages in the mailbox

---
 src/training/scoring/mod.rs      |  2 +-
 src/training/scoring/weights.rs  |  6 +++---
 src/training/segmentation/mod.rs |  2 +-
 src/utils/rotation_protocol.rs   | 19 +++++++++++++------
 4 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 49807dd..f2e3e8d 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -169,7 +169,7 @@ impl Scorer for Training {
                 .start(self.cluster_nodes.len());
             self.scoring
                 .score_rotation_protocol
-                .resolve_buffer(ctx.address().recipient());
+                .resolve_buffer(ctx);
             self.scoring
                 .subscores
                 .insert(own_idx, (scores.clone(), self.scoring.first_empty));
diff --git a/src/training/scoring/weights.rs b/src/training/scoring/weights.rs
index 2a8359a..c8a1612 100644
--- a/src/training/scoring/weights.rs
+++ b/src/training/scoring/weights.rs
@@ -122,7 +122,7 @@ impl ScoringWeights for Training {
             .start(self.cluster_nodes.len());
         self.scoring
             .node_degrees_rotation_protocol
-            .resolve_buffer(ctx.address().recipient());
+            .resolve_buffer(ctx);
         self.cluster_nodes
             .get_as(&self.cluster_nodes.get_next_idx().unwrap(), "Training")
             .unwrap()
@@ -143,7 +143,7 @@ impl ScoringWeights for Training {
             .start(self.cluster_nodes.len());
         self.scoring
             .edge_weight_rotation_protocol
-            .resolve_buffer(ctx.address().recipient());
+            .resolve_buffer(ctx);
         self.cluster_nodes
             .get_as(&self.cluster_nodes.get_next_idx().unwrap(), "Training")
             .unwrap()
@@ -236,7 +236,7 @@ impl Handler<ScoreInitDone> for Training {
             self.scoring.overlap_rotation_protocol.start(1);
             self.scoring
                 .overlap_rotation_protocol
-                .resolve_buffer(ctx.address().recipient());
+                .resolve_buffer(ctx);
         }
     }
 }
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index f56b501..fe2048d 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -316,7 +316,7 @@ impl Segmenter for Training {
                     .start(self.cluster_nodes.len());
                 self.segmentation
                     .transition_count_protocol
-                    .resolve_buffer(ctx.address().recipient());
+                    .resolve_buffer(ctx);
                 // node_transitions already contains this node's own transitions
                 let transition_count = node_transitions
                     .iter()
diff --git a/src/utils/rotation_protocol.rs b/src/utils/rotation_protocol.rs
index 91d3418..cadab4c 100644
--- a/src/utils/rotation_protocol.rs
+++ b/src/utils/rotation_protocol.rs
@@ -1,4 +1,5 @@
-use actix::{Message, Recipient};
+use actix::fut::{ready, ActorFutureExt};
+use actix::{Actor, AsyncContext, Context, Handler, Message};
 use actix_telepathy::RemoteMessage;
 
 #[derive(Default, Clone)]
@@ -32,12 +33,18 @@ impl<T: Message + RemoteMessage + Clone> RotationProtocol<T> {
         (self.n_received < self.n_total) || (self.n_sent < self.n_total)
     }
 
-    pub fn resolve_buffer(&mut self, rec: Recipient<T>)
+    /// The buffered messages are handled before the ones that already wait in the actor's mailbox.
+    /// Otherwise, they would not travel in the order of the ring anymore.
+    pub fn resolve_buffer<A>(&mut self, ctx: &mut Context<A>)
     where
-        T::Result: Send,
+        A: Actor<Context = Context<A>> + Handler<T>,
+        T: 'static,
     {
-        for _ in 0..self.buffer.len() {
-            rec.do_send(self.buffer.remove(0));
-        }
+        let buffer = std::mem::take(&mut self.buffer);
+        ctx.wait(ready(buffer).map(|buffer, actor: &mut A, ctx| {
+            for msg in buffer {
+                actor.handle(msg, ctx);
+            }
+        }));
     }
 }
-- 
2.43.0


From f8469bff62d42f21e92de34b98930b74294828fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:25 +0000
Subject: [PATCH 13/22] fix: PCA of several cluster nodes loses messages that
 arrive early and finishes before all column means are there

---
 src/training/rotation/mod.rs     |  4 +++-
 src/training/rotation/pca/mod.rs | 26 +++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/training/rotation/mod.rs b/src/training/rotation/mod.rs
index 3ad1f78..64a5d2a 100644
--- a/src/training/rotation/mod.rs
+++ b/src/training/rotation/mod.rs
@@ -48,7 +48,9 @@ impl Rotator for Training {
         self.rotation.reduced = Some(reduced);
         self.rotation.reduced_ref = Some(reduced_ref);
 
-        self.rotation.pca = PCA::new(self.cluster_nodes.get_own_idx(), 3);
+        self.rotation
+            .pca
+            .restart(self.cluster_nodes.get_own_idx(), 3);
         self.run_pca();
     }
 
diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index d086a26..4cd3b56 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -45,8 +45,17 @@ impl PCA {
         }
     }
 
+    /// keeps the messages of other cluster nodes that are already ahead
+    pub fn restart(&mut self, id: usize, n_components: usize) {
+        *self = PCA {
+            buffer: std::mem::take(&mut self.buffer),
+            means_buffer: std::mem::take(&mut self.means_buffer),
+            ..Self::new(id, n_components)
+        };
+    }
+
     pub fn clear(&mut self) {
-        *self = Self::new(self.id, self.n_components);
+        self.restart(self.id, self.n_components);
     }
 }
 
@@ -57,6 +66,7 @@ pub trait PCAnalyzer {
     fn center_columns_decomposition(&mut self);
     fn helper_center_columns_decomposition(&mut self);
     fn send_to_main(&mut self);
+    fn has_all_means(&self) -> bool;
     fn next_2_power(&mut self) -> usize;
     fn send_to_neighbor_or_finalize(&mut self);
     fn combine_remote_r(&mut self, remote_r: Array2<f32>);
@@ -111,6 +121,8 @@ impl PCAnalyzer for Training {
 
         self.send_to_main();
         self.send_to_neighbor_or_finalize();
+        self.resolve_buffer();
+        self.resolve_means_buffer();
     }
 
     fn helper_center_columns_decomposition(&mut self) {
@@ -155,6 +167,13 @@ impl PCAnalyzer for Training {
         }
     }
 
+    fn has_all_means(&self) -> bool {
+        match &self.rotation.pca.n {
+            Some(n) => n.len() == self.cluster_nodes.len_incl_own(),
+            None => false,
+        }
+    }
+
     fn next_2_power(&mut self) -> usize {
         let len = self.cluster_nodes.len_incl_own();
         2_i32.pow((len as f32).log2().ceil() as u32) as usize
@@ -183,7 +202,7 @@ impl PCAnalyzer for Training {
         {
             self.rotation.pca.r_count += 1;
             self.send_to_neighbor_or_finalize()
-        } else if id == 0 && threshold == 0 {
+        } else if id == 0 && threshold == 0 && self.has_all_means() {
             self.finalize()
         }
     }
@@ -271,7 +290,7 @@ impl Handler<PCAMeansMessage> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: PCAMeansMessage, _ctx: &mut Self::Context) -> Self::Result {
-        if self.rotation.pca.column_means.is_some() {
+        if self.rotation.pca.column_means.is_some() && !self.has_all_means() {
             self.rotation.pca.column_means = Some(concatenate![
                 Axis(0),
                 self.rotation.pca.column_means.as_ref().unwrap().clone(),
@@ -282,6 +301,7 @@ impl Handler<PCAMeansMessage> for Training {
                 self.rotation.pca.n.as_ref().unwrap().clone(),
                 arr1(&[msg.n as f32])
             ]);
+            self.send_to_neighbor_or_finalize();
         } else {
             self.rotation.pca.means_buffer.push(msg);
         }
-- 
2.43.0


From 204bbaf6fa228a1ea6619df93f9e7da1b3032fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:05 +0000
Subject: [PATCH 14/22] fix: PCA waits forever for helpers without data when
 there are fewer chunks than threads

---
 src/training/rotation/pca/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index 4cd3b56..5362aaf 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -127,7 +127,16 @@ impl PCAnalyzer for Training {
 
     fn helper_center_columns_decomposition(&mut self) {
         let own_addr = self.own_addr.as_ref().unwrap().clone().recipient();
-        self.rotation.pca.helpers = (0..self.parameters.n_threads)
+        let data = self
+            .rotation
+            .pca
+            .data
+            .as_ref()
+            .expect("PCA started before data is present!");
+        let chunk_size = num_integer::div_ceil(data.shape()[0], self.parameters.n_threads);
+        // there can be fewer chunks than threads
+        let n_helpers = num_integer::div_ceil(data.shape()[0], chunk_size);
+        self.rotation.pca.helpers = (0..n_helpers)
             .into_iter()
             .map(|i| PCAHelper::start_helper(i, own_addr.clone()))
             .collect();
@@ -138,13 +147,6 @@ impl PCAnalyzer for Training {
             .iter()
             .map(|addr| addr.clone().recipient())
             .collect();
-        let data = self
-            .rotation
-            .pca
-            .data
-            .as_ref()
-            .expect("PCA started before data is present!");
-        let chunk_size = num_integer::div_ceil(data.shape()[0], self.parameters.n_threads);
         for (chunk, helper) in data
             .axis_chunks_iter(Axis(0), chunk_size)
             .zip(self.rotation.pca.helpers.iter())
-- 
2.43.0


From f0f81930e57d770729c767a41475e99d695f9030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:37 +0000
Subject: [PATCH 15/22] fix: distributed scoring panics when the first windows
 of the series have no edge

---
 src/training/scoring/mod.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index f2e3e8d..25619dc 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -212,11 +212,8 @@ impl Scorer for Training {
                     .subscores
                     .remove(&cluster_node_id)
                     .expect("A subscore is missing!");
-                if first_empty {
-                    let last_score = scores
-                        .last()
-                        .expect("First cannot be empty if it's the first overall score point!");
-
+                // the first overall scores have no previous score, they keep their value
+                if let (true, Some(last_score)) = (first_empty, scores.last()) {
                     fill_up_first_missing_points(&mut sub_score, last_score[last_score.len() - 1]);
                 }
                 scores.push(sub_score);
-- 
2.43.0


From 59193e427403e536fcb513b5fee761add0f52783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:01 +0000
Subject: [PATCH 16/22] fix: blank lines of the data file do not shift the
 partitions

The partition length counted lines, the number of points per node records.
---
 src/data_manager/data_reader/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/data_manager/data_reader/mod.rs b/src/data_manager/data_reader/mod.rs
index bc2a69e..31430d6 100644
--- a/src/data_manager/data_reader/mod.rs
+++ b/src/data_manager/data_reader/mod.rs
@@ -30,13 +30,13 @@ pub trait DataReader {
 
 impl DataReader for DataManager {
     fn read_csv(&mut self, file_path: &str, addr: Addr<Self>) {
-        let file = File::open(file_path).unwrap();
-        let count_reader = BufReader::new(file);
-        let n_lines = if self.data_reading.as_ref().unwrap().with_header {
-            count_reader.lines().count() - 1
-        } else {
-            count_reader.lines().count()
-        };
+        // blank lines are no records
+        let n_lines = ReaderBuilder::new()
+            .has_headers(self.data_reading.as_ref().unwrap().with_header)
+            .from_path(file_path)
+            .unwrap()
+            .records()
+            .count();
 
         let mut nodes = self.cluster_nodes.clone();
         nodes.change_ids("DataManager");
-- 
2.43.0


From db7b720f9fd423ee4fc5c3be0b8a91dd54854d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:14 +0000
Subject: [PATCH 17/22] fix: partitions are right when they are shorter than
 the overlap

read_csv kept at most one overlap buffer, so a pattern length above the
partition length (or more left-over rows than the overlap) sent nodes
the wrong rows or panicked at the end.
---
 src/data_manager/data_reader/mod.rs | 35 ++++++++++-------------------
 src/utils/mod.rs                    |  2 +-
 2 files changed, 13 insertions(+), 24 deletions(-)

diff --git a/src/data_manager/data_reader/mod.rs b/src/data_manager/data_reader/mod.rs
index 31430d6..2947c9b 100644
--- a/src/data_manager/data_reader/mod.rs
+++ b/src/data_manager/data_reader/mod.rs
@@ -48,52 +48,41 @@ impl DataReader for DataManager {
             .from_reader(file);
 
         let partition_len = num_integer::Integer::div_floor(&n_lines, &receivers.len());
-        let last_overlap = n_lines - (partition_len * receivers.len());
-        let mut receiver_iterator: AnyClusterNodesIterator<Self> = receivers.clone().into_iter();
+        let overlap = self.data_reading.as_ref().unwrap().overlap;
+        let mut receiver_iterator: AnyClusterNodesIterator<Self> = receivers.into_iter();
         let mut buffer = vec![];
-        let mut overlap_buffer = vec![];
 
         for record in reader.records() {
             match record {
                 Ok(r) => {
-                    let strings = r.iter().map(|x| x.to_string()).collect();
-                    if buffer.len() < partition_len {
-                        buffer.push(strings);
-                    } else if receivers.len() > 1
-                        && ((overlap_buffer.len() < self.data_reading.as_ref().unwrap().overlap
-                            && receiver_iterator.last_position().not())
-                            || (overlap_buffer.len() < last_overlap
-                                && receiver_iterator.last_position()))
+                    buffer.push(r.iter().map(|x| x.to_string()).collect());
+                    // the last receiver gets all that is left
+                    if buffer.len() == partition_len + overlap
+                        && receiver_iterator.last_position().not()
                     {
-                        overlap_buffer.push(strings);
-                    } else {
-                        let mut data = buffer.clone();
-                        data.extend(overlap_buffer.clone());
                         receiver_iterator
                             .next()
                             .unwrap()
-                            .do_send(DataPartitionMessage { data });
+                            .do_send(DataPartitionMessage {
+                                data: buffer.clone(),
+                            });
                         debug!(
                             "Sent data to receiver {}",
                             receiver_iterator.get_position() - 1
                         );
 
-                        buffer.clear();
-                        buffer.extend(overlap_buffer.clone());
-                        buffer.push(strings);
-                        overlap_buffer.clear();
+                        // the overlap also belongs to the next receivers
+                        buffer.drain(..partition_len);
                     }
                 }
                 Err(e) => panic!("{}", e.to_string()),
             }
         }
 
-        let mut data = buffer.clone();
-        data.extend(overlap_buffer.clone());
         receiver_iterator
             .next()
             .unwrap()
-            .do_send(DataPartitionMessage { data });
+            .do_send(DataPartitionMessage { data: buffer });
         debug!(
             "Sent data to receiver {}",
             receiver_iterator.get_position() - 1
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 6b21438..369efe9 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -200,7 +200,7 @@ pub struct AnyClusterNodesIterator<T: Actor> {
 
 impl<T: Actor> AnyClusterNodesIterator<T> {
     pub fn last_position(&mut self) -> bool {
-        self.position >= self.any_cluster_nodes.len()
+        self.position + 1 >= self.any_cluster_nodes.len()
     }
 
     pub fn get_position(&mut self) -> usize {
-- 
2.43.0


From 11bce14bc4581ea787a62b945b3fa47e8c538011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:21 +0000
Subject: [PATCH 18/22] fix: minima and maxima of data in column-major order

---
 src/utils/ndarray_extensions/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/utils/ndarray_extensions/mod.rs b/src/utils/ndarray_extensions/mod.rs
index c625c73..ac5a6f2 100644
--- a/src/utils/ndarray_extensions/mod.rs
+++ b/src/utils/ndarray_extensions/mod.rs
@@ -92,8 +92,7 @@ where
     fn min_axis(&self, axis: Axis) -> Array1<A> {
         let _n = self.len_of(axis);
         let mut res = Array::zeros(self.raw_dim().remove_axis(axis));
-        let stride = self.strides()[1 - axis.index()];
-        if self.ndim() == 2 && stride == 1 {
+        if self.ndim() == 2 {
             let ax = axis.index();
             for (i, elt) in res.iter_mut().enumerate() {
                 let mut smallest = A::max_value();
@@ -112,8 +111,7 @@ where
 
     fn max_axis(&self, axis: Axis) -> Array1<A> {
         let mut res = Array::zeros(self.raw_dim().remove_axis(axis));
-        let stride = self.strides()[1 - axis.index()];
-        if self.ndim() == 2 && stride == 1 {
+        if self.ndim() == 2 {
             let ax = axis.index();
             for (i, elt) in res.iter_mut().enumerate() {
                 let mut largest = A::min_value();
-- 
2.43.0


From 7d9a7556e6d57f4850fe7777ae5d37bf3dea19a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:21 +0000
Subject: [PATCH 19/22] fix: merged variance of the nodes' standard deviations

---
 src/data_manager/stats_collector/std.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_manager/stats_collector/std.rs b/src/data_manager/stats_collector/std.rs
index b3f7cd2..ad22a23 100644
--- a/src/data_manager/stats_collector/std.rs
+++ b/src/data_manager/stats_collector/std.rs
@@ -77,7 +77,7 @@ impl Handler<StdNodeMessage> for DataManager {
                     std_calcuation.m2 = Some(
                         msg.m2
                             + m2
-                            + delta.clone() * delta * ((n + msg.n) as f32 / global_n as f32),
+                            + delta.clone() * delta * ((n * msg.n) as f32 / global_n as f32),
                     );
 
                     std_calcuation.mean =
@@ -96,7 +96,7 @@ impl Handler<StdNodeMessage> for DataManager {
                         let delta: Array1<f32> = msg.mean.clone() - mean;
                         let m2 = msg.m2
                             + m2
-                            + delta.clone() * delta * ((n + msg.n) as f32 / global_n as f32);
+                            + delta.clone() * delta * ((n * msg.n) as f32 / global_n as f32);
                         std_calcuation.n = Some(global_n);
                         (m2 / (global_n - 1) as f32)
                             .iter()
-- 
2.43.0


From 5f79c67166f629e85853b5f14327b848c0196cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:53 +0000
Subject: [PATCH 20/22] fix: clustering of equal values panics (covariance
 cannot be inverted)

---
 .../multi_kde/actors/gaussian_kde.rs          | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs b/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
index 6cc7873..045c909 100644
--- a/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
+++ b/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
@@ -51,8 +51,17 @@ impl GaussianKDEActor {
 
         let weights = self.calculate_weights();
         let scotts_factor = self.scotts_factor(weights.view());
-        let precision = self.compute_covariance(scotts_factor);
-        self.evaluate(grid, weights, precision, ctx);
+        match self.compute_covariance(scotts_factor) {
+            Some(precision) => self.evaluate(grid, weights, precision, ctx),
+            // all values are the same: there are no peaks
+            None => self
+                .receiver
+                .as_ref()
+                .unwrap()
+                .do_send(GaussianKDEResponse {
+                    kernel_estimate: Array1::zeros(self.resolution),
+                }),
+        }
     }
 
     fn evaluate(
@@ -95,10 +104,10 @@ impl GaussianKDEActor {
         }
     }
 
-    fn compute_covariance(&self, factor: f32) -> Array2<f32> {
+    fn compute_covariance(&self, factor: f32) -> Option<Array2<f32>> {
         let covariance = self.data.as_ref().unwrap().t().cov(1.).unwrap();
-        let covariance_inv = covariance.inv().unwrap(); // todo: catch exception
-        covariance_inv / factor.powi(2)
+        let covariance_inv = covariance.inv().ok()?;
+        Some(covariance_inv / factor.powi(2))
     }
 
     fn scotts_factor(&self, weights: ArrayView2<f32>) -> f32 {
-- 
2.43.0


From b6cbe86981ac1d13771ebeb7ab2462ae2cb847e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:04 +0000
Subject: [PATCH 21/22] fix: explain a series whose first windows contribute
 nothing in any dimension

---
 src/training/scoring/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 25619dc..62e6c59 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -354,7 +354,10 @@ impl Handler<QueryClusterContributionResponse> for Training {
         let mut last_contribution = None;
         for c in contributions.iter_mut() {
             if c.sum() == 0.0 {
-                *c = last_contribution.expect("No contribution");
+                // the first windows have no previous contribution, they keep their value
+                if let Some(last_contribution) = last_contribution {
+                    *c = last_contribution;
+                }
             } else {
                 last_contribution = Some(*c);
             }
-- 
2.43.0


From 769bf9e4b12042e04927f79077c40daeb15d3fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:04 +0000
Subject: [PATCH 22/22] fix: explain a series without any node

---
 src/training/anomaly_contribution/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/training/anomaly_contribution/mod.rs b/src/training/anomaly_contribution/mod.rs
index a7763b6..eacd6ac 100644
--- a/src/training/anomaly_contribution/mod.rs
+++ b/src/training/anomaly_contribution/mod.rs
@@ -133,7 +133,8 @@ impl AnomalyContribution {
             .collect();
 
         let contribution = if contributions.is_empty() {
-            let n_dims = *self.n_dims.as_ref().unwrap();
+            // no node has been recorded at all if the series enters no segment
+            let n_dims = self.n_dims.unwrap_or(0);
             Array1::zeros([n_dims])
         } else {
             contributions = contributions
-- 
2.43.0

