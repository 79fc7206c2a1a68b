From 405690ddd8ebd9bcacb6682da76eff60c636ea83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:36 +0000
Subject: [PATCH 01/22] fix: do not panic when the very first transition of a
 node wraps around with two nodes only

---
 src/training/edge_estimation/edges_orderer.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/training/edge_estimation/edges_orderer.rs b/src/training/edge_estimation/edges_orderer.rs
index fabffb7..3fa6db6 100644
--- a/src/training/edge_estimation/edges_orderer.rs
+++ b/src/training/edge_estimation/edges_orderer.rs
@@ -22,6 +22,8 @@ pub(crate) struct EdgesOrderer {
     pub edges_large: Vec<Edge>,
     pub first_node: Option<NodeRef>,
     pub middle_node: Option<NodeRef>,
+    /// first node after the gap, i.e. the transition's first node
+    pub gap_node: Option<NodeRef>,
     pub last_node: Option<NodeRef>,
 }
 
@@ -49,6 +51,7 @@ impl EdgesOrderer {
                 Some(first_edge) => first_edge.get_from_node(),
                 None => previous_node.clone(),
             });
+            self.gap_node = Some(current_node.clone());
             if let Some(previous_transition_node) = &self.previous_transition_node {
                 self.edges_large.push(Edge::new(
                     previous_transition_node.clone(),
@@ -85,12 +88,13 @@ impl EdgesOrderer {
     pub fn into_vec(mut self) -> Vec<Edge> {
         match &self.middle_node {
             Some(middle_node) => {
-                let previous_node = self
-                    .edges_large
-                    .last()
-                    .as_ref()
-                    .expect("Should be filled, we have a middle_node!")
-                    .get_to_node();
+                let previous_node = match self.edges_large.last() {
+                    Some(last_edge) => last_edge.get_to_node(),
+                    None => self
+                        .gap_node
+                        .clone()
+                        .expect("Should be filled, we have a middle_node!"),
+                };
                 let connecting_edge = Edge::new(previous_node, middle_node.clone());
                 self.push(connecting_edge);
 
-- 
2.43.0


From a72597b43daaf0bc6efce43111cedd53d56c3ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:36 +0000
Subject: [PATCH 02/22] fix: distributed PCA keeps early messages and waits for
 the means of all cluster nodes

---
 src/training/rotation/mod.rs     |  4 +++-
 src/training/rotation/pca/mod.rs | 25 ++++++++++++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/training/rotation/mod.rs b/src/training/rotation/mod.rs
index a604255..67b5c62 100644
--- a/src/training/rotation/mod.rs
+++ b/src/training/rotation/mod.rs
@@ -48,7 +48,9 @@ impl Rotator for Training {
         self.rotation.reduced = Some(reduced);
         self.rotation.reduced_ref = Some(reduced_ref);
 
-        self.rotation.pca = PCA::new(self.cluster_nodes.get_own_idx(), 3);
+        self.rotation
+            .pca
+            .reset(self.cluster_nodes.get_own_idx(), 3);
         self.run_pca();
     }
 
diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index 8b43799..190c1c4 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -45,8 +45,17 @@ impl PCA {
         }
     }
 
+    /// Resets everything but messages, which might already have been received from faster cluster nodes
+    pub fn reset(&mut self, id: usize, n_components: usize) {
+        *self = Self {
+            buffer: std::mem::take(&mut self.buffer),
+            means_buffer: std::mem::take(&mut self.means_buffer),
+            ..Self::new(id, n_components)
+        };
+    }
+
     pub fn clear(&mut self) {
-        *self = Self::new(self.id, self.n_components);
+        self.reset(self.id, self.n_components);
     }
 }
 
@@ -111,6 +120,8 @@ impl PCAnalyzer for Training {
 
         self.send_to_main();
         self.send_to_neighbor_or_finalize();
+        self.resolve_means_buffer();
+        self.resolve_buffer();
     }
 
     fn helper_center_columns_decomposition(&mut self) {
@@ -183,7 +194,12 @@ impl PCAnalyzer for Training {
         {
             self.rotation.pca.r_count += 1;
             self.send_to_neighbor_or_finalize()
-        } else if id == 0 && threshold == 0 {
+        } else if id == 0
+            && threshold == 0
+            && self.rotation.pca.n.as_ref().map_or(0, |n| n.len())
+                == self.cluster_nodes.len_incl_own()
+        {
+            // all means must have been received, too
             self.finalize()
         }
     }
@@ -282,6 +298,9 @@ impl Handler<PCAMeansMessage> for Training {
                 self.rotation.pca.n.as_ref().unwrap().clone(),
                 arr1(&[msg.n as f32])
             ]);
+            if self.rotation.pca.r_count > 0 {
+                self.send_to_neighbor_or_finalize();
+            }
         } else {
             self.rotation.pca.means_buffer.push(msg);
         }
@@ -336,8 +355,8 @@ impl Handler<PCAHelperMessage> for Training {
 
             self.send_to_main();
             self.send_to_neighbor_or_finalize();
-            self.resolve_buffer();
             self.resolve_means_buffer();
+            self.resolve_buffer();
         }
     }
 }
-- 
2.43.0


From 7a921f4e83d428cce03be774e15a5ddcd62865bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:36 +0000
Subject: [PATCH 03/22] fix: self-correction counts every transition of a
 cluster node only once

---
 src/training/segmentation/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index a5c3f60..42b430d 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -300,11 +300,10 @@ impl Segmenter for Training {
                 self.segmentation
                     .transition_count_protocol
                     .resolve_buffer(ctx.address().recipient());
-                let transition_count = self.data_store.count_transitions()
-                    + node_transitions
-                        .iter()
-                        .map(|(_segment, transitions)| transitions.len())
-                        .sum::<usize>();
+                let transition_count = node_transitions
+                    .iter()
+                    .map(|(_segment, transitions)| transitions.len())
+                    .sum::<usize>();
                 next_node.do_send(TransitionCountMessage {
                     count: transition_count,
                     clockwise_count: self.segmentation.invalid_transition_directions,
-- 
2.43.0


From ba36ccc14c99b96ba74248a98c849f2b8127b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:36 +0000
Subject: [PATCH 04/22] fix: segmentation at the border between two cluster
 nodes' partitions

The first point of the next node may arrive before the own segments are built,
the next node may not have any transition at all, and the node questions
between the last own and the next node's first transition were missing.
---
 src/training/segmentation/messages.rs |  4 +-
 src/training/segmentation/mod.rs      | 77 ++++++++++++++++-----------
 2 files changed, 48 insertions(+), 33 deletions(-)

diff --git a/src/training/segmentation/messages.rs b/src/training/segmentation/messages.rs
index a3c037c..6a34f4d 100644
--- a/src/training/segmentation/messages.rs
+++ b/src/training/segmentation/messages.rs
@@ -9,10 +9,10 @@ pub struct SegmentMessage {
     pub(crate) segments: Vec<MaterializedTransition>,
 }
 
-#[derive(RemoteMessage, Serialize, Deserialize)]
+#[derive(RemoteMessage, Serialize, Deserialize, Clone)]
 pub struct SendFirstPointMessage {
     pub(crate) point: Point,
-    pub(crate) transition: MaterializedTransition,
+    pub(crate) transition: Option<MaterializedTransition>,
 }
 
 #[derive(Message)]
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index 42b430d..c566764 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -35,6 +35,9 @@ pub(crate) struct Segmentation {
     pub transition_count_protocol: RotationProtocol<TransitionCountMessage>,
     pub global_transition_count: usize,
     pub invalid_transition_directions: usize,
+    /// own segments are built, only the first point of the next cluster node is missing
+    waiting_for_points: bool,
+    first_point_buffer: Option<SendFirstPointMessage>,
 }
 
 pub(crate) trait Segmenter {
@@ -53,6 +56,7 @@ pub(crate) trait Segmenter {
         from_node_id: usize,
         to_node_id: usize,
     );
+    fn find_splits_after(&mut self, prev_transition: Option<Transition>, transition: &Transition);
     fn search_split_between_transitions(
         &mut self,
         prev_transition: Option<Transition>,
@@ -97,6 +101,10 @@ impl Segmenter for Training {
         let wait_for_points = self.try_send_inter_node_points();
         if wait_for_points {
             self.segmentation.transitions_for_nodes = node_transitions;
+            self.segmentation.waiting_for_points = true;
+            if let Some(msg) = self.segmentation.first_point_buffer.take() {
+                ctx.address().do_send(msg);
+            }
         } else {
             // if no other cluster node exists (i.e. local only)
             self.segmentation
@@ -134,13 +142,15 @@ impl Segmenter for Training {
                             self.data_store.add_transition(transition.clone());
                         }
 
-                        self.find_splits(
-                            last_transition,
-                            last_to_node_id,
-                            &transition,
-                            from_node_id,
-                            to_node_id,
-                        );
+                        if last_transition.is_some() || !is_not_first {
+                            self.find_splits(
+                                last_transition,
+                                last_to_node_id,
+                                &transition,
+                                from_node_id,
+                                to_node_id,
+                            );
+                        } // else: the previous cluster node knows the transition before
 
                         // foreign and own because transition can reach in foreign segments
                         match foreign_data.get_mut(&from_node_id) {
@@ -204,6 +214,21 @@ impl Segmenter for Training {
         self.search_split_within_transition(prev_transition, transition, from_node_id, to_node_id);
     }
 
+    fn find_splits_after(&mut self, prev_transition: Option<Transition>, transition: &Transition) {
+        let from_node_id = self.segment_id_to_assignment(transition.get_from_segment());
+        let to_node_id = self.segment_id_to_assignment(transition.get_to_segment());
+        let last_to_node_id = prev_transition
+            .as_ref()
+            .map(|prev| self.segment_id_to_assignment(prev.get_to_segment()));
+        self.find_splits(
+            prev_transition,
+            last_to_node_id,
+            transition,
+            from_node_id,
+            to_node_id,
+        );
+    }
+
     fn search_split_between_transitions(
         &mut self,
         prev_transition: Option<Transition>,
@@ -247,7 +272,7 @@ impl Segmenter for Training {
         let transition = self.segmentation.send_transition.take();
         match self.cluster_nodes.get_previous_idx() {
             Some(prev_idx) => {
-                if let (Some(point), Some(transition)) = (point, transition) {
+                if let Some(point) = point {
                     self.cluster_nodes
                         .get_as(&prev_idx, "Training")
                         .unwrap()
@@ -385,11 +410,17 @@ impl Handler<SendFirstPointMessage> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: SendFirstPointMessage, ctx: &mut Self::Context) -> Self::Result {
+        if !self.segmentation.waiting_for_points {
+            self.segmentation.first_point_buffer = Some(msg);
+            return;
+        }
+        self.segmentation.waiting_for_points = false;
+
         let spanning_transition = Transition::new(
             self.segmentation.last_point.take().unwrap().into_ref(),
             msg.point.into_ref(),
         );
-        let last_transition = self.segmentation.last_transition.as_ref().unwrap().clone();
+        let mut last_transition = self.segmentation.last_transition.clone();
 
         if spanning_transition.crosses_segments()
             & spanning_transition.has_valid_direction(self.parameters.rate as isize)
@@ -397,22 +428,13 @@ impl Handler<SendFirstPointMessage> for Training {
             // valid transition
             let from_node_id =
                 self.segment_id_to_assignment(spanning_transition.get_from_segment());
-            let to_node_id = self.segment_id_to_assignment(spanning_transition.get_to_segment());
-            let last_transition_to_cluster_id =
-                self.segment_id_to_assignment(last_transition.get_to_segment());
 
             if from_node_id == self.cluster_nodes.get_own_idx() {
                 // normal transition
                 self.data_store.add_transition(spanning_transition.clone());
             }
 
-            self.find_splits(
-                Some(last_transition),
-                Some(last_transition_to_cluster_id),
-                &spanning_transition,
-                from_node_id,
-                to_node_id,
-            );
+            self.find_splits_after(last_transition, &spanning_transition);
 
             match self
                 .segmentation
@@ -426,19 +448,12 @@ impl Handler<SendFirstPointMessage> for Training {
                         .insert(from_node_id, vec![spanning_transition.materialize()]);
                 }
             }
-        } else {
-            let transition = msg.transition.into_transition();
-            let transition_from_cluster_id =
-                self.segment_id_to_assignment(transition.get_from_segment());
-            let last_transition_to_cluster_id =
-                self.segment_id_to_assignment(last_transition.get_to_segment());
+            last_transition = Some(spanning_transition);
+        }
 
-            self.search_split_between_transitions(
-                Some(last_transition),
-                &transition,
-                transition_from_cluster_id,
-                last_transition_to_cluster_id,
-            );
+        if let Some(transition) = msg.transition {
+            // the next cluster node does not know the transition before its first one
+            self.find_splits_after(last_transition, &transition.into_transition());
         }
 
         let node_transitions = self.segmentation.transitions_for_nodes.clone();
-- 
2.43.0


From 05a2f6a7df0e915b688102e591d35e35ef3579c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:37 +0000
Subject: [PATCH 05/22] fix: send all edges to the previous cluster node that
 its last queries need

---
 src/data_store/mod.rs           | 4 ++++
 src/training/scoring/overlap.rs | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/data_store/mod.rs b/src/data_store/mod.rs
index 0d8d795..4cc3c49 100644
--- a/src/data_store/mod.rs
+++ b/src/data_store/mod.rs
@@ -184,6 +184,10 @@ impl DataStore {
         self.edges.to_vec()
     }
 
+    pub fn count_edges(&self) -> usize {
+        self.edges.len()
+    }
+
     pub fn slice_edges(&self, range: Range<usize>) -> Iter<'_, EdgeRef> {
         self.edges[range].iter()
     }
diff --git a/src/training/scoring/overlap.rs b/src/training/scoring/overlap.rs
index 09798e7..7da151e 100644
--- a/src/training/scoring/overlap.rs
+++ b/src/training/scoring/overlap.rs
@@ -11,7 +11,9 @@ pub(crate) trait ScoringOverlap {
 
 impl ScoringOverlap for Training {
     fn send_overlap_to_neighbor(&mut self, ctx: &mut Context<Training>) {
-        let to_edge_idx = self.scoring.edges_in_time[self.parameters.query_length - 1];
+        // a query also takes the first edge after its last point into account
+        let to_edge_idx = (self.scoring.edges_in_time[self.parameters.query_length - 1] + 1)
+            .min(self.data_store.count_edges());
         let overlap = self
             .data_store
             .slice_edges(0..to_edge_idx)
-- 
2.43.0


From 6adfb7fe342f1b87143696cb268a5ec3a8e74777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:37 +0000
Subject: [PATCH 06/22] fix: edges of one transition stay in order when
 different cluster nodes contribute them

---
 src/data_store/mod.rs             | 23 +++++++++++++++++++++++
 src/training/transposition/mod.rs |  3 ++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/data_store/mod.rs b/src/data_store/mod.rs
index 4cc3c49..1e8fe7b 100644
--- a/src/data_store/mod.rs
+++ b/src/data_store/mod.rs
@@ -8,6 +8,7 @@ use crate::data_store::transition::{
     MaterializedTransition, Transition, TransitionMixin, TransitionRef,
 };
 use ndarray::Array1;
+use std::cmp::Ordering;
 use std::ops::Range;
 use std::slice::Iter;
 
@@ -197,6 +198,28 @@ impl DataStore {
             .sort_by(|edge_a, edge_b| edge_a.get_to_id().partial_cmp(&edge_b.get_to_id()).unwrap());
     }
 
+    /// Sorts edges along the path, i.e. also edges of the same transition are in order. A transition
+    /// starts with the edge coming from the previous transition and spans at most half the segments.
+    pub fn sort_edges_along_path(&mut self, n_segments: usize) {
+        let is_inner = |edge: &EdgeRef| edge.get_from_node().get_from_id() == edge.get_to_id();
+        self.edges.sort_by(|edge_a, edge_b| {
+            edge_a
+                .get_to_id()
+                .cmp(&edge_b.get_to_id())
+                .then_with(|| is_inner(edge_a).cmp(&is_inner(edge_b)))
+                .then_with(|| {
+                    let segment_a = edge_a.get_to_node().get_segment_id();
+                    let segment_b = edge_b.get_to_node().get_segment_id();
+                    let distance = (n_segments + segment_b - segment_a) % n_segments;
+                    match distance {
+                        0 => Ordering::Equal,
+                        d if d <= n_segments / 2 => Ordering::Less,
+                        _ => Ordering::Greater,
+                    }
+                })
+        });
+    }
+
     // --- Misc
 
     pub fn wipe_graph(&mut self) -> Vec<MaterializedEdge> {
diff --git a/src/training/transposition/mod.rs b/src/training/transposition/mod.rs
index 9b48be1..97f7d40 100644
--- a/src/training/transposition/mod.rs
+++ b/src/training/transposition/mod.rs
@@ -93,7 +93,8 @@ impl Transposer for Training {
     }
 
     fn transpose_finalize(&mut self, ctx: &mut Context<Training>) {
-        self.data_store.sort_edges();
+        self.data_store
+            .sort_edges_along_path(self.parameters.rate);
         ctx.address().do_send(TranspositionDone);
     }
 }
-- 
2.43.0


From 4fb7fc80a6f64216b85a608b0137f8d8aa75dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:37 +0000
Subject: [PATCH 07/22] fix: sub nodes stay in the cluster until the main node
 received all scores

---
 src/training/mod.rs              | 37 +++++++++++++++++++++++++++++---
 src/training/scoring/messages.rs |  3 +++
 src/training/scoring/mod.rs      |  2 ++
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/training/mod.rs b/src/training/mod.rs
index a2d4f9d..16936d5 100644
--- a/src/training/mod.rs
+++ b/src/training/mod.rs
@@ -8,7 +8,7 @@ use std::ops::Sub;
 use crate::data_manager::{DataLoadedAndProcessed, DataManager, DatasetStats, LoadDataMessage};
 use crate::data_store::DataStore;
 use crate::messages::PoisonPill;
-use crate::parameters::Parameters;
+use crate::parameters::{Parameters, Role};
 use crate::training::anomaly_contribution::AnomalyContribution;
 use crate::training::edge_estimation::{EdgeEstimationDone, EdgeEstimator};
 use crate::training::intersection_calculation::{
@@ -25,7 +25,7 @@ use crate::training::rotation::{
     RotationMatrixMessage, Rotator,
 };
 use crate::training::scoring::messages::{
-    EdgeWeights, NodeDegrees, OverlapRotation, ScoringDone, SubScores,
+    EdgeWeights, MainDone, NodeDegrees, OverlapRotation, ScoringDone, SubScores,
 };
 use crate::training::scoring::weights::ScoringWeights;
 use crate::training::scoring::{Scorer, Scoring};
@@ -67,7 +67,8 @@ mod transposition;
     PCADecompositionMessage,
     PCAComponents,
     RotationMatrixMessage,
-    TransitionCountMessage
+    TransitionCountMessage,
+    MainDone
 )]
 pub struct Training {
     own_addr: Option<Addr<Self>>,
@@ -273,7 +274,37 @@ impl Handler<ScoringDone> for Training {
             sink.do_send(DetectionResponse { anomaly_score });
         }
 
+        match self.parameters.role {
+            Role::Sub { .. } if self.cluster_nodes.len() > 0 => {
+                // The scores still rotate to the main node through the sub nodes, hence, they have to
+                // stay in the cluster until the main node is done.
+                self.scoring.is_done = true;
+                if !self.scoring.is_main_done {
+                    return;
+                }
+            }
+            _ => {
+                for (_, node) in self.cluster_nodes.iter() {
+                    let mut addr = node.clone();
+                    addr.change_id("Training".to_string());
+                    addr.do_send(MainDone);
+                }
+            }
+        }
+
         ctx.stop();
         System::current().stop();
     }
 }
+
+impl Handler<MainDone> for Training {
+    type Result = ();
+
+    fn handle(&mut self, _msg: MainDone, ctx: &mut Self::Context) -> Self::Result {
+        self.scoring.is_main_done = true;
+        if self.scoring.is_done {
+            ctx.stop();
+            System::current().stop();
+        }
+    }
+}
diff --git a/src/training/scoring/messages.rs b/src/training/scoring/messages.rs
index 005052c..a0546d3 100644
--- a/src/training/scoring/messages.rs
+++ b/src/training/scoring/messages.rs
@@ -56,3 +56,6 @@ pub struct SubScores {
     pub scores: Array1<f32>,
     pub first_empty: bool,
 }
+
+#[derive(RemoteMessage, Serialize, Deserialize, Default, Clone)]
+pub struct MainDone;
diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index e70537d..f096ba6 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -51,6 +51,8 @@ pub(crate) struct Scoring {
     score_rotation_protocol: RotationProtocol<SubScores>,
     helper_protocol: HelperProtocol,
     helper_buffer: HashMap<usize, ScoringHelperResponse>,
+    pub is_done: bool,
+    pub is_main_done: bool,
 }
 
 pub(crate) trait Scorer {
-- 
2.43.0


From 657867f103ff02210ab6d0957c2ac0920530e5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:58 +0000
Subject: [PATCH 08/22] fix: self-correction also counts the transitions
 between two cluster nodes' partitions

---
 src/training/segmentation/messages.rs |  3 +++
 src/training/segmentation/mod.rs      | 36 +++++++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/src/training/segmentation/messages.rs b/src/training/segmentation/messages.rs
index 6a34f4d..65a3ae0 100644
--- a/src/training/segmentation/messages.rs
+++ b/src/training/segmentation/messages.rs
@@ -23,4 +23,7 @@ pub struct SegmentedMessage;
 pub(crate) struct TransitionCountMessage {
     pub count: usize,
     pub clockwise_count: usize,
+    pub cluster_node_id: usize,
+    pub first_point: Option<Point>,
+    pub last_point: Option<Point>,
 }
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index c566764..061852c 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -38,6 +38,8 @@ pub(crate) struct Segmentation {
     /// own segments are built, only the first point of the next cluster node is missing
     waiting_for_points: bool,
     first_point_buffer: Option<SendFirstPointMessage>,
+    /// first and last points of all cluster nodes, needed to count the transitions between them
+    border_points: HashMap<usize, (Option<Point>, Option<Point>)>,
 }
 
 pub(crate) trait Segmenter {
@@ -78,6 +80,7 @@ pub(crate) trait Segmenter {
         node_transitions: TransitionsForNodes,
         ctx: &mut Context<Training>,
     );
+    fn count_spanning_transitions(&mut self);
     fn try_self_correction(&mut self, ctx: &mut Context<Training>);
     fn finish_self_correction(&mut self, ctx: &mut Context<Training>);
     fn clear_segmentation(&mut self);
@@ -329,9 +332,18 @@ impl Segmenter for Training {
                     .iter()
                     .map(|(_segment, transitions)| transitions.len())
                     .sum::<usize>();
+                let own_id = self.cluster_nodes.get_own_idx();
+                let first_point = self.segmentation.send_point.clone();
+                let last_point = self.segmentation.last_point.clone();
+                self.segmentation
+                    .border_points
+                    .insert(own_id, (first_point.clone(), last_point.clone()));
                 next_node.do_send(TransitionCountMessage {
                     count: transition_count,
                     clockwise_count: self.segmentation.invalid_transition_directions,
+                    cluster_node_id: own_id,
+                    first_point,
+                    last_point,
                 });
                 self.segmentation.transition_count_protocol.sent();
                 self.segmentation.global_transition_count += transition_count;
@@ -344,6 +356,25 @@ impl Segmenter for Training {
         }
     }
 
+    fn count_spanning_transitions(&mut self) {
+        let border_points = std::mem::take(&mut self.segmentation.border_points);
+        for (id, (_, last_point)) in border_points.iter() {
+            let next_first_point = border_points
+                .get(&(id + 1))
+                .and_then(|(first_point, _)| first_point.clone());
+            if let (Some(from), Some(to)) = (last_point.clone(), next_first_point) {
+                let transition = Transition::new(from.into_ref(), to.into_ref());
+                if transition.crosses_segments() {
+                    if transition.has_valid_direction(self.parameters.rate as isize) {
+                        self.segmentation.global_transition_count += 1;
+                    } else {
+                        self.segmentation.invalid_transition_directions += 1;
+                    }
+                }
+            }
+        }
+    }
+
     fn try_self_correction(&mut self, ctx: &mut Context<Training>) {
         debug!(
             "{} < {}",
@@ -393,8 +424,13 @@ impl Handler<TransitionCountMessage> for Training {
 
         self.segmentation.global_transition_count += msg.count;
         self.segmentation.invalid_transition_directions += msg.clockwise_count;
+        self.segmentation.border_points.insert(
+            msg.cluster_node_id,
+            (msg.first_point.clone(), msg.last_point.clone()),
+        );
 
         if !self.segmentation.transition_count_protocol.is_running() {
+            self.count_spanning_transitions();
             self.try_self_correction(ctx);
         } else {
             match self.cluster_nodes.get_next_as("Training") {
-- 
2.43.0


From d5791937f3448442db1165f4a774e23d29d9bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:26 +0000
Subject: [PATCH 09/22] fix: messages that arrive before a rotation starts are
 not overtaken by later ones

---
 src/training/scoring/mod.rs      | 16 +++++++++++-----
 src/training/scoring/weights.rs  | 20 +++++++-------------
 src/training/segmentation/mod.rs |  6 +++---
 src/utils/rotation_protocol.rs   | 13 +++++--------
 4 files changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index f096ba6..9c8c161 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -72,8 +72,14 @@ impl Scorer for Training {
         self.scoring.edge_weight = self.calculate_edge_weight();
 
         if self.cluster_nodes.len() > 0 {
-            self.start_node_degrees_rotation(ctx);
-            self.start_edge_weight_rotation(ctx);
+            self.start_node_degrees_rotation();
+            self.start_edge_weight_rotation();
+            for msg in self.scoring.node_degrees_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
+            for msg in self.scoring.edge_weight_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
         } else {
             // non-distributed
             self.score(ctx);
@@ -167,9 +173,6 @@ impl Scorer for Training {
             self.scoring
                 .score_rotation_protocol
                 .start(self.cluster_nodes.len());
-            self.scoring
-                .score_rotation_protocol
-                .resolve_buffer(ctx.address().recipient());
             self.scoring
                 .subscores
                 .insert(own_idx, (scores.clone(), self.scoring.first_empty));
@@ -182,6 +185,9 @@ impl Scorer for Training {
                     first_empty: self.scoring.first_empty,
                 });
             self.scoring.score_rotation_protocol.sent();
+            for msg in self.scoring.score_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
         } else {
             self.normalize_score(&mut scores);
             self.scoring.score = Some(scores);
diff --git a/src/training/scoring/weights.rs b/src/training/scoring/weights.rs
index b40a767..dbe461b 100644
--- a/src/training/scoring/weights.rs
+++ b/src/training/scoring/weights.rs
@@ -13,8 +13,8 @@ pub(crate) trait ScoringWeights {
     fn count_edges_in_time(&mut self) -> Vec<usize>;
     fn calculate_edge_weight(&mut self) -> HashMap<MaterializedEdge, usize>;
     fn calculate_node_degrees(&mut self) -> HashMap<NodeRef, usize>;
-    fn start_node_degrees_rotation(&mut self, ctx: &mut Context<Training>);
-    fn start_edge_weight_rotation(&mut self, ctx: &mut Context<Training>);
+    fn start_node_degrees_rotation(&mut self);
+    fn start_edge_weight_rotation(&mut self);
     fn init_done(&mut self) -> bool;
 }
 
@@ -115,13 +115,10 @@ impl ScoringWeights for Training {
         node_degrees
     }
 
-    fn start_node_degrees_rotation(&mut self, ctx: &mut Context<Training>) {
+    fn start_node_degrees_rotation(&mut self) {
         self.scoring
             .node_degrees_rotation_protocol
             .start(self.cluster_nodes.len());
-        self.scoring
-            .node_degrees_rotation_protocol
-            .resolve_buffer(ctx.address().recipient());
         self.cluster_nodes
             .get_as(&self.cluster_nodes.get_next_idx().unwrap(), "Training")
             .unwrap()
@@ -136,13 +133,10 @@ impl ScoringWeights for Training {
         self.scoring.node_degrees_rotation_protocol.sent();
     }
 
-    fn start_edge_weight_rotation(&mut self, ctx: &mut Context<Training>) {
+    fn start_edge_weight_rotation(&mut self) {
         self.scoring
             .edge_weight_rotation_protocol
             .start(self.cluster_nodes.len());
-        self.scoring
-            .edge_weight_rotation_protocol
-            .resolve_buffer(ctx.address().recipient());
         self.cluster_nodes
             .get_as(&self.cluster_nodes.get_next_idx().unwrap(), "Training")
             .unwrap()
@@ -233,9 +227,9 @@ impl Handler<ScoreInitDone> for Training {
             self.send_overlap_to_neighbor(ctx);
         } else {
             self.scoring.overlap_rotation_protocol.start(1);
-            self.scoring
-                .overlap_rotation_protocol
-                .resolve_buffer(ctx.address().recipient());
+            for msg in self.scoring.overlap_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
         }
     }
 }
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index 061852c..af835bf 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -325,9 +325,6 @@ impl Segmenter for Training {
                 self.segmentation
                     .transition_count_protocol
                     .start(self.cluster_nodes.len());
-                self.segmentation
-                    .transition_count_protocol
-                    .resolve_buffer(ctx.address().recipient());
                 let transition_count = node_transitions
                     .iter()
                     .map(|(_segment, transitions)| transitions.len())
@@ -348,6 +345,9 @@ impl Segmenter for Training {
                 self.segmentation.transition_count_protocol.sent();
                 self.segmentation.global_transition_count += transition_count;
                 self.segmentation.transitions_for_nodes = node_transitions;
+                for msg in self.segmentation.transition_count_protocol.take_buffer() {
+                    self.handle(msg, ctx);
+                }
             }
             None => {
                 self.segmentation.global_transition_count = self.data_store.count_transitions();
diff --git a/src/utils/rotation_protocol.rs b/src/utils/rotation_protocol.rs
index 91d3418..5fdefc6 100644
--- a/src/utils/rotation_protocol.rs
+++ b/src/utils/rotation_protocol.rs
@@ -1,4 +1,4 @@
-use actix::{Message, Recipient};
+use actix::Message;
 use actix_telepathy::RemoteMessage;
 
 #[derive(Default, Clone)]
@@ -32,12 +32,9 @@ impl<T: Message + RemoteMessage + Clone> RotationProtocol<T> {
         (self.n_received < self.n_total) || (self.n_sent < self.n_total)
     }
 
-    pub fn resolve_buffer(&mut self, rec: Recipient<T>)
-    where
-        T::Result: Send,
-    {
-        for _ in 0..self.buffer.len() {
-            rec.do_send(self.buffer.remove(0));
-        }
+    /// The messages that arrived before the start. They must be handled right away: which message is
+    /// forwarded depends on the order of arrival, hence, none may overtake them.
+    pub fn take_buffer(&mut self) -> Vec<T> {
+        std::mem::take(&mut self.buffer)
     }
 }
-- 
2.43.0


From c1833eb4870ac305fe12291cc1533529376c85ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:03 +0000
Subject: [PATCH 10/22] fix: scoring terminates if there are more threads than
 scores

---
 src/training/scoring/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 9c8c161..8930a07 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -92,7 +92,6 @@ impl Scorer for Training {
         }
 
         let score_length = self.scoring.edges_in_time.len() - (self.parameters.query_length - 1);
-        self.scoring.helper_protocol.n_total = self.parameters.n_threads;
 
         let edges = self.data_store.get_edges();
         let edges_in_time = self.scoring.edges_in_time.clone();
@@ -140,11 +139,14 @@ impl Scorer for Training {
     }
 
     fn parallel_score(&mut self, score_length: usize) {
-        let n_per_thread = score_length / self.parameters.n_threads;
-        let n_rest = score_length % self.parameters.n_threads;
-
-        for i in 0..self.parameters.n_threads {
-            let rest = if i == self.parameters.n_threads - 1 {
+        // an empty task cannot be told apart from the one that starts at the same score
+        let n_tasks = self.parameters.n_threads.min(score_length).max(1);
+        let n_per_thread = score_length / n_tasks;
+        let n_rest = score_length % n_tasks;
+        self.scoring.helper_protocol.n_total = n_tasks;
+
+        for i in 0..n_tasks {
+            let rest = if i == n_tasks - 1 {
                 n_rest
             } else {
                 0
-- 
2.43.0


From d1e3527458e16567c15cbf159150aeb1372f2d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:03 +0000
Subject: [PATCH 11/22] fix: PCA terminates if the points do not fill the
 chunks of all threads

---
 src/training/rotation/pca/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index 190c1c4..783aa48 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -126,7 +126,16 @@ impl PCAnalyzer for Training {
 
     fn helper_center_columns_decomposition(&mut self) {
         let own_addr = self.own_addr.as_ref().unwrap().clone().recipient();
-        self.rotation.pca.helpers = (0..self.parameters.n_threads)
+        let n_rows = self
+            .rotation
+            .pca
+            .data
+            .as_ref()
+            .expect("PCA started before data is present!")
+            .shape()[0];
+        let chunk_size = num_integer::div_ceil(n_rows, self.parameters.n_threads);
+        // there must not be more helpers than chunks, because every helper waits for its neighbors
+        self.rotation.pca.helpers = (0..num_integer::div_ceil(n_rows, chunk_size))
             .into_iter()
             .map(|i| PCAHelper::start_helper(i, own_addr.clone()))
             .collect();
@@ -143,7 +152,6 @@ impl PCAnalyzer for Training {
             .data
             .as_ref()
             .expect("PCA started before data is present!");
-        let chunk_size = num_integer::div_ceil(data.shape()[0], self.parameters.n_threads);
         for (chunk, helper) in data
             .axis_chunks_iter(Axis(0), chunk_size)
             .zip(self.rotation.pca.helpers.iter())
-- 
2.43.0


From 4095418decb98f373d3d58aa31b758e4974df05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:48 +0000
Subject: [PATCH 12/22] fix: explainability does not panic if no node
 contributed to the first scores

---
 src/training/scoring/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 8930a07..6c65e06 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -360,7 +360,10 @@ impl Handler<QueryClusterContributionResponse> for Training {
         let mut last_contribution = None;
         for c in contributions.iter_mut() {
             if c.sum() == 0.0 {
-                *c = last_contribution.expect("No contribution");
+                // nothing to repeat as long as no node contributed yet
+                if let Some(last_contribution) = last_contribution {
+                    *c = last_contribution;
+                }
             } else {
                 last_contribution = Some(*c);
             }
-- 
2.43.0


From 4924c72b6d168cdfba7bece9ddca52657d61986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:35 +0000
Subject: [PATCH 13/22] fix: rows are counted as they are read when the input
 is distributed

Blank lines and line breaks within quotes were counted as rows, which gave
the cluster nodes wrong partitions.
---
 src/data_manager/data_reader/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/data_manager/data_reader/mod.rs b/src/data_manager/data_reader/mod.rs
index bc2a69e..09b445b 100644
--- a/src/data_manager/data_reader/mod.rs
+++ b/src/data_manager/data_reader/mod.rs
@@ -30,13 +30,13 @@ pub trait DataReader {
 
 impl DataReader for DataManager {
     fn read_csv(&mut self, file_path: &str, addr: Addr<Self>) {
-        let file = File::open(file_path).unwrap();
-        let count_reader = BufReader::new(file);
-        let n_lines = if self.data_reading.as_ref().unwrap().with_header {
-            count_reader.lines().count() - 1
-        } else {
-            count_reader.lines().count()
-        };
+        // neither blank lines nor line breaks within quotes make up a row
+        let n_lines = ReaderBuilder::new()
+            .has_headers(self.data_reading.as_ref().unwrap().with_header)
+            .from_path(file_path)
+            .unwrap()
+            .records()
+            .count();
 
         let mut nodes = self.cluster_nodes.clone();
         nodes.change_ids("DataManager");
-- 
2.43.0


From bce481184a0d57b71debf386f6a8f9747a5d534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:25 +0000
Subject: [PATCH 14/22] fix: an end column beyond the last column selects all
 columns, like a Python range

---
 src/data_manager/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_manager/mod.rs b/src/data_manager/mod.rs
index 884c039..518ec75 100644
--- a/src/data_manager/mod.rs
+++ b/src/data_manager/mod.rs
@@ -197,7 +197,7 @@ impl Handler<DataPartitionMessage> for DataManager {
         let n_rows = msg.data.len();
         let until_column = match self.parameters.column_end.cmp(&0) {
             Ordering::Equal => msg.data[0].len(),
-            Ordering::Greater => self.parameters.column_end as usize,
+            Ordering::Greater => (self.parameters.column_end as usize).min(msg.data[0].len()),
             Ordering::Less => (msg.data[0].len() as isize + self.parameters.column_end) as usize,
         };
 
-- 
2.43.0


From 471d1705074759c46e67e03c5f26978b0135b951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:40 +0000
Subject: [PATCH 15/22] fix: the last cluster node also gets a remainder of at
 least the pattern length

---
 src/utils/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 981cc3e..7972dba 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -199,8 +199,9 @@ pub struct AnyClusterNodesIterator<T: Actor> {
 }
 
 impl<T: Actor> AnyClusterNodesIterator<T> {
+    /// is the next item the last one?
     pub fn last_position(&mut self) -> bool {
-        self.position >= self.any_cluster_nodes.len()
+        self.position + 1 >= self.any_cluster_nodes.len()
     }
 
     pub fn get_position(&mut self) -> usize {
-- 
2.43.0


From 403d12be88a3be0ba35ac0e6380e2bcc17e171ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:02 +0000
Subject: [PATCH 16/22] fix: a cluster node without transitions passes on the
 first transition after its partition

---
 src/training/segmentation/mod.rs | 49 +++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index af835bf..b52db23 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -74,6 +74,7 @@ pub(crate) trait Segmenter {
         to_node_id: usize,
     );
     fn try_send_inter_node_points(&mut self) -> bool;
+    fn send_first_point(&mut self);
     fn distribute_segments(&mut self, foreign_data: TransitionsForNodes);
     fn self_correction(
         &mut self,
@@ -271,19 +272,15 @@ impl Segmenter for Training {
     }
 
     fn try_send_inter_node_points(&mut self) -> bool {
-        let point = self.segmentation.send_point.take();
-        let transition = self.segmentation.send_transition.take();
         match self.cluster_nodes.get_previous_idx() {
-            Some(prev_idx) => {
-                if let Some(point) = point {
-                    self.cluster_nodes
-                        .get_as(&prev_idx, "Training")
-                        .unwrap()
-                        .do_send(SendFirstPointMessage { point, transition });
-                }
-
+            Some(_) => {
                 let own_id = self.cluster_nodes.get_own_idx();
-                own_id.ne(&self.cluster_nodes.len()) // last cluster node does not receive a SendFirstPointMessage
+                let wait_for_points = own_id.ne(&self.cluster_nodes.len()); // last cluster node does not receive a SendFirstPointMessage
+                if self.segmentation.send_transition.is_some() || !wait_for_points {
+                    self.send_first_point();
+                } // else: the first transition is only known after the next cluster node sent its own
+
+                wait_for_points
             }
             None => {
                 // local only case
@@ -296,6 +293,17 @@ impl Segmenter for Training {
         }
     }
 
+    fn send_first_point(&mut self) {
+        let point = self.segmentation.send_point.take();
+        let transition = self.segmentation.send_transition.take();
+        if let Some(point) = point {
+            self.cluster_nodes
+                .get_prev_as("Training")
+                .unwrap()
+                .do_send(SendFirstPointMessage { point, transition });
+        }
+    }
+
     fn distribute_segments(&mut self, mut foreign_data: TransitionsForNodes) {
         if self.cluster_nodes.len() == 0 {
             self.own_addr
@@ -457,6 +465,8 @@ impl Handler<SendFirstPointMessage> for Training {
             msg.point.into_ref(),
         );
         let mut last_transition = self.segmentation.last_transition.clone();
+        // no own transition, hence only the previous cluster node knows the transition before
+        let is_quiet = self.segmentation.send_point.is_some();
 
         if spanning_transition.crosses_segments()
             & spanning_transition.has_valid_direction(self.parameters.rate as isize)
@@ -470,7 +480,11 @@ impl Handler<SendFirstPointMessage> for Training {
                 self.data_store.add_transition(spanning_transition.clone());
             }
 
-            self.find_splits_after(last_transition, &spanning_transition);
+            if is_quiet {
+                self.segmentation.send_transition = Some(spanning_transition.materialize());
+            } else {
+                self.find_splits_after(last_transition, &spanning_transition);
+            }
 
             match self
                 .segmentation
@@ -488,8 +502,15 @@ impl Handler<SendFirstPointMessage> for Training {
         }
 
         if let Some(transition) = msg.transition {
-            // the next cluster node does not know the transition before its first one
-            self.find_splits_after(last_transition, &transition.into_transition());
+            if is_quiet && last_transition.is_none() {
+                self.segmentation.send_transition = Some(transition);
+            } else {
+                // the next cluster node does not know the transition before its first one
+                self.find_splits_after(last_transition, &transition.into_transition());
+            }
+        }
+        if is_quiet {
+            self.send_first_point();
         }
 
         let node_transitions = self.segmentation.transitions_for_nodes.clone();
-- 
2.43.0


From 78015c53922dd3f66b0ba3142a5628438a5630ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:59 +0000
Subject: [PATCH 17/22] fix: minimum and maximum of arrays in any memory layout

---
 src/utils/ndarray_extensions/mod.rs | 39 +++++++++++------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/utils/ndarray_extensions/mod.rs b/src/utils/ndarray_extensions/mod.rs
index c625c73..2f981b5 100644
--- a/src/utils/ndarray_extensions/mod.rs
+++ b/src/utils/ndarray_extensions/mod.rs
@@ -90,42 +90,31 @@ where
     A: Float,
 {
     fn min_axis(&self, axis: Axis) -> Array1<A> {
-        let _n = self.len_of(axis);
         let mut res = Array::zeros(self.raw_dim().remove_axis(axis));
-        let stride = self.strides()[1 - axis.index()];
-        if self.ndim() == 2 && stride == 1 {
-            let ax = axis.index();
-            for (i, elt) in res.iter_mut().enumerate() {
-                let mut smallest = A::max_value();
-                for v in self.index_axis(Axis(1 - ax), i).iter() {
-                    if smallest.gt(v) {
-                        smallest = *v
-                    }
+        let ax = axis.index();
+        for (i, elt) in res.iter_mut().enumerate() {
+            let mut smallest = A::max_value();
+            for v in self.index_axis(Axis(1 - ax), i).iter() {
+                if smallest.gt(v) {
+                    smallest = *v
                 }
-                *elt = smallest;
             }
-        } else {
-            panic!("Not yet implemented!")
+            *elt = smallest;
         }
         res
     }
 
     fn max_axis(&self, axis: Axis) -> Array1<A> {
         let mut res = Array::zeros(self.raw_dim().remove_axis(axis));
-        let stride = self.strides()[1 - axis.index()];
-        if self.ndim() == 2 && stride == 1 {
-            let ax = axis.index();
-            for (i, elt) in res.iter_mut().enumerate() {
-                let mut largest = A::min_value();
-                for v in self.index_axis(Axis(1 - ax), i).iter() {
-                    if largest.lt(v) {
-                        largest = *v
-                    }
+        let ax = axis.index();
+        for (i, elt) in res.iter_mut().enumerate() {
+            let mut largest = A::min_value();
+            for v in self.index_axis(Axis(1 - ax), i).iter() {
+                if largest.lt(v) {
+                    largest = *v
                 }
-                *elt = largest;
             }
-        } else {
-            panic!("Not yet implemented!")
+            *elt = largest;
         }
         res
     }
-- 
2.43.0


From 26a59898c229809338d523b8c0dc345ee1035ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:36 +0000
Subject: [PATCH 18/22] fix: the Python binding builds with pyo3 0.20 (explicit
 signatures)

---
 src/python_binding.rs | 44 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/python_binding.rs b/src/python_binding.rs
index 61262e2..50913db 100644
--- a/src/python_binding.rs
+++ b/src/python_binding.rs
@@ -39,6 +39,20 @@ fn s2gpp_local_array<'py>(
 }
 
 #[pyfunction]
+#[pyo3(signature = (
+    data_path,
+    pattern_length,
+    latent,
+    query_length,
+    rate,
+    n_threads,
+    score_output_path,
+    column_start,
+    column_end,
+    clustering,
+    self_correction,
+    local_host
+))]
 fn s2gpp_local_file<'py>(
     _py: Python<'py>,
     data_path: String,
@@ -81,6 +95,21 @@ fn s2gpp_local_file<'py>(
 }
 
 #[pyfunction]
+#[pyo3(signature = (
+    data_path,
+    pattern_length,
+    latent,
+    query_length,
+    rate,
+    n_threads,
+    score_output_path,
+    column_start,
+    column_end,
+    clustering,
+    self_correction,
+    local_host,
+    n_cluster_nodes
+))]
 fn s2gpp_distributed_main<'py>(
     _py: Python<'py>,
     data_path: String,
@@ -120,6 +149,21 @@ fn s2gpp_distributed_main<'py>(
 }
 
 #[pyfunction]
+#[pyo3(signature = (
+    pattern_length,
+    latent,
+    query_length,
+    rate,
+    n_threads,
+    score_output_path,
+    column_start,
+    column_end,
+    clustering,
+    self_correction,
+    local_host,
+    n_cluster_nodes,
+    mainhost
+))]
 fn s2gpp_distributed_sub<'py>(
     _py: Python<'py>,
     pattern_length: usize,
-- 
2.43.0


From 288388c88c1f4a6ebb2b9c30c377130e3674f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:36 +0000
Subject: [PATCH 19/22] fix: Python: an unknown clustering is a ValueError, not
 a panic

---
 src/python_binding.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/python_binding.rs b/src/python_binding.rs
index 50913db..3b69a4e 100644
--- a/src/python_binding.rs
+++ b/src/python_binding.rs
@@ -25,7 +25,8 @@ fn s2gpp_local_array<'py>(
     params.query_length = query_length;
     params.rate = rate;
     params.n_threads = n_threads;
-    params.clustering = Clustering::from_str(&clustering).unwrap();
+    params.clustering =
+        Clustering::from_str(&clustering).map_err(exceptions::PyValueError::new_err)?;
     params.self_correction = self_correction;
 
     let data = data.as_array().to_owned();
@@ -68,6 +69,8 @@ fn s2gpp_local_file<'py>(
     self_correction: bool,
     local_host: String,
 ) -> PyResult<()> {
+    let clustering =
+        Clustering::from_str(&clustering).map_err(exceptions::PyValueError::new_err)?;
     let result = panic::catch_unwind(|| {
         let mut params = Parameters::default();
 
@@ -82,7 +85,7 @@ fn s2gpp_local_file<'py>(
         params.score_output_path = score_output_path;
         params.column_start = column_start;
         params.column_end = column_end;
-        params.clustering = Clustering::from_str(&clustering).unwrap();
+        params.clustering = clustering;
         params.self_correction = self_correction;
         params.local_host = local_host.parse().unwrap();
 
@@ -139,7 +142,8 @@ fn s2gpp_distributed_main<'py>(
     params.score_output_path = score_output_path;
     params.column_start = column_start;
     params.column_end = column_end;
-    params.clustering = Clustering::from_str(&clustering).unwrap();
+    params.clustering =
+        Clustering::from_str(&clustering).map_err(exceptions::PyValueError::new_err)?;
     params.self_correction = self_correction;
     params.local_host = local_host.parse()?;
     params.n_cluster_nodes = n_cluster_nodes;
@@ -193,7 +197,8 @@ fn s2gpp_distributed_sub<'py>(
     params.score_output_path = score_output_path;
     params.column_start = column_start;
     params.column_end = column_end;
-    params.clustering = Clustering::from_str(&clustering).unwrap();
+    params.clustering =
+        Clustering::from_str(&clustering).map_err(exceptions::PyValueError::new_err)?;
     params.self_correction = self_correction;
     params.local_host = local_host.parse()?;
     params.n_cluster_nodes = n_cluster_nodes;
-- 
2.43.0


From 3ab4d9491917b81e12b08ab705f500288ebd15c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:36 +0000
Subject: [PATCH 20/22] fix: Python: at least one thread by default, also on
 one processor

---
 s2gpp/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/s2gpp/__init__.py b/s2gpp/__init__.py
index f3c8a3f..c430771 100644
--- a/s2gpp/__init__.py
+++ b/s2gpp/__init__.py
@@ -28,7 +28,7 @@ class Series2GraphPP(BaseEstimator):
         self.latent = latent or int(self.pattern_length / 3)
         self.rate = rate
         self.query_length = query_length or self.pattern_length
-        self.n_threads = n_threads if n_threads > 0 else min(cpu_count() - 1, 1)
+        self.n_threads = n_threads if n_threads > 0 else max(cpu_count() - 1, 1)
         self.clustering = clustering
         self.self_correction = self_correction
         self.local_host = local_host
-- 
2.43.0


From 6101be25a362b5792ddf0b07a9cc1645f64566dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:36 +0000
Subject: [PATCH 21/22] fix: Python: main and sub estimators accept positional
 arguments

---
 s2gpp/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/s2gpp/__init__.py b/s2gpp/__init__.py
index c430771..b3067b4 100644
--- a/s2gpp/__init__.py
+++ b/s2gpp/__init__.py
@@ -100,15 +100,15 @@ class DistributedSeries2GraphPP(Series2GraphPP):
     @staticmethod
     def main(*args, **kwargs) -> 'DistributedSeries2GraphPP':
         return DistributedSeries2GraphPP(
+            DistributedRole.Main,
             *args,
-            _role=DistributedRole.Main,
             **kwargs
         )
 
     @staticmethod
     def sub(*args, **kwargs) -> 'DistributedSeries2GraphPP':
         return DistributedSeries2GraphPP(
+            DistributedRole.Sub,
             *args,
-            _role=DistributedRole.Sub,
             **kwargs
         )
-- 
2.43.0


From cb31ea31ebd9f9d3e9f11da18221cefb5f8492ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:46 +0000
Subject: [PATCH 22/22] fix: equal intersections within a segment made the node
 estimation panic

---
 .../node_estimation/multi_kde/actors/gaussian_kde.rs   | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs b/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
index 6cc7873..9fff62c 100644
--- a/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
+++ b/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
@@ -44,6 +44,16 @@ impl GaussianKDEActor {
     fn estimate(&mut self, data: ArcArray2<f32>, ctx: &mut Context<Self>) {
         let grid_min = *data.min().unwrap();
         let grid_max = *data.max().unwrap();
+        if grid_min == grid_max {
+            // the covariance of equal values cannot be inverted and their density has no peaks to tell apart
+            self.receiver
+                .as_ref()
+                .unwrap()
+                .do_send(GaussianKDEResponse {
+                    kernel_estimate: Array1::zeros(self.resolution),
+                });
+            return;
+        }
         let padding = (grid_max - grid_min).mul(0.1);
         let grid = Array::linspace(grid_min - padding, grid_max + padding, self.resolution)
             .insert_axis(Axis(1));
-- 
2.43.0

