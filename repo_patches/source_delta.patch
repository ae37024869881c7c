From 287ec5db651d80909d735d8237af722ee2a9f52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 01/53] fix: score-first matcher weighs the pair it considers

MatchingWeight takes indices into the predictions and ground truths, but was
given positions in the subsets, so with a proper subset the ground truth was
picked by the overlap of unrelated boxes.
---
 src/waymo_open_dataset/metrics/matcher.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index d1c7a17..5ab7ff0 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -280,9 +280,9 @@ void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
       const int pd_idx = prediction_subset()[pd_subset_idx];
       const int gt_idx = ground_truth_subset()[gt_subset_idx];
       if (CanMatch(pd_idx, gt_idx)) {
-        if (MatchingWeight(pd_subset_idx, gt_subset_idx) >
-            best_gt_match_weight) {
-          best_gt_match_weight = MatchingWeight(pd_subset_idx, gt_subset_idx);
+        const int weight = MatchingWeight(pd_idx, gt_idx);
+        if (weight > best_gt_match_weight) {
+          best_gt_match_weight = weight;
           best_gt_match = gt_subset_idx;
         }
       }
-- 
2.43.0


From 31f5566e4acdd044bd5bca5a6d6a5a15f3eed1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 02/53] fix: score-first matcher accepts null and reused
 outputs

Matcher::Match documents that either output may be null (the Match op passes
a null one) and that outputs are overwritten, but the score-first matcher
aborted on null and kept the matches of an earlier call in reused vectors.
---
 src/waymo_open_dataset/metrics/matcher.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index 5ab7ff0..c343a1c 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -251,13 +251,16 @@ void HungarianMatcher::Match(std::vector<int>* prediction_matches,
 
 void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
                               std::vector<int>* ground_truth_matches) {
-  CHECK(prediction_matches);
-  CHECK(ground_truth_matches);
+  if (prediction_matches == nullptr && ground_truth_matches == nullptr) return;
+  // Either output may be null; both are needed below.
+  std::vector<int> unused_matches;
+  if (prediction_matches == nullptr) prediction_matches = &unused_matches;
+  if (ground_truth_matches == nullptr) ground_truth_matches = &unused_matches;
 
   const int prediction_subset_size = prediction_subset().size();
   const int ground_truth_subset_size = ground_truth_subset().size();
-  prediction_matches->resize(prediction_subset_size, -1);
-  ground_truth_matches->resize(ground_truth_subset_size, -1);
+  prediction_matches->assign(prediction_subset_size, -1);
+  ground_truth_matches->assign(ground_truth_subset_size, -1);
 
   std::vector<int> sorted_pred_subset_idx(prediction_subset_size);
   // Sort predictions by score in descending order.
-- 
2.43.0


From e0a8339c3124452d1b4ad9e539084e4635d6a7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 03/53] fix: matcher drops cached overlaps when the overlap
 function changes

The caches hold values of the previous function, so a matcher that had already
been used kept matching with it.
---
 src/waymo_open_dataset/metrics/matcher.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/matcher.h b/src/waymo_open_dataset/metrics/matcher.h
index 337cea8..cc15caa 100644
--- a/src/waymo_open_dataset/metrics/matcher.h
+++ b/src/waymo_open_dataset/metrics/matcher.h
@@ -132,6 +132,7 @@ class Matcher {
   // Sets a custom IOU calculation function to replace the default function.
   void SetCustomIoUComputeFunc(ComputeIoUFunc custom_iou_func) {
     custom_iou_func_ = std::move(custom_iou_func);
+    iou_caches_.clear();
   }
 
   // Sets a custom Longitudinal Affinity calculation function to replace the
@@ -140,6 +141,7 @@ class Matcher {
       ComputeLongitudinalAffinityFunc custom_longitudinal_affinity_func) {
     custom_longitudinal_affinity_func_ =
         std::move(custom_longitudinal_affinity_func);
+    longitudinal_affinity_caches_.clear();
   }
 
   // Sets a custom CanMatch function to replace the default function.
-- 
2.43.0


From d33392c50a1edfd596932ecfcfb2638fc006d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:39 +0000
Subject: [PATCH 04/53] fix: tracking op uses the given difficulty as tracking
 difficulty

The op stored ground_truth_difficulty as the detection difficulty, so every
ground truth had tracking difficulty UNKNOWN and LEVEL_1 results counted the
misses of LEVEL_2 objects.
---
 src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc b/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc
index 0216be0..a599ad5 100644
--- a/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc
+++ b/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc
@@ -203,8 +203,8 @@ class TrackingMetricsOp final : public OpKernel {
             /*object_id=*/*input.ground_truth_object_id,
             /*score=*/absl::nullopt,
             /*overlap_nlz=*/absl::nullopt,
-            /*detection_difficulty=*/*input.ground_truth_difficulty,
-            /*tracking_difficulty=*/absl::nullopt,
+            /*detection_difficulty=*/absl::nullopt,
+            /*tracking_difficulty=*/*input.ground_truth_difficulty,
             /*object_speed=*/*input.ground_truth_speed);
 
     std::set<std::string> sequence_ids;
-- 
2.43.0


From 56354fca1a049b3d085c34287b1a150526606bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:39 +0000
Subject: [PATCH 05/53] fix: tracking estimates speeds when the first frame has
 no predictions

Without predictions in the first frame no speed was estimated for any frame,
and all predictions fell into the stationary shard of the VELOCITY breakdown.
---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index 0df0db7..8d217db 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -202,9 +202,17 @@ std::vector<TrackingMeasurements> ComputeTrackingMeasurements(
   for (int i = 0; i < num_frames; ++i) {
     matchers.push_back(Matcher::Create(config));
   }
-  const bool need_to_estimate_speed =
-      internal::HasVelocityBreakdown(config) && !pds.empty() &&
-      !pds[0].empty() && !pds[0][0].object().metadata().has_speed_x();
+  // The first frames of a sequence may have no predictions: look at the first
+  // prediction of any frame.
+  bool need_to_estimate_speed = false;
+  if (internal::HasVelocityBreakdown(config)) {
+    for (const std::vector<Object>& frame_pds : pds) {
+      if (frame_pds.empty()) continue;
+      need_to_estimate_speed =
+          !frame_pds[0].object().metadata().has_speed_x();
+      break;
+    }
+  }
   std::vector<std::vector<Object>> pds_with_velocity;
   if (need_to_estimate_speed) {
     pds_with_velocity = internal::EstimateObjectSpeed(pds, gts);
-- 
2.43.0


From 55b2b1800b4e58d25c33f65feb0da8cbd4988152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:37 +0000
Subject: [PATCH 06/53] fix: tracking score cutoff estimation indexes frames
 within their scene

The bound of the loop over predictions was taken from pds[frame_idx], a scene,
so predictions were skipped or read out of bounds.
---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index 8d217db..138147e 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -311,8 +311,8 @@ Config EstimateScoreCutoffs(
     for (int scene_idx = 0; scene_idx < num_scenes; ++scene_idx) {
       const int num_frames = pds[scene_idx].size();
       for (int frame_idx = 0; frame_idx < num_frames; ++frame_idx) {
-        for (int pd_idx = 0, num_pds = pds[frame_idx].size(); pd_idx < num_pds;
-             ++pd_idx) {
+        for (int pd_idx = 0, num_pds = pds[scene_idx][frame_idx].size();
+             pd_idx < num_pds; ++pd_idx) {
           pd_scores.push_back(pds[scene_idx][frame_idx][pd_idx].score());
         }
       }
-- 
2.43.0


From c7df2a3a6135b229dd781e85fe876f3d997b2644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:15 +0000
Subject: [PATCH 07/53] fix: merging detection measurements of several frames
 keeps their details

Merging two results that each cover two or more frames dropped the per-frame
details of both.
---
 src/waymo_open_dataset/metrics/detection_metrics.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/detection_metrics.cc b/src/waymo_open_dataset/metrics/detection_metrics.cc
index 777c5b6..7424a29 100644
--- a/src/waymo_open_dataset/metrics/detection_metrics.cc
+++ b/src/waymo_open_dataset/metrics/detection_metrics.cc
@@ -208,9 +208,9 @@ DetectionMeasurement MergeDetectionMeasurement(const DetectionMeasurement& m1,
   ADD_FIELD(sum_longitudinal_affinity);
 #undef ADD_FIELD
 
-  // If we enables details population, appends it as a new frame. The new
-  // frame's `details()` size should be 1.
-  if (m1.details_size() == 1 || m2.details_size() == 1) {
+  // If we enables details population, appends the frames of m2. Either side can
+  // be a merge of several frames and hold several details.
+  if (m1.details_size() > 0 || m2.details_size() > 0) {
     *m.mutable_details() = m1.details();
     m.mutable_details()->MergeFrom(m2.details());
   }
-- 
2.43.0


From a136d2668641e20fe122b9929fc7a7bc4adf67f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 08/53] fix: motion op takes the object of interest from the
 ground truth index

object_id was indexed with an object id, which reads outside the tensor (or
the row of another object).
---
 src/waymo_open_dataset/metrics/ops/utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/ops/utils.cc b/src/waymo_open_dataset/metrics/ops/utils.cc
index 0a30180..ef742f2 100644
--- a/src/waymo_open_dataset/metrics/ops/utils.cc
+++ b/src/waymo_open_dataset/metrics/ops/utils.cc
@@ -377,7 +377,7 @@ ParseScenarioAndPredictonsFromTensors(
           required_track.set_difficulty(RequiredPrediction::LEVEL_1);
 
           scenario->add_objects_of_interest(
-              object_id.matrix<int64>()(i, scenario->tracks(track_index).id()));
+              object_id.matrix<int64>()(i, gt_index));
         }
       }
     }
-- 
2.43.0


From 1151df25762511d237263a48b3f562eea450db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 09/53] fix: motion metrics reject a measurement step equal to
 the number of steps

Steps count from zero; the step after the last was accepted and read past the
end of the trajectories and tracks.
---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index dc8bb37..cef3f18 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -82,7 +82,7 @@ Status ValidateConfig(const MotionMetricsConfig& config) {
                                config.prediction_steps_per_second() /
                                config.track_steps_per_second();
   for (const auto& step_config : config.step_configurations()) {
-    if (step_config.measurement_step() > prediction_steps ||
+    if (step_config.measurement_step() >= prediction_steps ||
         step_config.measurement_step() < 0) {
       return InvalidArgumentError("Requested miss rate time is invalid");
     }
-- 
2.43.0


From f6110f3406fb5096043ba4e30a242b2c16849644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:27 +0000
Subject: [PATCH 10/53] fix: motion op refuses a prediction for an agent
 without valid states

Such an agent has no track; its prediction was silently evaluated against the
first track of the scenario.
---
 src/waymo_open_dataset/metrics/ops/utils.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/ops/utils.cc b/src/waymo_open_dataset/metrics/ops/utils.cc
index ef742f2..d665129 100644
--- a/src/waymo_open_dataset/metrics/ops/utils.cc
+++ b/src/waymo_open_dataset/metrics/ops/utils.cc
@@ -368,8 +368,10 @@ ParseScenarioAndPredictonsFromTensors(
           CHECK_GE(gt_index, 0);
           CHECK_LT(gt_index, num_total_agents);
           // Get the track index for that ground truth agent.
-          int64 track_index = gt_idx_to_track_idx[gt_index];
-          CHECK_GE(track_index, 0);
+          const auto track_it = gt_idx_to_track_idx.find(gt_index);
+          CHECK(track_it != gt_idx_to_track_idx.end())
+              << "Prediction for an agent without valid states: " << gt_index;
+          const int64 track_index = track_it->second;
           CHECK_LT(track_index, scenario->tracks_size());
           RequiredPrediction& required_track =
               *scenario->add_tracks_to_predict();
@@ -403,8 +405,10 @@ ParseScenarioAndPredictonsFromTensors(
             CHECK_GE(gt_index, 0);
             CHECK_LT(gt_index, num_total_agents);
             // Get the track index for that ground truth agent.
-            int64 track_index = gt_idx_to_track_idx[gt_index];
-            CHECK_GE(track_index, 0);
+            const auto track_it = gt_idx_to_track_idx.find(gt_index);
+            CHECK(track_it != gt_idx_to_track_idx.end())
+                << "Prediction for an agent without valid states: " << gt_index;
+            const int64 track_index = track_it->second;
             CHECK_LT(track_index, scenario->tracks_size());
 
             new_trajectory->set_object_id(scenario->tracks(track_index).id());
-- 
2.43.0


From aa2310dbfd31558a1e0c90ad10690671355dde5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:43 +0000
Subject: [PATCH 11/53] fix: an empty motion prediction does not hide the
 predictions after it

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index cef3f18..5db7cbe 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -751,7 +751,7 @@ Status ComputeAllMetrics(
     // joint prediction.
     if (multi_modal_prediction.joint_predictions().empty() ||
         multi_modal_prediction.joint_predictions(0).trajectories().empty()) {
-      return OkStatus();
+      continue;
     }
 
     // Find the object_type that best describes the prediction. If it is a joint
-- 
2.43.0


From 05e39f894d9b9c7f0a2f409b3bb7e96eba98239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:43 +0000
Subject: [PATCH 12/53] fix: motion metrics reject short tracks of objects that
 are not predicted

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 5db7cbe..cfb0c31 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -197,9 +197,16 @@ Status ValidatePredictions(const MotionMetricsConfig& config,
 
 // Validate that all of the given tracks have the required length.
 Status ValidateTracks(const MotionMetricsConfig& config,
+                      const Scenario& scenario,
                       absl::flat_hash_map<int, const Track*>& ids_to_tracks) {
   const int track_size =
       config.track_history_samples() + config.track_future_samples() + 1;
+  // The overlap metric looks at the states of every track of the scenario.
+  for (const Track& track : scenario.tracks()) {
+    if (track.states_size() < track_size) {
+      return InvalidArgumentError("Invalid Scenario track size.");
+    }
+  }
   for (const auto& [id, track] : ids_to_tracks) {
     if (track->states_size() != track_size) {
       return InvalidArgumentError("Invalid Scenario track size.");
@@ -1036,7 +1043,7 @@ Status ComputeMetricsStats(const MotionMetricsConfig& config,
     ids_to_tracks[track.id()] = &scenario.tracks(track_index);
   }
 
-  status = ValidateTracks(config, ids_to_tracks);
+  status = ValidateTracks(config, scenario, ids_to_tracks);
   if (!status.ok()) {
     return status;
   }
-- 
2.43.0


From 9ba16bfacd53c845073fffa7934c031cea622848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:43 +0000
Subject: [PATCH 13/53] fix: a motion scenario that fails leaves the
 accumulated statistics unchanged

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index cfb0c31..315687c 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -1054,12 +1054,15 @@ Status ComputeMetricsStats(const MotionMetricsConfig& config,
     return status;
   }
 
-  // Compute the metrics for the predictions.
+  // Compute the metrics for the predictions. A scenario that fails halfway adds
+  // nothing to the result.
+  BucketedMetricsStats scenario_stats;
   status = ComputeAllMetrics(config, predictions, ids_to_tracks, scenario,
-                             result, custom_metrics_fn);
+                             &scenario_stats, custom_metrics_fn);
   if (!status.ok()) {
     return status;
   }
+  result->Accumulate(scenario_stats);
 
   return OkStatus();
 }
-- 
2.43.0


From 120e77ba71845cc3a3de7360605613d057971c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:20 +0000
Subject: [PATCH 14/53] fix: segmentation counts do not overflow 32 bits

---
 .../metrics/segmentation_metrics.cc                  | 12 ++++++------
 .../metrics/segmentation_metrics.h                   |  3 ++-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/segmentation_metrics.cc b/src/waymo_open_dataset/metrics/segmentation_metrics.cc
index fce6828..40d4673 100644
--- a/src/waymo_open_dataset/metrics/segmentation_metrics.cc
+++ b/src/waymo_open_dataset/metrics/segmentation_metrics.cc
@@ -34,8 +34,8 @@ SegmentationMetricsIOU::SegmentationMetricsIOU(
   num_classes_ = segmentation_metrics_config_.segmentation_types().size();
   // We use index `num_classes` to store points with classes that are not
   // in the allowed segmentation_types.
-  confusion_matrix_ = std::vector<std::vector<int>>(
-      num_classes_ + 1, std::vector<int>(num_classes_ + 1, 0));
+  confusion_matrix_ = std::vector<std::vector<int64_t>>(
+      num_classes_ + 1, std::vector<int64_t>(num_classes_ + 1, 0));
   for (int i = 0; i < num_classes_; ++i) {
     auto index = segmentation_type_mapper_.find(static_cast<Segmentation::Type>(
         segmentation_metrics_config_.segmentation_types()[i]));
@@ -83,8 +83,8 @@ SegmentationMetrics SegmentationMetricsIOU::ComputeIOU() {
   SegmentationMetrics results;
   std::vector<float> ious(num_classes_, 1.0);
   for (int i = 0; i < num_classes_; ++i) {
-    int num_intersection = confusion_matrix_[i][i];
-    int num_union = -num_intersection;
+    int64_t num_intersection = confusion_matrix_[i][i];
+    int64_t num_union = -num_intersection;
     for (int j = 0; j < num_classes_; ++j) {
       num_union += confusion_matrix_[i][j];
       num_union += confusion_matrix_[j][i];
@@ -125,8 +125,8 @@ SegmentationMetrics SegmentationMetricsIOU::MergeResults(
   }
   std::vector<float> ious(num_classes_, 1.0);
   for (int i = 0; i < num_classes_; ++i) {
-    int num_intersection = num_intersections[i];
-    int num_union = num_unions[i];
+    int64_t num_intersection = num_intersections[i];
+    int64_t num_union = num_unions[i];
     if (num_union > 0) {
       ious[i] = 1.0f * num_intersection / num_union;
     }
diff --git a/src/waymo_open_dataset/metrics/segmentation_metrics.h b/src/waymo_open_dataset/metrics/segmentation_metrics.h
index 47deb83..b5b6c8f 100644
--- a/src/waymo_open_dataset/metrics/segmentation_metrics.h
+++ b/src/waymo_open_dataset/metrics/segmentation_metrics.h
@@ -15,6 +15,7 @@ limitations under the License.
 #ifndef WAYMO_OPEN_DATASET_METRICS_SEGMENTATION_METRICS_H_
 #define WAYMO_OPEN_DATASET_METRICS_SEGMENTATION_METRICS_H_
 
+#include <cstdint>
 #include <vector>
 
 #include "absl/container/flat_hash_map.h"
@@ -63,7 +64,7 @@ class SegmentationMetricsIOU {
   // Number of classes to be evaluated.
   int num_classes_;
   // Confusion matrix, accumulated with all predictions.
-  std::vector<std::vector<int>> confusion_matrix_;
+  std::vector<std::vector<int64_t>> confusion_matrix_;
   // A mapper from class type to int.
   absl::flat_hash_map<Segmentation::Type, int> segmentation_type_mapper_;
 };
-- 
2.43.0


From d235352e867001242c0fc30ffe10cb4a4452542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:30 +0000
Subject: [PATCH 15/53] fix: tracking matches do not depend on hash order

---
 src/waymo_open_dataset/metrics/mot.cc | 27 +++++++++++++--------------
 src/waymo_open_dataset/metrics/mot.h  | 22 +++++++++++-----------
 2 files changed, 24 insertions(+), 25 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/mot.cc b/src/waymo_open_dataset/metrics/mot.cc
index ebe0dea..20ed3b3 100644
--- a/src/waymo_open_dataset/metrics/mot.cc
+++ b/src/waymo_open_dataset/metrics/mot.cc
@@ -20,7 +20,6 @@ limitations under the License.
 #include <vector>
 
 #include <glog/logging.h>
-#include "absl/container/flat_hash_map.h"
 #include "absl/container/flat_hash_set.h"
 #include "absl/strings/str_format.h"
 #include "waymo_open_dataset/label.pb.h"
@@ -34,8 +33,8 @@ namespace {
 // Builds maps that map from object tracking ID to its index the subset in the
 // matcher.
 void BuildTrackingIdToDetectionBoxIndexMaps(
-    const Matcher& matcher, absl::flat_hash_map<std::string, int>* pd_map,
-    absl::flat_hash_map<std::string, int>* gt_map) {
+    const Matcher& matcher, std::map<std::string, int>* pd_map,
+    std::map<std::string, int>* gt_map) {
   CHECK(pd_map != nullptr);
   CHECK(gt_map != nullptr);
   for (int i = 0, sz = matcher.prediction_subset().size(); i < sz; ++i) {
@@ -79,12 +78,12 @@ void MOT::Eval(Matcher* matcher_ptr, Label::DifficultyLevel difficulty_level,
   const int raw_num_gts = matcher.ground_truth_subset().size();
 
   // Maps from tracking ID to the detection box index (index in the subset).
-  absl::flat_hash_map<std::string, int> pd_map;
-  absl::flat_hash_map<std::string, int> gt_map;
+  std::map<std::string, int> pd_map;
+  std::map<std::string, int> gt_map;
   BuildTrackingIdToDetectionBoxIndexMaps(matcher, &pd_map, &gt_map);
 
   // New ground truth -> prediction mapping.
-  absl::flat_hash_map<std::string, std::string> gt_pd_new_matchings =
+  std::map<std::string, std::string> gt_pd_new_matchings =
       InitializeNewMapping(matcher, &pd_map, &gt_map);
 
   const MOT::MatchResult match_result =
@@ -177,13 +176,13 @@ void MOT::Eval(Matcher* matcher_ptr, Label::DifficultyLevel difficulty_level,
   }
 }
 
-absl::flat_hash_map<std::string, std::string> MOT::InitializeNewMapping(
-    const Matcher& matcher, absl::flat_hash_map<std::string, int>* pd_map,
-    absl::flat_hash_map<std::string, int>* gt_map) {
+std::map<std::string, std::string> MOT::InitializeNewMapping(
+    const Matcher& matcher, std::map<std::string, int>* pd_map,
+    std::map<std::string, int>* gt_map) {
   CHECK(pd_map != nullptr);
   CHECK(gt_map != nullptr);
   // New ground truth -> prediction mapping.
-  absl::flat_hash_map<std::string, std::string> gt_pd_new_matchings;
+  std::map<std::string, std::string> gt_pd_new_matchings;
 
   // For every mapping (o_i, h_j) in M_{t−1}, verify if it is still valid. If
   // object o_i is still visible and tracker hypothesis h_j still exists at time
@@ -210,8 +209,8 @@ absl::flat_hash_map<std::string, std::string> MOT::InitializeNewMapping(
   return gt_pd_new_matchings;
 }
 
-MOT::MatchResult MOT::Match(const absl::flat_hash_map<std::string, int>& pd_map,
-                            const absl::flat_hash_map<std::string, int>& gt_map,
+MOT::MatchResult MOT::Match(const std::map<std::string, int>& pd_map,
+                            const std::map<std::string, int>& gt_map,
                             Label::DifficultyLevel difficulty_level,
                             Matcher* matcher) {
   CHECK(matcher != nullptr);
@@ -284,8 +283,8 @@ MOT::MatchResult MOT::Match(const absl::flat_hash_map<std::string, int>& pd_map,
 }
 
 int MOT::ComputeNumMismatches(
-    const absl::flat_hash_map<std::string, std::string>& gt_pd_new_matchings,
-    const absl::flat_hash_map<std::string, int>& gt_map) {
+    const std::map<std::string, std::string>& gt_pd_new_matchings,
+    const std::map<std::string, int>& gt_map) {
   // To maintain 1-1 mapping property. New matches might evict some old
   // matches, which are considered as mismatches as well.
   // Example (o2 is evicted): (see test Mismatch_GT_Eviction).
diff --git a/src/waymo_open_dataset/metrics/mot.h b/src/waymo_open_dataset/metrics/mot.h
index b8e059e..c775004 100644
--- a/src/waymo_open_dataset/metrics/mot.h
+++ b/src/waymo_open_dataset/metrics/mot.h
@@ -16,9 +16,9 @@ limitations under the License.
 #ifndef WAYMO_OPEN_DATASET_METRICS_MOT_H_
 #define WAYMO_OPEN_DATASET_METRICS_MOT_H_
 
+#include <map>
 #include <string>
 
-#include "absl/container/flat_hash_map.h"
 #include "waymo_open_dataset/label.pb.h"
 #include "waymo_open_dataset/metrics/matcher.h"
 #include "waymo_open_dataset/protos/metrics.pb.h"
@@ -96,30 +96,30 @@ class MOT final {
     // total number of ground truths later.
     int num_fns_above_difficulty_level = 0;
     // gt->pd IDs map.
-    absl::flat_hash_map<std::string, std::string> gt_pd_matchings;
+    std::map<std::string, std::string> gt_pd_matchings;
   };
 
   // Initializes new gt->pd mapping based on the mapping result from the
   // previous frame. It also updates {pd,gt}_map by removing those objects added
   // to the new mapping.
   // Requires: pd_map != nullptr, gt_map != nullptr.
-  absl::flat_hash_map<std::string, std::string> InitializeNewMapping(
-      const Matcher& matcher, absl::flat_hash_map<std::string, int>* pd_map,
-      absl::flat_hash_map<std::string, int>* gt_map);
+  std::map<std::string, std::string> InitializeNewMapping(
+      const Matcher& matcher, std::map<std::string, int>* pd_map,
+      std::map<std::string, int>* gt_map);
 
   // For all objects for which no correspondence was made yet, try to find a
   // matching hypothesis, and then updates the measurement_ and the new gt->pd
   // mapping.
   // Requires: matcher != nullptr.
-  MatchResult Match(const absl::flat_hash_map<std::string, int>& pd_map,
-                    const absl::flat_hash_map<std::string, int>& gt_map,
+  MatchResult Match(const std::map<std::string, int>& pd_map,
+                    const std::map<std::string, int>& gt_map,
                     Label::DifficultyLevel difficulty_level, Matcher* matcher);
 
   // Computes the number of mismatches by comparing the new matching and
   // matching from last frame.
   int ComputeNumMismatches(
-      const absl::flat_hash_map<std::string, std::string>& gt_pd_new_matchings,
-      const absl::flat_hash_map<std::string, int>& gt_map);
+      const std::map<std::string, std::string>& gt_pd_new_matchings,
+      const std::map<std::string, int>& gt_map);
 
   TrackingMeasurement measurement_;
 
@@ -127,8 +127,8 @@ class MOT final {
   // now.
   // This is the 'M_{t}' in the paper.
   // These two maps ensures 1-1 mapping between pds and gts.
-  absl::flat_hash_map<std::string, std::string> gt_pd_matchings_;
-  absl::flat_hash_map<std::string, std::string> pd_gt_matchings_;
+  std::map<std::string, std::string> gt_pd_matchings_;
+  std::map<std::string, std::string> pd_gt_matchings_;
 };
 
 }  // namespace open_dataset
-- 
2.43.0


From 98c39e807cf9a2707228119b84d78a46e5db60dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:53 +0000
Subject: [PATCH 16/53] fix: motion metrics add up scenarios in a fixed order

---
 src/waymo_open_dataset/metrics/motion_metrics.cc  | 15 +++++++++++----
 .../metrics/ops/motion_metrics_ops.cc             |  9 ++++++++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 315687c..76d637b 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -1146,8 +1146,14 @@ Status ComputeMotionMetrics(
     MotionMetrics* metrics, CustomMetricsFn custom_metrics_fn) {
   BucketedMetricsStats total_stats;
 
-  // Compute statistics for all prediction, scenario pairs.
-  for (const auto& [key, predictions] : predictions) {
+  // Compute statistics for all prediction, scenario pairs. Sort the ids as the
+  // order of the hash map is arbitrary.
+  std::vector<std::string> keys;
+  for (const auto& kv : predictions) {
+    keys.push_back(kv.first);
+  }
+  std::sort(keys.begin(), keys.end());
+  for (const std::string& key : keys) {
     auto iter = scenarios.find(key);
     if (iter == scenarios.end()) {
       return InvalidArgumentError("Scenario not found.  Id : " + key);
@@ -1155,8 +1161,9 @@ Status ComputeMotionMetrics(
     const Scenario& scenario = iter->second;
 
     BucketedMetricsStats metrics_stats;
-    Status status = ComputeMetricsStats(config, predictions, scenario,
-                                        &metrics_stats, custom_metrics_fn);
+    Status status =
+        ComputeMetricsStats(config, predictions.at(key), scenario,
+                            &metrics_stats, custom_metrics_fn);
     if (!status.ok()) {
       return status;
     }
diff --git a/src/waymo_open_dataset/metrics/ops/motion_metrics_ops.cc b/src/waymo_open_dataset/metrics/ops/motion_metrics_ops.cc
index b21b9dd..7507e76 100644
--- a/src/waymo_open_dataset/metrics/ops/motion_metrics_ops.cc
+++ b/src/waymo_open_dataset/metrics/ops/motion_metrics_ops.cc
@@ -13,6 +13,7 @@ See the License for the specific language governing permissions and
 limitations under the License.
 ==============================================================================*/
 
+#include <algorithm>
 #include <memory>
 #include <set>
 #include <string>
@@ -185,8 +186,14 @@ class MotionMetricsOp final : public OpKernel {
     std::vector<std::pair<co::Scenario, co::ScenarioPredictions>> gts_pds;
     gts_pds.reserve(gts_pds_map.size());
 
+    // The order of the hash map is arbitrary.
+    std::vector<std::string> scenario_ids;
     for (const auto& gt_pd : gts_pds_map) {
-      gts_pds.push_back(std::move(gt_pd.second));
+      scenario_ids.push_back(gt_pd.first);
+    }
+    std::sort(scenario_ids.begin(), scenario_ids.end());
+    for (const std::string& scenario_id : scenario_ids) {
+      gts_pds.push_back(std::move(gts_pds_map[scenario_id]));
     }
 
     std::vector<std::pair<co::Status, co::BucketedMetricsStats>> stats(
-- 
2.43.0


From ff84eb5761648592c6bd1149ad5005c7496c19a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 17/53] fix: rolling shutter solver steps along the derivative
 of the projection

---
 src/waymo_open_dataset/wdl_limited/camera/camera_model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc b/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
index 3e6a2fe..c6199f7 100644
--- a/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
+++ b/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
@@ -665,10 +665,10 @@ bool CameraModel::ComputeDepthResidualAndJacobian(
     const double jacobian_combined =
         rolling_shutter_state.readout_horizontal_direction
             ? rolling_shutter_state.readout_time_factor / cam_pos_f(0) *
-                  ((*normalized_coord)(0) * jacobian_landmark_to_index(0) -
+                  (-(*normalized_coord)(0) * jacobian_landmark_to_index(0) -
                    jacobian_landmark_to_index(1))
             : rolling_shutter_state.readout_time_factor / cam_pos_f(0) *
-                  ((*normalized_coord)(1) * jacobian_landmark_to_index(0) -
+                  (-(*normalized_coord)(1) * jacobian_landmark_to_index(0) -
                    jacobian_landmark_to_index(2));
     *jacobian = 1. - jacobian_combined;
   }
-- 
2.43.0


From 2a701082dfa0ad66f8e8b9d1ff4c01c37e8afd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 18/53] fix: detection result op rejects a state of another
 shape

---
 .../metrics/ops/detection_metrics_ops.cc      | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/ops/detection_metrics_ops.cc b/src/waymo_open_dataset/metrics/ops/detection_metrics_ops.cc
index 4281927..a8b1839 100644
--- a/src/waymo_open_dataset/metrics/ops/detection_metrics_ops.cc
+++ b/src/waymo_open_dataset/metrics/ops/detection_metrics_ops.cc
@@ -421,6 +421,12 @@ class DetectionMetricsResultOp final : public OpKernel {
   void Compute(OpKernelContext* ctx) override {
     const Tensor* state;
     OP_REQUIRES_OK(ctx, ctx->input("state", &state));
+    const TensorShape expected_shape(
+        {NumBreakdowns(), config_.score_cutoffs_size(), 5});
+    OP_REQUIRES(ctx, state->shape() == expected_shape,
+                errors::InvalidArgument(
+                    "State has shape ", state->shape().DebugString(),
+                    ", expected ", expected_shape.DebugString()));
 
     OutputTensors output = ComputeImpl(state, ctx);
     ctx->set_output(0, output.average_precision);
@@ -510,6 +516,19 @@ class DetectionMetricsResultOp final : public OpKernel {
     }
   };
 
+  // Number of breakdowns (shards of all generators at all difficulty levels).
+  int NumBreakdowns() const {
+    int num_breakdowns = 0;
+    for (int i = 0, sz = config_.breakdown_generator_ids_size(); i < sz; ++i) {
+      num_breakdowns +=
+          co::BreakdownGenerator::Create(config_.breakdown_generator_ids(i))
+              ->NumShards() *
+          ::waymo::open_dataset::internal::GetDifficultyLevels(config_, i)
+              .size();
+    }
+    return num_breakdowns;
+  }
+
   OutputTensors ComputeImpl(const Tensor* state, OpKernelContext* ctx) {
     co::Config config = config_;
     const int num_score_cutoffs = config.score_cutoffs_size();
-- 
2.43.0


From c6851008688ebf28eef8a64bf84bee51284a0dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 19/53] fix: reject latency results whose boxes are neither 3D
 nor 2D

---
 .../latency/make_objects_file_from_latency_results.py          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/latency/make_objects_file_from_latency_results.py b/src/waymo_open_dataset/latency/make_objects_file_from_latency_results.py
index e46a6d7..8672cab 100644
--- a/src/waymo_open_dataset/latency/make_objects_file_from_latency_results.py
+++ b/src/waymo_open_dataset/latency/make_objects_file_from_latency_results.py
@@ -111,6 +111,9 @@ def make_object_list_from_subdir(np_dir,
         raise ValueError('For 2D detection results, the input field should be '
                          'one of the camera images, but got ' + input_field)
       obj.camera_name = dataset_pb2.CameraName.Name.Value(input_field[:-6])
+    else:
+      raise ValueError('Boxes must have 7 (3D) or 4 (2D) values each, but got '
+                       f'an array of shape {boxes.shape}')
 
     # Run some checks to avoid adding invalid objects. These are the same checks
     # used in metrics/tools/create_submission.cc
-- 
2.43.0


From 6a26fed70f82d61afd0bc22b89e233f1653c546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 20/53] fix: delta encoder leaves the image it is given
 unchanged

---
 src/waymo_open_dataset/utils/compression/delta_encoder.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/utils/compression/delta_encoder.py b/src/waymo_open_dataset/utils/compression/delta_encoder.py
index ab562c2..732a93d 100644
--- a/src/waymo_open_dataset/utils/compression/delta_encoder.py
+++ b/src/waymo_open_dataset/utils/compression/delta_encoder.py
@@ -60,12 +60,11 @@ def compress(
             " positive numbers"
         )
 
-  range_image_round = range_image
+  range_image_round = np.empty(range_image.shape, dtype=int)
   for i in range(num_channel):
     range_image_round[..., i] = np.round(
         range_image[..., i] / quant_precision[i]
     )
-  range_image_round = range_image_round.astype(int)
   lidar_proto = compressed_lidar_pb2.DeltaEncodedData(
       residual=_compute_residual(range_image_round),
       mask=_compute_mask(range_image_round),
-- 
2.43.0


From f258ee92375eed6489af4af072142e143a4de4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:59 +0000
Subject: [PATCH 21/53] fix: a rejected update leaves the detection evaluator
 unchanged

---
 .../metrics/python/wod_detection_evaluator.py        | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py b/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
index b114f7e..e4a9e2a 100644
--- a/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
+++ b/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
@@ -176,11 +176,17 @@ class WODDetectionEvaluator(object):
       ValueError: if the required prediction or groundtruth fields are not
         present in the incoming `predictions` or `groundtruths`.
     """
-    # Append predictions.
+    # Check everything before appending anything.
     for k in self._required_prediction_fields:
       if k not in predictions:
         raise ValueError(
             'Missing the required key `{}` in predictions!'.format(k))
+    for k in self._required_groundtruth_fields:
+      if k not in groundtruths:
+        raise ValueError(
+            'Missing the required key `{}` in groundtruths!'.format(k))
+
+    # Append predictions.
     for k, v in six.iteritems(predictions):
       if k not in self._predictions:
         self._predictions[k] = [v]
@@ -188,10 +194,6 @@ class WODDetectionEvaluator(object):
         self._predictions[k].append(v)
 
     # Append groundtruths.
-    for k in self._required_groundtruth_fields:
-      if k not in groundtruths:
-        raise ValueError(
-            'Missing the required key `{}` in groundtruths!'.format(k))
     for k, v in six.iteritems(groundtruths):
       if k not in self._groundtruths:
         self._groundtruths[k] = [v]
-- 
2.43.0


From 5dd8a400c697bfd821186211a82de931f7110fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:01 +0000
Subject: [PATCH 22/53] fix: detection evaluator keeps speeds aligned when some
 updates omit them

---
 .../metrics/python/wod_detection_evaluator.py              | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py b/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
index e4a9e2a..29d4863 100644
--- a/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
+++ b/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
@@ -186,6 +186,13 @@ class WODDetectionEvaluator(object):
         raise ValueError(
             'Missing the required key `{}` in groundtruths!'.format(k))
 
+    # Updates with and without speed may be mixed.
+    if 'ground_truth_speed' not in groundtruths:
+      num_gt_boxes = tf.shape(groundtruths['ground_truth_bbox'])[0]
+      groundtruths = dict(
+          groundtruths,
+          ground_truth_speed=tf.zeros((num_gt_boxes, 2), dtype=tf.float32))
+
     # Append predictions.
     for k, v in six.iteritems(predictions):
       if k not in self._predictions:
-- 
2.43.0


From e876b8ce3afd1a83288380de323e5c3aaf528433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 23/53] fix: graph metric updates change all variables or none

---
 .../metrics/python/detection_metrics.py       | 26 ++++++++++++-------
 .../metrics/python/motion_metrics.py          | 22 ++++++++++------
 .../metrics/python/tracking_metrics.py        | 22 ++++++++++------
 3 files changed, 44 insertions(+), 26 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/python/detection_metrics.py b/src/waymo_open_dataset/metrics/python/detection_metrics.py
index ee8ad78..4a8939e 100644
--- a/src/waymo_open_dataset/metrics/python/detection_metrics.py
+++ b/src/waymo_open_dataset/metrics/python/detection_metrics.py
@@ -22,7 +22,7 @@ from waymo_open_dataset.metrics.python import config_util_py as config_util
 
 
 def _update(name, update, init_shape, dtype):
-  """Updates variable 'name' by concatenating 'update'.
+  """Concatenates 'update' to the value of variable 'name'.
 
   Args:
     name: Variable name.
@@ -32,7 +32,7 @@ def _update(name, update, init_shape, dtype):
 
   Returns:
     v: the variable ref.
-    v_assign: tensor that hold the new value of the variable after the update.
+    v_updated: tensor that holds the value to assign to the variable to update it.
   """
   with tf.compat.v1.variable_scope(
       'detection_metrics', reuse=tf.compat.v1.AUTO_REUSE):
@@ -49,9 +49,8 @@ def _update(name, update, init_shape, dtype):
         validate_shape=False)
     shape = tf.concat([[-1], tf.shape(input=update)[1:]], axis=0)
     v_reshape = tf.reshape(v.value(), shape)
-    v_assign = tf.compat.v1.assign(
-        v, tf.concat([v_reshape, update], axis=0), validate_shape=False)
-  return v, v_assign
+    v_updated = tf.concat([v_reshape, update], axis=0)
+  return v, v_updated
 
 
 def _get_box_dof(box_type):
@@ -148,15 +147,22 @@ def get_detection_metric_ops(
       'ground_truth_speed': (ground_truth_speed, [0, 2], tf.float32),
   }
 
-  variable_and_update_ops = {}
+  variable_and_updates = {}
   for name, value in eval_dict.items():
     update, init_shape, dtype = value
-    variable_and_update_ops[name] = _update(name, update, init_shape, dtype)
-
-  update_ops = [value[1] for value in variable_and_update_ops.values()]
+    variable_and_updates[name] = _update(name, update, init_shape, dtype)
+
+  # No variable is assigned before all of the new values are computed. An update
+  # that fails leaves all variables as they were.
+  with tf.control_dependencies(
+      [value[1] for value in variable_and_updates.values()]):
+    update_ops = [
+        tf.compat.v1.assign(v, v_updated, validate_shape=False)
+        for v, v_updated in variable_and_updates.values()
+    ]
   update_op = tf.group(update_ops)
   variable_map = {
-      name: value[0] for name, value in variable_and_update_ops.items()
+      name: value[0] for name, value in variable_and_updates.items()
   }
 
   config_str = config.SerializeToString()
diff --git a/src/waymo_open_dataset/metrics/python/motion_metrics.py b/src/waymo_open_dataset/metrics/python/motion_metrics.py
index 33c6afb..dd45f31 100644
--- a/src/waymo_open_dataset/metrics/python/motion_metrics.py
+++ b/src/waymo_open_dataset/metrics/python/motion_metrics.py
@@ -21,7 +21,7 @@ from waymo_open_dataset.metrics.python import config_util_py as config_util
 
 
 def _update(name, update, init_shape, dtype):
-  """Updates variable 'name' by concatenating 'update'.
+  """Concatenates 'update' to the value of variable 'name'.
 
   Args:
     name: Variable name.
@@ -31,7 +31,7 @@ def _update(name, update, init_shape, dtype):
 
   Returns:
     v: the variable ref.
-    v_assign: tensor that hold the new value of the variable after the update.
+    v_updated: tensor that holds the value to assign to the variable to update it.
   """
   with tf.compat.v1.variable_scope(
       'motion_metrics', reuse=tf.compat.v1.AUTO_REUSE):
@@ -48,9 +48,8 @@ def _update(name, update, init_shape, dtype):
         validate_shape=False)
     shape = tf.concat([[-1], tf.shape(input=update)[1:]], axis=0)
     v_reshape = tf.reshape(v.value(), shape)
-    v_assign = tf.compat.v1.assign(
-        v, tf.concat([v_reshape, update], axis=0), validate_shape=False)
-  return v, v_assign
+    v_updated = tf.concat([v_reshape, update], axis=0)
+  return v, v_updated
 
 
 def get_motion_metric_ops(config,
@@ -157,15 +156,22 @@ def get_motion_metric_ops(config,
       'scenario_id': (scenario_id, [0], tf.string)
   }
 
-  variable_and_update_ops = {
+  variable_and_updates = {
       name: _update(name, update, init_shape, dtype)
       for name, (update, init_shape, dtype) in eval_dict.items()
   }
 
-  update_ops = [value[1] for value in variable_and_update_ops.values()]
+  # No variable is assigned before all of the new values are computed. An update
+  # that fails leaves all variables as they were.
+  with tf.control_dependencies(
+      [value[1] for value in variable_and_updates.values()]):
+    update_ops = [
+        tf.compat.v1.assign(v, v_updated, validate_shape=False)
+        for v, v_updated in variable_and_updates.values()
+    ]
   update_op = tf.group(update_ops)
   variable_map = {
-      name: value[0] for name, value in variable_and_update_ops.items()
+      name: value[0] for name, value in variable_and_updates.items()
   }
 
   config_str = config.SerializeToString()
diff --git a/src/waymo_open_dataset/metrics/python/tracking_metrics.py b/src/waymo_open_dataset/metrics/python/tracking_metrics.py
index 5e9682c..86a00da 100644
--- a/src/waymo_open_dataset/metrics/python/tracking_metrics.py
+++ b/src/waymo_open_dataset/metrics/python/tracking_metrics.py
@@ -22,7 +22,7 @@ from waymo_open_dataset.metrics.python import config_util_py as config_util
 
 
 def _update(name, update, init_shape, dtype):
-  """Updates variable 'name' by concatenating 'update'.
+  """Concatenates 'update' to the value of variable 'name'.
 
   Args:
     name: Variable name.
@@ -32,7 +32,7 @@ def _update(name, update, init_shape, dtype):
 
   Returns:
     v: the variable ref.
-    v_assign: tensor that hold the new value of the variable after the update.
+    v_updated: tensor that holds the value to assign to the variable to update it.
   """
   with tf.compat.v1.variable_scope(
       'tracking_metrics', reuse=tf.compat.v1.AUTO_REUSE):
@@ -49,9 +49,8 @@ def _update(name, update, init_shape, dtype):
         validate_shape=False)
     shape = tf.concat([[-1], tf.shape(input=update)[1:]], axis=0)
     v_reshape = tf.reshape(v.value(), shape)
-    v_assign = tf.compat.v1.assign(
-        v, tf.concat([v_reshape, update], axis=0), validate_shape=False)
-  return v, v_assign
+    v_updated = tf.concat([v_reshape, update], axis=0)
+  return v, v_updated
 
 
 def _get_box_dof(box_type):
@@ -160,15 +159,22 @@ def get_tracking_metric_ops(config,
       'ground_truth_speed': (ground_truth_speed, [0, 2], tf.float32),
   }
 
-  variable_and_update_ops = {
+  variable_and_updates = {
       name: _update(name, update, init_shape, dtype)
       for name, (update, init_shape, dtype) in eval_dict.items()
   }
 
-  update_ops = [value[1] for value in variable_and_update_ops.values()]
+  # No variable is assigned before all of the new values are computed. An update
+  # that fails leaves all variables as they were.
+  with tf.control_dependencies(
+      [value[1] for value in variable_and_updates.values()]):
+    update_ops = [
+        tf.compat.v1.assign(v, v_updated, validate_shape=False)
+        for v, v_updated in variable_and_updates.values()
+    ]
   update_op = tf.group(update_ops)
   variable_map = {
-      name: value[0] for name, value in variable_and_update_ops.items()
+      name: value[0] for name, value in variable_and_updates.items()
   }
 
   config_str = config.SerializeToString()
-- 
2.43.0


From 16e5a5cc7c22957d6cf4bda55d8b5d71816451ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 24/53] fix: motion metrics number scenarios without ids across
 all batches

---
 .../metrics/python/motion_metrics.py                 | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/python/motion_metrics.py b/src/waymo_open_dataset/metrics/python/motion_metrics.py
index dd45f31..39a3a8e 100644
--- a/src/waymo_open_dataset/metrics/python/motion_metrics.py
+++ b/src/waymo_open_dataset/metrics/python/motion_metrics.py
@@ -101,7 +101,8 @@ def get_motion_metric_ops(config,
       `prediction_ground_truth_indices`.
     object_type: [B, A] Object type per trajectory.
     object_id: [B, A]. Object IDs per trajectory.
-    scenario_id: [B]. Scenario IDs of all groundtruth trajectories.
+    scenario_id: [B]. Scenario IDs of all groundtruth trajectories. If not
+      given, all scenarios accumulated are assumed to be different.
 
   Returns:
     A dictionary of metric names to tuple of value_op and update_op.
@@ -130,10 +131,6 @@ def get_motion_metric_ops(config,
   else:
     assert object_id.shape.as_list()[1] == num_agents
 
-  if scenario_id is None:
-    batch_size = tf.shape(prediction_trajectory)[0]
-    scenario_id = tf.strings.as_string(tf.range(batch_size))
-
   eval_dict = {
       'ground_truth_trajectory':
           (ground_truth_trajectory, [0, num_agents, num_gt_steps,
@@ -153,8 +150,11 @@ def get_motion_metric_ops(config,
                                                   num_agents], tf.bool),
       'object_type': (object_type, [0, num_agents], tf.int64),
       'object_id': (object_id, [0, num_agents], tf.int64),
-      'scenario_id': (scenario_id, [0], tf.string)
   }
+  # Without IDs, the scenarios are numbered when the metrics are computed, across
+  # all the batches accumulated: IDs made per batch would repeat.
+  if scenario_id is not None:
+    eval_dict['scenario_id'] = (scenario_id, [0], tf.string)
 
   variable_and_updates = {
       name: _update(name, update, init_shape, dtype)
-- 
2.43.0


From ced01d2db6b56acdd7afe887029ff2ec38740afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 25/53] fix: grouping by categorical keys does not make up rows

---
 src/waymo_open_dataset/v2/dataframe_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/v2/dataframe_utils.py b/src/waymo_open_dataset/v2/dataframe_utils.py
index 00b0bf7..6601c4b 100644
--- a/src/waymo_open_dataset/v2/dataframe_utils.py
+++ b/src/waymo_open_dataset/v2/dataframe_utils.py
@@ -46,7 +46,8 @@ def _cast_keys(src, dst, keys):
 
 
 def _group_by(src, keys):
-  dst = src.groupby(list(keys)).agg(list).reset_index()
+  # Without `observed` categorical keys get rows for all possible categories.
+  dst = src.groupby(list(keys), observed=True).agg(list).reset_index()
   # Fix key types automatically created from the MultiIndex
   _cast_keys(src, dst, keys)
   return dst
-- 
2.43.0


From 470a443d290651228c9a12d12967520bbc8cd618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 26/53] fix: grouping an empty table gives an empty table

---
 src/waymo_open_dataset/v2/dataframe_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/v2/dataframe_utils.py b/src/waymo_open_dataset/v2/dataframe_utils.py
index 6601c4b..4972f84 100644
--- a/src/waymo_open_dataset/v2/dataframe_utils.py
+++ b/src/waymo_open_dataset/v2/dataframe_utils.py
@@ -46,6 +46,9 @@ def _cast_keys(src, dst, keys):
 
 
 def _group_by(src, keys):
+  if isinstance(src, pd.DataFrame) and src.empty:
+    # There is nothing to group, and pandas would mix up the columns.
+    return src
   # Without `observed` categorical keys get rows for all possible categories.
   dst = src.groupby(list(keys), observed=True).agg(list).reset_index()
   # Fix key types automatically created from the MultiIndex
-- 
2.43.0


From 179d81cb621635fd30b021a5d7d120761caab205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 27/53] fix: create_submission keeps the last byte of binary
 protos

---
 .../metrics/tools/create_submission.cc                   | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tools/create_submission.cc b/src/waymo_open_dataset/metrics/tools/create_submission.cc
index d63d680..bb44562 100644
--- a/src/waymo_open_dataset/metrics/tools/create_submission.cc
+++ b/src/waymo_open_dataset/metrics/tools/create_submission.cc
@@ -148,10 +148,15 @@ void Run() {
   int i = 0;
   for (const auto& name : input_filenames) {
     std::string content = ReadFileToString(name);
-    if (content.back() == '\n') {
+    // The last byte of a serialized proto may itself be '\n'. Only treat it as a
+    // trailing newline if the content is not valid with it.
+    if (!objects_all[i].ParseFromString(content)) {
+      CHECK(!content.empty() && content.back() == '\n')
+          << "Failed to parse " << name;
       content.pop_back();
+      CHECK(objects_all[i].ParseFromString(content))
+          << "Failed to parse " << name;
     }
-    CHECK(objects_all[i].ParseFromString(content));
     i++;
   }
 
-- 
2.43.0


From 1c9fce6b9e9002e21be15ea036a0cd039d090290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 28/53] fix: create_submission fails if a shard cannot be
 written

---
 src/waymo_open_dataset/metrics/tools/create_submission.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/tools/create_submission.cc b/src/waymo_open_dataset/metrics/tools/create_submission.cc
index bb44562..ce5cc04 100644
--- a/src/waymo_open_dataset/metrics/tools/create_submission.cc
+++ b/src/waymo_open_dataset/metrics/tools/create_submission.cc
@@ -136,8 +136,10 @@ std::string ReadFileToString(const std::string& filename) {
 void WriteStringToFile(const std::string& filename,
                        const std::string& content) {
   std::ofstream o(filename.c_str());
+  CHECK(o.is_open()) << "Cannot open " << filename << " for writing.";
   o << content;
   o.close();
+  CHECK(!o.fail()) << "Failed to write " << filename << ".";
 }
 
 void Run() {
-- 
2.43.0


From 3bfead60a015abfe522d4336302a657042857f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 29/53] fix: comparing latency results fails if a file cannot
 be opened

---
 .../latency/compare_objects_file_to_submission_main.cc           | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
index 4d95374..42d0a60 100644
--- a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
+++ b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
@@ -81,6 +81,7 @@ Objects ReadObjectsFromFile(const std::vector<std::string>& paths) {
   for (const auto& path : paths) {
     Objects objs;
     std::ifstream s(path);
+    CHECK(s.is_open()) << "Could not open " << path;
     const std::string content((std::istreambuf_iterator<char>(s)),
                               std::istreambuf_iterator<char>());
     if (!objs.ParseFromString(content)) {
-- 
2.43.0


From 2fb8e5e04cf9d37d4ff3df5651c7b4ead2d198e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 30/53] fix: comparing latency results reads submissions that
 also parse as objects

---
 .../latency/compare_objects_file_to_submission_main.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
index 42d0a60..79349e2 100644
--- a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
+++ b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
@@ -84,12 +84,16 @@ Objects ReadObjectsFromFile(const std::vector<std::string>& paths) {
     CHECK(s.is_open()) << "Could not open " << path;
     const std::string content((std::istreambuf_iterator<char>(s)),
                               std::istreambuf_iterator<char>());
-    if (!objs.ParseFromString(content)) {
+    // A serialized Submission can also be a valid Objects proto in which
+    // everything is unknown, depending on the strings in it.
+    const bool is_objects = objs.ParseFromString(content);
+    if (!is_objects || objs.objects().empty()) {
       Submission submission;
-      if (!submission.ParseFromString(content)) {
+      if (submission.ParseFromString(content)) {
+        objs = submission.inference_results();
+      } else if (!is_objects) {
         LOG(FATAL) << "Could not parse " << path << " as submission either.";
       }
-      objs = std::move(submission.inference_results());
     }
     for (const auto& o : objs.objects()) {
       *objects_merged.add_objects() = o;
-- 
2.43.0


From 27d9d16c5d3f4840d60cf1a672010eed0acf6102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 31/53] fix: empty latency results do not match a submission

---
 .../latency/compare_objects_file_to_submission_main.cc        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
index 79349e2..f486730 100644
--- a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
+++ b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
@@ -115,6 +115,10 @@ int Compute(const std::string& latency_result_filename,
   using KeyTuple = std::tuple<std::string, int64_t, CameraName::Name>;
   Objects latency_result_objs = ReadObjectsFromFile({latency_result_filename});
   Objects full_result_objs = ReadObjectsFromFile(full_result_filename);
+  if (latency_result_objs.objects().empty()) {
+    LOG(FATAL) << "There are no objects in the latency evaluator results.";
+    return 1;
+  }
 
   // Maps from frames (identified by their context name, timestamps, and camera
   // names) to a vector of Object protos, for both the latency result subset and
-- 
2.43.0


From 7c0bdccb3603a54f1b4dd3d9bfbb12beb3dd3483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 32/53] fix: latency results in one place are matched by their
 score

---
 .../compare_objects_file_to_submission_main.cc  | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
index f486730..d1de749 100644
--- a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
+++ b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
@@ -103,6 +103,11 @@ Objects ReadObjectsFromFile(const std::vector<std::string>& paths) {
   return objects_merged;
 }
 
+// Returns whether two detections have nearly the same confidence score.
+bool IsScoreSame(const Object& a, const Object& b) {
+  return std::abs(a.score() - b.score()) <= 0.05;
+}
+
 // Compare the results from the latency evaluator to the results from the full
 // submission. For each frame in the latency results, this function uses a
 // Hungarian matcher to match corresponding Object protos in the two sets of
@@ -152,6 +157,16 @@ int Compute(const std::string& latency_result_filename,
 
   const Config config = GetConfig(is_2d, iou_threshold);
   std::unique_ptr<Matcher> matcher = Matcher::Create(config);
+  // Boxes with different scores are different detections, even if they are in
+  // the same place: they must not take each other's match.
+  matcher->SetCustomCanMatchFunc(
+      [iou_threshold](const Matcher& matcher, int prediction_index,
+                      int ground_truth_index) {
+        return matcher.IoU(prediction_index, ground_truth_index) >=
+                   static_cast<float>(iou_threshold) &&
+               IsScoreSame(matcher.predictions()[prediction_index],
+                           matcher.ground_truths()[ground_truth_index]);
+      });
 
   // This loop iterates over the key-value pairs in the latency result map
   // rather than the full result map because it assumes that the latency results
@@ -205,7 +220,7 @@ int Compute(const std::string& latency_result_filename,
       }
       const Object& full_obj = full_results[full_ind];
 
-      if (std::abs(latency_obj.score() - full_obj.score()) > 0.05) {
+      if (!IsScoreSame(latency_obj, full_obj)) {
         LOG(INFO) << "Matched objects for frame " << print_key(example_key)
                   << " are not identical: " << std::endl
                   << latency_obj.DebugString() << std::endl
-- 
2.43.0


From 2f59d1d93a684c19a8168ae42db8c55164164e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 33/53] fix: metric tools fail if the metrics cannot be
 computed

---
 .../tools/compute_detection_let_metrics_main.cc  | 15 +++++++--------
 .../tools/compute_detection_metrics_main.cc      | 15 +++++++--------
 .../tools/compute_segmentation_metrics_main.cc   | 16 ++++++++--------
 .../tools/compute_tracking_metrics_main.cc       | 15 +++++++--------
 4 files changed, 29 insertions(+), 32 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tools/compute_detection_let_metrics_main.cc b/src/waymo_open_dataset/metrics/tools/compute_detection_let_metrics_main.cc
index 373fd55..a06e73a 100644
--- a/src/waymo_open_dataset/metrics/tools/compute_detection_let_metrics_main.cc
+++ b/src/waymo_open_dataset/metrics/tools/compute_detection_let_metrics_main.cc
@@ -158,17 +158,17 @@ Config GetConfig() {
   return config;
 }
 
-// Computes the detection metrics.
-void Compute(const std::string& pd_str, const std::string& gt_str) {
+// Computes the detection metrics. Returns false if they cannot be computed.
+bool Compute(const std::string& pd_str, const std::string& gt_str) {
   Objects pd_objects;
   if (!pd_objects.ParseFromString(pd_str)) {
     std::cerr << "Failed to parse predictions.";
-    return;
+    return false;
   }
   Objects gt_objects_ori;
   if (!gt_objects_ori.ParseFromString(gt_str)) {
     std::cerr << "Failed to parse ground truths.";
-    return;
+    return false;
   }
 
   // Set detection difficulty.
@@ -254,7 +254,7 @@ void Compute(const std::string& pd_str, const std::string& gt_str) {
     std::cerr << "Metrics (size of " << detection_metrics.size()
               << ") and breadown (size of " << breakdown_names.size()
               << ") does not match.\n";
-    return;
+    return false;
   }
   std::cout << "\n";
   for (int i = 0; i < detection_metrics.size(); ++i) {
@@ -266,6 +266,7 @@ void Compute(const std::string& pd_str, const std::string& gt_str) {
               << " [LET-mAPH " << metric.mean_average_precision_ha_weighted()
               << "]\n";
   }
+  return true;
 }
 
 }  // namespace
@@ -298,7 +299,5 @@ int main(int argc, char** argv) {
     return 1;
   }
 
-  waymo::open_dataset::Compute(pd_str, gt_str);
-
-  return 0;
+  return waymo::open_dataset::Compute(pd_str, gt_str) ? 0 : 1;
 }
diff --git a/src/waymo_open_dataset/metrics/tools/compute_detection_metrics_main.cc b/src/waymo_open_dataset/metrics/tools/compute_detection_metrics_main.cc
index bfa3bac..e324702 100644
--- a/src/waymo_open_dataset/metrics/tools/compute_detection_metrics_main.cc
+++ b/src/waymo_open_dataset/metrics/tools/compute_detection_metrics_main.cc
@@ -121,17 +121,17 @@ Config GetConfig() {
   return config;
 }
 
-// Computes the detection metrics.
-void Compute(const std::string& pd_str, const std::string& gt_str) {
+// Computes the detection metrics. Returns false if they cannot be computed.
+bool Compute(const std::string& pd_str, const std::string& gt_str) {
   Objects pd_objects;
   if (!pd_objects.ParseFromString(pd_str)) {
     std::cerr << "Failed to parse predictions.";
-    return;
+    return false;
   }
   Objects gt_objects_ori;
   if (!gt_objects_ori.ParseFromString(gt_str)) {
     std::cerr << "Failed to parse ground truths.";
-    return;
+    return false;
   }
 
   // Set detection difficulty.
@@ -200,7 +200,7 @@ void Compute(const std::string& pd_str, const std::string& gt_str) {
     std::cerr << "Metrics (size of " << detection_metrics.size()
               << ") and breadown (size of " << breakdown_names.size()
               << ") does not match.\n";
-    return;
+    return false;
   }
   std::cout << "\n";
   for (int i = 0; i < detection_metrics.size(); ++i) {
@@ -210,6 +210,7 @@ void Compute(const std::string& pd_str, const std::string& gt_str) {
               << " [mAPH " << metric.mean_average_precision_ha_weighted()
               << "]\n";
   }
+  return true;
 }
 
 }  // namespace
@@ -242,7 +243,5 @@ int main(int argc, char** argv) {
     return 1;
   }
 
-  waymo::open_dataset::Compute(pd_str, gt_str);
-
-  return 0;
+  return waymo::open_dataset::Compute(pd_str, gt_str) ? 0 : 1;
 }
diff --git a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
index d085b70..fda1c7c 100644
--- a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
+++ b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
@@ -110,8 +110,9 @@ std::vector<Segmentation::Type> CreateEmptyPrediction(int num_points) {
   return flattened;
 }
 
-// Computes the 3D semantic segmentation metrics.
-void Compute(const std::string& pd_str, const std::string& gt_str) {
+// Computes the 3D semantic segmentation metrics. Returns false if they cannot
+// be computed.
+bool Compute(const std::string& pd_str, const std::string& gt_str) {
   SegmentationMetricsConfig segmentation_metrics_config;
   // Create a segmentation_metrics_config, where we evaluate:
   // 1. All classes except the TYPE_UNDEFINED
@@ -131,13 +132,13 @@ void Compute(const std::string& pd_str, const std::string& gt_str) {
   SegmentationFrameList pd_frames;
   if (!pd_frames.ParseFromString(pd_str)) {
     std::cerr << "Failed to parse predictions.\n";
-    return;
+    return false;
   }
   std::cout << pd_frames.frames_size() << " frames found in prediction.\n";
   SegmentationFrameList gt_frames;
   if (!gt_frames.ParseFromString(gt_str)) {
     std::cerr << "Failed to parse ground truths.\n";
-    return;
+    return false;
   }
   std::cout << gt_frames.frames_size() << " frames found in groundtruth.\n";
   std::map<std::pair<std::string, int64_t>, SegmentationFrame> pd_map;
@@ -172,7 +173,7 @@ void Compute(const std::string& pd_str, const std::string& gt_str) {
     if (gt_it->second.segmentation_labels().size() > 1 ||
         gt_it->second.segmentation_labels()[0].name() != LaserName::TOP) {
       std::cerr << "Only TOP laser is supported right now.\n";
-      return;
+      return false;
     }
     auto pd_it = pd_map.find(example_key);
     bool has_valid_prediction =
@@ -225,6 +226,7 @@ void Compute(const std::string& pd_str, const std::string& gt_str) {
               << std::endl;
   }
   std::cout << "miou=" << segmentation_metrics.miou() << std::endl;
+  return true;
 }
 }  // namespace
 }  // namespace open_dataset
@@ -256,7 +258,5 @@ int main(int argc, char** argv) {
     return 1;
   }
 
-  waymo::open_dataset::Compute(pd_str, gt_str);
-
-  return 0;
+  return waymo::open_dataset::Compute(pd_str, gt_str) ? 0 : 1;
 }
diff --git a/src/waymo_open_dataset/metrics/tools/compute_tracking_metrics_main.cc b/src/waymo_open_dataset/metrics/tools/compute_tracking_metrics_main.cc
index 6d74d83..a9edc3d 100644
--- a/src/waymo_open_dataset/metrics/tools/compute_tracking_metrics_main.cc
+++ b/src/waymo_open_dataset/metrics/tools/compute_tracking_metrics_main.cc
@@ -123,17 +123,17 @@ Config GetConfig() {
 }
 
 // Computes the tracking metrics by taking serialized prediction objects and
-// serialized groundtruth objects.
-void Compute(const std::string& pd_str, const std::string& gt_str) {
+// serialized groundtruth objects. Returns false if they cannot be computed.
+bool Compute(const std::string& pd_str, const std::string& gt_str) {
   Objects pd_objects;
   if (!pd_objects.ParseFromString(pd_str)) {
     std::cerr << "Failed to parse predictions.";
-    return;
+    return false;
   }
   Objects gt_objects;
   if (!gt_objects.ParseFromString(gt_str)) {
     std::cerr << "Failed to parse ground truths.";
-    return;
+    return false;
   }
 
   std::map<std::string, std::map<int64_t, std::vector<Object>>> pd_map;
@@ -171,7 +171,7 @@ void Compute(const std::string& pd_str, const std::string& gt_str) {
     std::cerr << "Metrics (size of " << tracking_metrics.size()
               << ") and breadown (size of " << breakdown_names.size()
               << ") does not match.\n";
-    return;
+    return false;
   }
   std::cout << "\n";
   for (int i = 0; i < tracking_metrics.size(); ++i) {
@@ -182,6 +182,7 @@ void Compute(const std::string& pd_str, const std::string& gt_str) {
               << " [Mismatch " << metric.mismatch() << "]"
               << " [FP " << metric.fp() << "]\n";
   }
+  return true;
 }
 
 }  // namespace
@@ -214,7 +215,5 @@ int main(int argc, char** argv) {
     return 1;
   }
 
-  waymo::open_dataset::Compute(pd_str, gt_str);
-
-  return 0;
+  return waymo::open_dataset::Compute(pd_str, gt_str) ? 0 : 1;
 }
-- 
2.43.0


From 8b06ad78d084d9454008d55b24b05948fd0816a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 34/53] fix: metric tools fail if a file cannot be opened

---
 .../compute_detection_let_metrics_main.cc     | 23 +++++++++++++------
 .../tools/compute_detection_metrics_main.cc   | 23 +++++++++++++------
 .../compute_segmentation_metrics_main.cc      | 23 +++++++++++++------
 .../tools/compute_tracking_metrics_main.cc    | 23 +++++++++++++------
 4 files changed, 64 insertions(+), 28 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tools/compute_detection_let_metrics_main.cc b/src/waymo_open_dataset/metrics/tools/compute_detection_let_metrics_main.cc
index a06e73a..b6d3dea 100644
--- a/src/waymo_open_dataset/metrics/tools/compute_detection_let_metrics_main.cc
+++ b/src/waymo_open_dataset/metrics/tools/compute_detection_let_metrics_main.cc
@@ -274,12 +274,17 @@ bool Compute(const std::string& pd_str, const std::string& gt_str) {
 }  // namespace waymo
 
 namespace {
-// Read all content in a file to a string.
-std::string ReadFileToString(const char* filename) {
+// Read all content in a file to a string. Returns false if the file cannot be
+// opened.
+bool ReadFileToString(const char* filename, std::string* content) {
   std::ifstream s(filename);
-  const std::string content((std::istreambuf_iterator<char>(s)),
-                            std::istreambuf_iterator<char>());
-  return content;
+  if (!s.is_open()) {
+    std::cerr << "Failed to open " << filename << ".\n";
+    return false;
+  }
+  content->assign((std::istreambuf_iterator<char>(s)),
+                  std::istreambuf_iterator<char>());
+  return true;
 }
 }  // namespace
 
@@ -292,8 +297,12 @@ int main(int argc, char** argv) {
 
   const char* pd_filename = argv[1];
   const char* gt_filename = argv[2];
-  const std::string pd_str = ReadFileToString(pd_filename);
-  const std::string gt_str = ReadFileToString(gt_filename);
+  std::string pd_str;
+  std::string gt_str;
+  if (!ReadFileToString(pd_filename, &pd_str) ||
+      !ReadFileToString(gt_filename, &gt_str)) {
+    return 1;
+  }
   if (gt_str.empty()) {
     std::cerr << "Must specify ground truth.\n";
     return 1;
diff --git a/src/waymo_open_dataset/metrics/tools/compute_detection_metrics_main.cc b/src/waymo_open_dataset/metrics/tools/compute_detection_metrics_main.cc
index e324702..ce00eec 100644
--- a/src/waymo_open_dataset/metrics/tools/compute_detection_metrics_main.cc
+++ b/src/waymo_open_dataset/metrics/tools/compute_detection_metrics_main.cc
@@ -218,12 +218,17 @@ bool Compute(const std::string& pd_str, const std::string& gt_str) {
 }  // namespace waymo
 
 namespace {
-// Read all content in a file to a string.
-std::string ReadFileToString(const char* filename) {
+// Read all content in a file to a string. Returns false if the file cannot be
+// opened.
+bool ReadFileToString(const char* filename, std::string* content) {
   std::ifstream s(filename);
-  const std::string content((std::istreambuf_iterator<char>(s)),
-                            std::istreambuf_iterator<char>());
-  return content;
+  if (!s.is_open()) {
+    std::cerr << "Failed to open " << filename << ".\n";
+    return false;
+  }
+  content->assign((std::istreambuf_iterator<char>(s)),
+                  std::istreambuf_iterator<char>());
+  return true;
 }
 }  // namespace
 
@@ -236,8 +241,12 @@ int main(int argc, char** argv) {
 
   const char* pd_filename = argv[1];
   const char* gt_filename = argv[2];
-  const std::string pd_str = ReadFileToString(pd_filename);
-  const std::string gt_str = ReadFileToString(gt_filename);
+  std::string pd_str;
+  std::string gt_str;
+  if (!ReadFileToString(pd_filename, &pd_str) ||
+      !ReadFileToString(gt_filename, &gt_str)) {
+    return 1;
+  }
   if (gt_str.empty()) {
     std::cerr << "Must specify ground truth.\n";
     return 1;
diff --git a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
index fda1c7c..48dc309 100644
--- a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
+++ b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
@@ -233,12 +233,17 @@ bool Compute(const std::string& pd_str, const std::string& gt_str) {
 }  // namespace waymo
 
 namespace {
-// Read all content in a file to a string.
-std::string ReadFileToString(const char* filename) {
+// Read all content in a file to a string. Returns false if the file cannot be
+// opened.
+bool ReadFileToString(const char* filename, std::string* content) {
   std::ifstream s(filename);
-  const std::string content((std::istreambuf_iterator<char>(s)),
-                            std::istreambuf_iterator<char>());
-  return content;
+  if (!s.is_open()) {
+    std::cerr << "Failed to open " << filename << ".\n";
+    return false;
+  }
+  content->assign((std::istreambuf_iterator<char>(s)),
+                  std::istreambuf_iterator<char>());
+  return true;
 }
 }  // namespace
 
@@ -251,8 +256,12 @@ int main(int argc, char** argv) {
 
   const char* pd_filename = argv[1];
   const char* gt_filename = argv[2];
-  const std::string pd_str = ReadFileToString(pd_filename);
-  const std::string gt_str = ReadFileToString(gt_filename);
+  std::string pd_str;
+  std::string gt_str;
+  if (!ReadFileToString(pd_filename, &pd_str) ||
+      !ReadFileToString(gt_filename, &gt_str)) {
+    return 1;
+  }
   if (gt_str.empty()) {
     std::cerr << "Must specify ground truth.\n";
     return 1;
diff --git a/src/waymo_open_dataset/metrics/tools/compute_tracking_metrics_main.cc b/src/waymo_open_dataset/metrics/tools/compute_tracking_metrics_main.cc
index a9edc3d..dc2c3d1 100644
--- a/src/waymo_open_dataset/metrics/tools/compute_tracking_metrics_main.cc
+++ b/src/waymo_open_dataset/metrics/tools/compute_tracking_metrics_main.cc
@@ -190,12 +190,17 @@ bool Compute(const std::string& pd_str, const std::string& gt_str) {
 }  // namespace waymo
 
 namespace {
-// Read all content in a file to a string.
-std::string ReadFileToString(const char* filename) {
+// Read all content in a file to a string. Returns false if the file cannot be
+// opened.
+bool ReadFileToString(const char* filename, std::string* content) {
   std::ifstream s(filename);
-  const std::string content((std::istreambuf_iterator<char>(s)),
-                            std::istreambuf_iterator<char>());
-  return content;
+  if (!s.is_open()) {
+    std::cerr << "Failed to open " << filename << ".\n";
+    return false;
+  }
+  content->assign((std::istreambuf_iterator<char>(s)),
+                  std::istreambuf_iterator<char>());
+  return true;
 }
 }  // namespace
 
@@ -208,8 +213,12 @@ int main(int argc, char** argv) {
 
   const char* pd_filename = argv[1];
   const char* gt_filename = argv[2];
-  const std::string pd_str = ReadFileToString(pd_filename);
-  const std::string gt_str = ReadFileToString(gt_filename);
+  std::string pd_str;
+  std::string gt_str;
+  if (!ReadFileToString(pd_filename, &pd_str) ||
+      !ReadFileToString(gt_filename, &gt_str)) {
+    return 1;
+  }
   if (gt_str.empty()) {
     std::cerr << "Must specify ground truth.\n";
     return 1;
-- 
2.43.0


From 1ff7afe62ac0510de575501a3c02eed53cc073aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 35/53] fix: the segmentation tool fails if labels cannot be
 uncompressed

---
 .../compute_segmentation_metrics_main.cc      | 51 ++++++++++++-------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
index 48dc309..052daba 100644
--- a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
+++ b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
@@ -74,8 +74,8 @@ namespace waymo {
 namespace open_dataset {
 namespace {
 
-// Util function for Zlib uncompression.
-std::string Uncompress(std::string const& s) {
+// Util function for Zlib uncompression. Returns false on failure.
+bool Uncompress(std::string const& s, std::string* ret) {
   unsigned int source_size = s.size();
   const char* source = s.c_str();
   constexpr int kMaxUncompressedLen = 1 << 30;  // 1GB
@@ -86,11 +86,20 @@ std::string Uncompress(std::string const& s) {
   if (result != Z_OK) {
     delete[] destination;
     std::cerr << "Uncompress error occured! Error code: " << result << "\n";
+    return false;
   }
   // Since we don't know the output size, we use the max len.
-  std::string ret = std::string(destination, max_len);
+  ret->assign(destination, max_len);
   delete[] destination;
-  return ret;
+  return true;
+}
+
+// Helper function to read a compressed label image. Returns false on failure.
+bool ReadLabels(const RangeImage& range_image, MatrixInt32* labels) {
+  std::string uncompressed;
+  return Uncompress(range_image.segmentation_label_compressed(),
+                    &uncompressed) &&
+         labels->ParseFromString(uncompressed);
 }
 
 // Helper function to convert a frame into a vector.
@@ -182,18 +191,21 @@ bool Compute(const std::string& pd_str, const std::string& gt_str) {
         pd_it->second.segmentation_labels()[0].name() == LaserName::TOP;
     MatrixInt32 gt_matrix;
     // Measure the first return range image.
-    gt_matrix.ParseFromString(Uncompress(gt_it->second.segmentation_labels()[0]
-                                             .ri_return1()
-                                             .segmentation_label_compressed()));
+    if (!ReadLabels(gt_it->second.segmentation_labels()[0].ri_return1(),
+                    &gt_matrix)) {
+      std::cerr << "Failed to read the labels of a ground truth.\n";
+      return false;
+    }
     const int num_points = gt_matrix.data().size();
 
     std::vector<Segmentation::Type> pd_vector;
     if (has_valid_prediction) {
       MatrixInt32 pd_matrix;
-      pd_matrix.ParseFromString(
-          Uncompress(pd_it->second.segmentation_labels()[0]
-                         .ri_return1()
-                         .segmentation_label_compressed()));
+      if (!ReadLabels(pd_it->second.segmentation_labels()[0].ri_return1(),
+                      &pd_matrix)) {
+        std::cerr << "Failed to read the labels of a prediction.\n";
+        return false;
+      }
       pd_vector = Flatten(pd_matrix);
     } else {
       pd_vector = CreateEmptyPrediction(num_points);
@@ -201,15 +213,18 @@ bool Compute(const std::string& pd_str, const std::string& gt_str) {
     CHECK(miou.Update(pd_vector, Flatten(gt_matrix)).ok())
         << "Prediction and Groundtruth lengths do not match";
     // Measure the second return range image.
-    gt_matrix.ParseFromString(Uncompress(gt_it->second.segmentation_labels()[0]
-                                             .ri_return2()
-                                             .segmentation_label_compressed()));
+    if (!ReadLabels(gt_it->second.segmentation_labels()[0].ri_return2(),
+                    &gt_matrix)) {
+      std::cerr << "Failed to read the labels of a ground truth.\n";
+      return false;
+    }
     if (has_valid_prediction) {
       MatrixInt32 pd_matrix;
-      pd_matrix.ParseFromString(
-          Uncompress(pd_it->second.segmentation_labels()[0]
-                         .ri_return2()
-                         .segmentation_label_compressed()));
+      if (!ReadLabels(pd_it->second.segmentation_labels()[0].ri_return2(),
+                      &pd_matrix)) {
+        std::cerr << "Failed to read the labels of a prediction.\n";
+        return false;
+      }
       pd_vector = Flatten(pd_matrix);
     } else {
       pd_vector = CreateEmptyPrediction(num_points);
-- 
2.43.0


From 4d3561827e4265c26320d884128e92365bfdb71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 36/53] fix: v2 segmentation labels without instance mappings
 can be decoded

---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 1860337..d313072 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -156,14 +156,14 @@ def _remap_global_ids(
   # Read the set of global ids for each sequence.
   global_instance_ids = {}
   for label in segmentation_proto_list:
-    if not label.instance_id_to_global_id_mapping:
+    frame_global_instance_ids = [
+        mapping.global_instance_id for mapping in _iterate_over_mapping(label)
+    ]
+    if not frame_global_instance_ids:
       continue
     if label.sequence_id not in global_instance_ids:
       global_instance_ids[label.sequence_id] = set()
 
-    frame_global_instance_ids = [
-        mapping.global_instance_id for mapping in _iterate_over_mapping(label)
-    ]
     global_instance_ids[label.sequence_id].update(frame_global_instance_ids)
 
   if not global_instance_ids:
-- 
2.43.0


From 2ac422f3584c2046fb162388a16ac3c127d13828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 37/53] fix: segmentation divisor is chosen and checked for the
 remapped ids

---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index d313072..bf5c0e3 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -296,7 +296,8 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
           [max([global_id for _, global_id in mapping.items()])
            for _, mapping in global_id_mapping.items()])
       if new_panoptic_label_divisor is None:
-        panoptic_label_divisor = max(panoptic_label_divisor, max_instance_id)
+        panoptic_label_divisor = max(
+            panoptic_label_divisor, max_instance_id + 1)
 
   panoptic_labels = []
   num_cameras_covered = []
@@ -325,7 +326,7 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
         instance_label_copy[instance_mask] = global_id_mapping[sequence][
             mapping.global_instance_id]
 
-    if np.amax(instance_label) >= panoptic_label_divisor:
+    if np.amax(instance_label_copy) >= panoptic_label_divisor:
       raise ValueError('A panoptic_label_divisor of '
                        f'{panoptic_label_divisor} is requested, but the '
                        'maximum instance id exceeds this.')
-- 
2.43.0


From d8ac5dce3b397b826bcbbe32264010407f74d851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 38/53] fix: large global segmentation ids do not wrap around

---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index bf5c0e3..dc29d92 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -311,7 +311,8 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
     camera_coverage = np.ones_like(instance_label, dtype=np.uint8)
     is_tracked_mask = np.zeros_like(instance_label, dtype=np.uint8)
 
-    instance_label_copy = np.copy(instance_label)
+    # Global ids may exceed the range of the encoded uint16 labels.
+    instance_label_copy = instance_label.astype(np.uint32)
     if remap_to_global:
       if isinstance(label, v2.CameraSegmentationLabelComponent):
         mapping_iter = _iterate_over_mapping(label)
-- 
2.43.0


From 22da8a35150e37473e0f2b21a1a7b1494bde1c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 39/53] fix: loading labelled frames stops at the end of the
 sequence

---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index dc29d92..7214551 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -529,12 +529,13 @@ def load_frames_with_labels_from_dataset(
     frame.ParseFromString(bytearray(data.numpy()))
 
     if frame.images[0].camera_segmentation_label.panoptic_label:
-      frames_with_seg.append(frame)
       if sequence_id is None:
         sequence_id = frame.images[0].camera_segmentation_label.sequence_id
 
-      if (frame.images[0].camera_segmentation_label.sequence_id != sequence_id
-          or len(frames_with_seg) >= keep_first_k):
+      if frame.images[0].camera_segmentation_label.sequence_id != sequence_id:
+        break
+      frames_with_seg.append(frame)
+      if len(frames_with_seg) >= keep_first_k:
         break
 
   return frames_with_seg, sequence_id
-- 
2.43.0


From 13ae9cf0dc0470a7bd5c378808f282bd358ff1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 40/53] fix: scenario conversion skips map polygons without
 points

---
 src/waymo_open_dataset/data_conversion/scenario_conversion.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 4fecf3f..9597788 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -794,6 +794,10 @@ void AddPolygonSamples(
     const int type, const google::protobuf::RepeatedPtrField<MapPoint>& map_points,
     const int valid, int* num_points,
     absl::flat_hash_map<std::string, tensorflow::Feature>* features) {
+  if (map_points.empty()) {
+    return;
+  }
+
   // Add the first N-1 segments of the polygon.
   const int feature_size = map_points.size();
   std::vector<Vec3d> points;
-- 
2.43.0


From 202f6b3abed9f93937fd335966c10c32417ad933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 41/53] fix: scenario conversion fails if a scenario ends
 before the current step

---
 src/waymo_open_dataset/data_conversion/scenario_conversion.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 9597788..e875898 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -240,6 +240,10 @@ absl::Status AddSdcAndAgentsStateFeatures(
   // Gather objects of interest in the Scenario proto.
   const int current_timestamp_steps =
       last_timestamps_step - conversion_config.num_future_steps();
+  if (current_timestamp_steps >= scenario.timestamps_seconds_size()) {
+    IncrementCounter("Scenario_Not_Enough_Steps", counters);
+    return absl::FailedPreconditionError("Current time step not found.");
+  }
   absl::flat_hash_set<const Track*> objects_of_interest = GetObjectsOfInterest(
       scenario, current_timestamp_steps, /*keep_invalid_tracks=*/true);
 
-- 
2.43.0


From b6b4d8e1b2b2a46e570ebf6118d477fa807f78ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 42/53] fix: scenario conversion fails if a track to predict
 does not exist

---
 .../data_conversion/scenario_conversion.cc                | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index e875898..c72894a 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -1011,6 +1011,14 @@ bool ValidateScenarioProto(const Scenario& scenario,
     }
   }
 
+  for (const auto& required_track : scenario.tracks_to_predict()) {
+    if (required_track.track_index() >= scenario.tracks().size() ||
+        required_track.track_index() < 0) {
+      IncrementCounter("Scenario_Track_To_Predict_Index_No_Match", counters);
+      valid = false;
+    }
+  }
+
   if (valid) {
     IncrementCounter("Valid_Scenario", counters);
   }
-- 
2.43.0


From 39651944a31e7c398117345610c66b1296be419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 43/53] fix: scenario conversion keeps modeled agents within
 max_num_agents

---
 .../data_conversion/scenario_conversion.cc                   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index c72894a..932fba2 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -588,7 +588,10 @@ absl::flat_hash_set<const Track*> GetModeledAgents(
     const Scenario& scenario, const Track* sdc_track,
     const int last_timestamps_step, std::map<std::string, int>* counters) {
   // The open dataset defines a maximum of 8 tracks to predict per example.
-  const int max_num_modeled_agents = conversion_config.max_num_modeled_agents();
+  // Modeled agents are part of the agents.
+  const int max_num_modeled_agents =
+      std::min(conversion_config.max_num_modeled_agents(),
+               conversion_config.max_num_agents());
   const int current_timestamp_steps =
       last_timestamps_step - conversion_config.num_future_steps();
   absl::flat_hash_set<const Track*> modeled_agents;
-- 
2.43.0


From de5227b929b51a595ee3c7afd72292f248ae558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 44/53] fix: refuse a joint scene which simulates an object
 more than once

---
 src/waymo_open_dataset/utils/sim_agents/submission_specs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/waymo_open_dataset/utils/sim_agents/submission_specs.py b/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
index 6469cf3..aea3a13 100644
--- a/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
+++ b/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
@@ -209,6 +209,12 @@ def validate_joint_scene(
       raise ValueError(
           f'Object {simulated_trajectory.object_id} is not a sim agent.'
       )
+    # Check that each object is simulated only once.
+    if simulated_trajectory.object_id in simulated_ids:
+      raise ValueError(
+          f'Object {simulated_trajectory.object_id} is simulated more than'
+          ' once.'
+      )
     simulated_ids.append(simulated_trajectory.object_id)
   # Check that all of the required objects/agents are simulated.
   missing_agents = set(sim_agent_ids) - set(simulated_ids)
-- 
2.43.0


From 77433983ef8fa2af877605a9d567dc23e29fc92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 45/53] fix: refuse rollouts whose scenario id is not the id of
 the scenario

---
 src/waymo_open_dataset/utils/sim_agents/submission_specs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/waymo_open_dataset/utils/sim_agents/submission_specs.py b/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
index aea3a13..45bc349 100644
--- a/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
+++ b/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
@@ -247,6 +247,12 @@ def validate_scenario_rollouts(
   config = get_submission_config(challenge_type)
   if not scenario_rollouts.HasField('scenario_id'):
     raise ValueError('Missing `scenario_id` field.')
+  if scenario_rollouts.scenario_id != original_scenario.scenario_id:
+    raise ValueError(
+        'Rollouts of a different scenario. '
+        f'(Actual: {scenario_rollouts.scenario_id}, '
+        f'Expected: {original_scenario.scenario_id})'
+    )
   if len(scenario_rollouts.joint_scenes) != config.n_rollouts:
     raise ValueError(
         'Incorrect number of parallel simulations. '
-- 
2.43.0


From 43769a0a29105822248ec4df56fb098994c9ea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 46/53] fix: nearest lane segment: subtract the projection on
 the segment

---
 .../wdl_limited/sim_agents_metrics/traffic_light_features.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
index 33fd187..cdedfe9 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
@@ -264,7 +264,7 @@ def _get_nearest_lane_segment_index(
   )
   clipped_rel_t = tf.clip_by_value(rel_t, 0.0, 1.0)
   distance_to_segment = tf.linalg.norm(
-      start_to_point + start_to_end * clipped_rel_t[..., tf.newaxis], axis=-1
+      start_to_point - start_to_end * clipped_rel_t[..., tf.newaxis], axis=-1
   )
 
   # Mask out invalid segments.
-- 
2.43.0


From 2ca2028dc3eaffaa9e9dda8e2d8652c9910cd0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 47/53] fix: nearest lane segment: ignore segments which end in
 padding

---
 .../wdl_limited/sim_agents_metrics/traffic_light_features.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
index cdedfe9..cf2be91 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
@@ -270,7 +270,7 @@ def _get_nearest_lane_segment_index(
   # Mask out invalid segments.
   # shape: (num_points, num_polylines, num_segments)
   distance_to_segment = tf.where(
-      lane_valid[:, :, :-1],
+      lane_valid[:, :, :-1] & lane_valid[:, :, 1:],
       distance_to_segment,
       EXTREMELY_LARGE_DISTANCE,
   )
-- 
2.43.0


From 1780a4f8302b1f0a5e9cb6e1ddbcc4b67b27d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 48/53] fix: time to collision: wrap the difference of headings

---
 .../wdl_limited/sim_agents_metrics/interaction_features.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py
index ab44af8..1e3438c 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py
@@ -305,7 +305,9 @@ def compute_time_to_collision_with_object_in_front(
 
   # Absolute yaw difference between each ego box and every other box.
   # `yaw_diff` shape: (num_steps, num_evaluated_objects, num_objects, 1)
-  yaw_diff = tf.math.abs(other_yaw[:, tf.newaxis] - ego_yaw[:, :, tf.newaxis])
+  yaw_diff = other_yaw[:, tf.newaxis] - ego_yaw[:, :, tf.newaxis]
+  # Wrap to [-pi, pi], as headings on both sides of the wrap are close.
+  yaw_diff = tf.math.abs((yaw_diff + math.pi) % (2 * math.pi) - math.pi)
 
   yaw_diff_cos = tf.math.cos(yaw_diff)
   yaw_diff_sin = tf.math.sin(yaw_diff)
-- 
2.43.0


From 9ddddcfcffd48e0dfc161a08bf0cde42d47ce935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 49/53] fix: road edges: find the neighbours of the last
 segment of padded cyclic polylines

---
 .../sim_agents_metrics/map_metric_features.py | 93 ++++++++++---------
 1 file changed, 50 insertions(+), 43 deletions(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py
index 80b17e6..9a2da0d 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py
@@ -320,22 +320,47 @@ def _compute_signed_distance_to_polylines(
   #       sign of the distance depends on the convexity of the nearest and next
   #       segments.
 
-  # shape: (num_points, num_polylines, num_segments+2, 2)
-  start_to_end_padded = tf.concat(
-      [
-          start_to_end[:, :, -1:, :2],
-          start_to_end[..., :2],
-          start_to_end[:, :, :1, :2],
-      ],
-      axis=-2,
+  # As polylines are padded, the last segment of each one is not necessarily at
+  # the last index.
+  # shape: (num_polylines, num_segments)
+  is_last_segment = tf.logical_and(
+      is_segment_valid,
+      tf.logical_not(
+          tf.concat(
+              [is_segment_valid[:, 1:], tf.zeros([num_polylines, 1], tf.bool)],
+              axis=-1,
+          )
+      ),
+  )
+  # shape: (1, num_polylines, 1, 2)
+  last_start_to_end = tf.reduce_sum(
+      tf.where(is_last_segment[..., tf.newaxis], start_to_end[..., :2], 0.0),
+      axis=2,
+      keepdims=True,
+  )
+  # shape: (1, num_polylines, num_segments, 2)
+  prior_start_to_end = tf.concat(
+      [last_start_to_end, start_to_end[:, :, :-1, :2]], axis=2
+  )
+  next_start_to_end = tf.where(
+      is_last_segment[..., tf.newaxis],
+      start_to_end[:, :, :1, :2],
+      tf.concat(
+          [start_to_end[:, :, 1:, :2], start_to_end[:, :, :1, :2]], axis=2
+      ),
   )
-  # shape: (num_points, num_polylines, num_segments+1)
-  is_locally_convex = tf.greater(
+  # Convexity at the start and at the end of each segment.
+  # shape: (1, num_polylines, num_segments)
+  is_start_convex = tf.greater(
       geometry_utils.cross_product_2d(
-          start_to_end_padded[:, :, :-1], start_to_end_padded[:, :, 1:]
+          prior_start_to_end, start_to_end[..., :2]
       ),
       0.0,
   )
+  is_end_convex = tf.greater(
+      geometry_utils.cross_product_2d(start_to_end[..., :2], next_start_to_end),
+      0.0,
+  )
 
   # Get shifted versions of `n` and `is_segment_valid`. If the polyline is
   # cyclic, the tensors are rolled, else they are padded with their edge value.
@@ -344,56 +369,38 @@ def _compute_signed_distance_to_polylines(
       [
           tf.where(
               is_polyline_cyclic[tf.newaxis, :, tf.newaxis],
-              n[:, :, -1:],
+              tf.reduce_sum(
+                  tf.where(is_last_segment, n, 0.0), axis=-1, keepdims=True
+              ),
               n[:, :, :1],
           ),
           n[:, :, :-1],
       ],
       axis=-1,
   )
-  n_next = tf.concat(
-      [
-          n[:, :, 1:],
-          tf.where(
-              is_polyline_cyclic[tf.newaxis, :, tf.newaxis],
-              n[:, :, :1],
-              n[:, :, -1:],
-          ),
-      ],
-      axis=-1,
+  n_next = tf.where(
+      is_last_segment & is_polyline_cyclic[:, tf.newaxis],
+      n[:, :, :1],
+      tf.concat([n[:, :, 1:], n[:, :, -1:]], axis=-1),
   )
   # shape: (num_polylines, num_segments)
   is_prior_segment_valid = tf.concat(
-      [
-          tf.where(
-              is_polyline_cyclic[:, tf.newaxis],
-              is_segment_valid[:, -1:],
-              is_segment_valid[:, :1],
-          ),
-          is_segment_valid[:, :-1],
-      ],
-      axis=-1,
+      [is_segment_valid[:, :1], is_segment_valid[:, :-1]], axis=-1
   )
-  is_next_segment_valid = tf.concat(
-      [
-          is_segment_valid[:, 1:],
-          tf.where(
-              is_polyline_cyclic[:, tf.newaxis],
-              is_segment_valid[:, :1],
-              is_segment_valid[:, -1:],
-          ),
-      ],
-      axis=-1,
+  is_next_segment_valid = tf.where(
+      is_last_segment & is_polyline_cyclic[:, tf.newaxis],
+      is_segment_valid[:, :1],
+      tf.concat([is_segment_valid[:, 1:], is_segment_valid[:, -1:]], axis=-1),
   )
 
   # shape: (num_points, num_polylines, num_segments)
   sign_if_before = tf.where(
-      is_locally_convex[:, :, :-1],
+      is_start_convex,
       tf.maximum(n, n_prior),
       tf.minimum(n, n_prior),
   )
   sign_if_after = tf.where(
-      is_locally_convex[:, :, 1:], tf.maximum(n, n_next), tf.minimum(n, n_next)
+      is_end_convex, tf.maximum(n, n_next), tf.minimum(n, n_next)
   )
 
   # shape: (num_points, num_polylines, num_segments)
-- 
2.43.0


From 45382df67d0c0c83156f0cba241acefc890886a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 50/53] fix: log features of scenario generation use the log's
 validity

---
 .../wdl_limited/sim_agents_metrics/metric_features.py        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/metric_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/metric_features.py
index 9e9e5f8..ce32a4f 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/metric_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/metric_features.py
@@ -138,6 +138,11 @@ def compute_metric_features(
   logged_trajectories = logged_trajectories.gather_objects_by_id(
       simulated_trajectories.object_id
   )
+  if challenge_type == _ChallengeType.SCENARIO_GEN and use_log_validity:
+    # The conversion has assumed all the steps to be valid.
+    simulated_trajectories = dataclasses.replace(
+        simulated_trajectories, valid=logged_trajectories.valid
+    )
   # From the simulated trajectories, just select the subset of objects that
   # needs evaluation.
   evaluated_sim_agent_ids = tf.convert_to_tensor(
-- 
2.43.0


From d15ffc8149f146ef1404c9b450346bf38e24de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:32 +0000
Subject: [PATCH 51/53] fix: motion data: points of top lasers with uniform
 beams

---
 src/waymo_open_dataset/utils/womd_lidar_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/womd_lidar_utils.py b/src/waymo_open_dataset/utils/womd_lidar_utils.py
index 399d890..c376273 100644
--- a/src/waymo_open_dataset/utils/womd_lidar_utils.py
+++ b/src/waymo_open_dataset/utils/womd_lidar_utils.py
@@ -114,7 +114,7 @@ def extract_top_lidar_points(
       beam_inclinations = _get_beam_inclinations(
           c.beam_inclination_min,
           c.beam_inclination_max,
-          range_image.dims[0],
+          range_image.shape[0],
       )
     else:
       beam_inclinations = np.array(c.beam_inclinations)
-- 
2.43.0


From a4cf8504c31baa1249dd1a4aa67e8514ee433e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:08 +0000
Subject: [PATCH 52/53] fix: rays that miss a box get no distances in front of
 their origin

get_ray_box_intersects documents that both distances are negative when a ray
does not intersect the box, but returned the bounds of the slabs, which may be
positive, for rays that pass beside the box.
---
 .../v2/perception/utils/object_asset_utils.py                  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py b/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py
index f247ea3..bfa019a 100644
--- a/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py
+++ b/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py
@@ -93,6 +93,9 @@ def get_ray_box_intersects(
   tmax = np.minimum(tmax, tzmax)
 
   isect_flag[np.where(tmax <= 0)[0]] = False
+  # Rays that miss the box must not be given distances in front of the origin.
+  tmin = np.where(isect_flag | (tmin < 0), tmin, -1.0)
+  tmax = np.where(isect_flag | (tmax < 0), tmax, -1.0)
   return isect_flag, tmin, tmax
 
 
-- 
2.43.0


From 4fc77fc1ca89e4999be3787a4af65f4ddd6d8953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:12 +0000
Subject: [PATCH 53/53] fix: tracking details are kept when sequences are added
 up

---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index 138147e..297a6c8 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -104,6 +104,9 @@ TrackingMeasurement MergeTrackingMeasurement(const TrackingMeasurement& m1,
   ADD_FIELD(num_matches);
   ADD_FIELD(num_objects_gt);
 #undef ADD_FIELD
+  // If details are included, there is one for every frame of both sides.
+  *m.mutable_details() = m1.details();
+  m.mutable_details()->MergeFrom(m2.details());
   m.set_score_cutoff(m1.score_cutoff());
   return m;
 }
-- 
2.43.0

