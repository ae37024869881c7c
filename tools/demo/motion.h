// Inputs of the motion op: straight tracks at one step per second.
#pragma once
#include "demo.h"
#include "waymo_open_dataset/protos/motion_metrics.pb.h"
#include "waymo_open_dataset/protos/scenario.pb.h"
namespace demo {
namespace co = waymo::open_dataset;
struct Scen { std::string id; int type = 1; float err = 0; int groups = 1; };
inline co::MotionMetricsConfig MotionConfig() {
  co::MotionMetricsConfig c;
  c.set_track_steps_per_second(1);
  c.set_prediction_steps_per_second(1);
  c.set_track_history_samples(0);
  c.set_track_future_samples(4);
  c.set_speed_lower_bound(1.4); c.set_speed_upper_bound(11);
  c.set_speed_scale_lower(0.5); c.set_speed_scale_upper(1);
  c.set_max_predictions(3);
  for (int m : {1, 3}) {
    auto* s = c.add_step_configurations();
    s->set_measurement_step(m);
    s->set_lateral_miss_threshold(1); s->set_longitudinal_miss_threshold(2);
  }
  return c;
}
inline std::vector<tf::DataType> MotionTypes() {
  return {tf::DT_FLOAT, tf::DT_FLOAT, tf::DT_FLOAT, tf::DT_BOOL, tf::DT_INT64, tf::DT_BOOL, tf::DT_INT64,
          tf::DT_INT64, tf::DT_STRING};
}
// Two agents per scenario; the first is predicted (both when groups = 2).
inline std::vector<tf::Tensor> MotionInputs(const std::vector<Scen>& ss) {
  const int64_t B = ss.size(), A = 2, M = 2, K = 2, N = 1, TP = 4, TG = 5;
  std::vector<float> traj, score, gt;
  std::vector<int> valid, mask;
  std::vector<int64_t> idx, type, oid;
  std::vector<std::string> sid;
  for (auto& s : ss) {
    sid.push_back(s.id);
    for (int a = 0; a < A; ++a) {
      type.push_back(s.type);
      oid.push_back(a + 1);
      for (int t = 0; t < TG; ++t) {
        for (float v : {5.f * t, 50.f * a, 4.f, 2.f, 0.f, 5.f, 0.f}) gt.push_back(v);
        valid.push_back(1);
      }
    }
    for (int m = 0; m < M; ++m) {
      mask.push_back(m < s.groups);
      idx.push_back(m);
      for (int k = 0; k < K; ++k) {
        score.push_back(0.7f - 0.2f * k);
        for (int t = 1; t <= TP; ++t) { traj.push_back(5.f * t); traj.push_back(50.f * m + s.err * t + 3 * k); }
      }
    }
  }
  return {Make<float>(tf::DT_FLOAT, {B, M, K, N, TP, 2}, traj), Make<float>(tf::DT_FLOAT, {B, M, K}, score),
          Make<float>(tf::DT_FLOAT, {B, A, TG, 7}, gt), Bools({B, A, TG}, valid),
          Make<int64_t>(tf::DT_INT64, {B, M, N}, idx), Bools({B, M, N}, mask),
          Make<int64_t>(tf::DT_INT64, {B, A}, type), Make<int64_t>(tf::DT_INT64, {B, A}, oid), Strs(sid)};
}
}  // namespace demo
