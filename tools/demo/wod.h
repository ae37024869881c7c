// Inputs of the detection and tracking ops.
#pragma once
#include "demo.h"
#include "waymo_open_dataset/protos/metrics.pb.h"
namespace demo {
namespace co = waymo::open_dataset;
struct Row {
  int64_t frame; float x, y; int type = 1; float score = 0.9; std::string seq = "s"; int64_t id = 0; int level = 1;
  float size = 2;
};
inline co::Config DetConfig(int cutoffs = 0) {
  co::Config c;
  c.add_breakdown_generator_ids(co::Breakdown::ONE_SHARD);
  c.add_breakdown_generator_ids(co::Breakdown::OBJECT_TYPE);
  for (int i = 0; i < 2; ++i) {
    auto* d = c.add_difficulties();
    d->add_levels(co::Label::LEVEL_1);
    d->add_levels(co::Label::LEVEL_2);
  }
  c.set_matcher_type(co::MatcherProto::TYPE_HUNGARIAN);
  for (int i = 0; i < 5; ++i) c.add_iou_thresholds(0.5);
  c.set_box_type(co::Label::Box::TYPE_3D);
  if (cutoffs > 0) for (int i = 0; i < cutoffs; ++i) c.add_score_cutoffs(float(i) / cutoffs);
  else c.set_num_desired_score_cutoffs(4);
  return c;
}
template <typename T, typename F>
tf::Tensor Col(tf::DataType dt, const std::vector<Row>& r, F f) {
  std::vector<T> v;
  for (auto& x : r) v.push_back(f(x));
  return Make<T>(dt, {(int64_t)r.size()}, v);
}
inline tf::Tensor Boxes(const std::vector<Row>& r) {
  std::vector<float> v;
  for (auto& x : r) for (float f : {x.x, x.y, 0.f, x.size, x.size, x.size, 0.f}) v.push_back(f);
  return Make<float>(tf::DT_FLOAT, {(int64_t)r.size(), 7}, v);
}
inline std::vector<tf::DataType> DetTypes() {
  return {tf::DT_FLOAT, tf::DT_UINT8, tf::DT_FLOAT, tf::DT_INT64, tf::DT_BOOL,
          tf::DT_FLOAT, tf::DT_UINT8, tf::DT_INT64, tf::DT_UINT8, tf::DT_FLOAT};
}
inline std::vector<tf::Tensor> DetInputs(const std::vector<Row>& p, const std::vector<Row>& g) {
  auto type = [](const Row& r) { return (uint8_t)r.type; };
  auto frame = [](const Row& r) { return r.frame; };
  return {Boxes(p), Col<uint8_t>(tf::DT_UINT8, p, type), Col<float>(tf::DT_FLOAT, p, [](const Row& r) { return r.score; }),
          Col<int64_t>(tf::DT_INT64, p, frame), Bools({(int64_t)p.size()}, std::vector<int>(p.size())),
          Boxes(g), Col<uint8_t>(tf::DT_UINT8, g, type), Col<int64_t>(tf::DT_INT64, g, frame),
          Col<uint8_t>(tf::DT_UINT8, g, [](const Row& r) { return (uint8_t)r.level; }),
          Make<float>(tf::DT_FLOAT, {(int64_t)g.size(), 2}, std::vector<float>(2 * g.size()))};
}
inline std::vector<tf::DataType> TrkTypes() {
  return {tf::DT_FLOAT, tf::DT_UINT8, tf::DT_FLOAT, tf::DT_INT64, tf::DT_STRING, tf::DT_INT64, tf::DT_BOOL,
          tf::DT_FLOAT, tf::DT_UINT8, tf::DT_INT64, tf::DT_STRING, tf::DT_INT64, tf::DT_UINT8, tf::DT_FLOAT};
}
inline std::vector<tf::Tensor> TrkInputs(const std::vector<Row>& p, const std::vector<Row>& g) {
  auto d = DetInputs(p, g);
  auto seq = [](const std::vector<Row>& r) { std::vector<std::string> v; for (auto& x : r) v.push_back(x.seq); return Strs(v); };
  auto id = [](const Row& r) { return r.id; };
  return {d[0], d[1], d[2], d[3], seq(p), Col<int64_t>(tf::DT_INT64, p, id), d[4],
          d[5], d[6], d[7], seq(g), Col<int64_t>(tf::DT_INT64, g, id), d[8], d[9]};
}
}  // namespace demo
