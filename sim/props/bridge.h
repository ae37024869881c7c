// Converts the simulator's plain objects to protos and tensors.
#ifndef WODSIM_BRIDGE_H_
#define WODSIM_BRIDGE_H_
#include "props/ops.h"
#include "props/wod.h"
#include "waymo_open_dataset/label.pb.h"
#include "waymo_open_dataset/protos/breakdown.pb.h"
#include "waymo_open_dataset/protos/metrics.pb.h"

namespace bridge {
namespace co = waymo::open_dataset;

inline void SetBox(const ref::Box& b, int dof, co::Label::Box* o) {
  o->set_center_x(b.x);
  o->set_center_y(b.y);
  if (dof == 7) o->set_center_z(b.z);
  o->set_length(b.l);
  o->set_width(b.w);
  if (dof == 7) o->set_height(b.h);
  if (dof >= 5) o->set_heading(b.yaw);
}
// What a box of `dof` numbers carries.
inline void Reduce(int dof, ref::Box* b) {
  if (dof < 7) b->z = b->h = 0;
  if (dof < 5) b->yaw = 0;
}
inline co::Object ToObject(const ref::Obj& o, int dof, bool gt) {
  co::Object r;
  co::Label* l = r.mutable_object();
  SetBox(o.box, dof, l->mutable_box());
  l->set_type(static_cast<co::Label::Type>(o.type));
  if (gt) {
    l->set_detection_difficulty_level(static_cast<co::Label::DifficultyLevel>(o.det_level));
    l->mutable_metadata()->set_speed_x(o.vx);
    l->mutable_metadata()->set_speed_y(o.vy);
  } else {
    r.set_score(o.score);
    r.set_overlap_with_nlz(o.nlz);
  }
  return r;
}
inline co::Config ToConfig(const ref::Cfg& c) {
  co::Config r;
  for (float f : c.cutoffs) r.add_score_cutoffs(f);
  if (c.desired) r.set_num_desired_score_cutoffs(c.desired);
  for (const auto& b : c.breakdowns) {
    r.add_breakdown_generator_ids(static_cast<co::Breakdown::GeneratorId>(b.id));
    auto* d = r.add_difficulties();
    for (int l : b.levels) d->add_levels(static_cast<co::Label::DifficultyLevel>(l));
  }
  r.set_matcher_type(static_cast<co::MatcherProto::Type>(c.matcher));
  for (float f : c.iou_thr) r.add_iou_thresholds(f);
  r.set_box_type(static_cast<co::Label::Box::Type>(c.box_type));
  r.set_desired_recall_delta(c.recall_delta);
  r.set_min_precision(c.min_precision);
  r.set_min_heading_accuracy(c.min_ha);
  if (c.let.on) {
    auto* l = r.mutable_let_metric_config();
    l->set_enabled(true);
    l->mutable_sensor_location()->set_x(c.let.sx);
    l->mutable_sensor_location()->set_y(c.let.sy);
    l->mutable_sensor_location()->set_z(c.let.sz);
    l->set_longitudinal_tolerance_percentage(c.let.pct);
    l->set_min_longitudinal_tolerance_meter(c.let.min_m);
    l->set_align_type(static_cast<co::Config::LongitudinalErrorTolerantConfig::AlignType>(c.let.align));
  }
  return r;
}

// A row of the op's input: frame id and object.
struct RowRef { int64_t frame; const ref::Obj* o; std::string seq; };

inline tensorflow::Tensor Boxes(const std::vector<RowRef>& rows, int dof) {
  std::vector<float> v;
  for (auto& r : rows) {
    const ref::Box& b = r.o->box;
    if (dof == 7) for (double x : {b.x, b.y, b.z, b.l, b.w, b.h, b.yaw}) v.push_back(x);
    else if (dof == 5) for (double x : {b.x, b.y, b.l, b.w, b.yaw}) v.push_back(x);
    else for (double x : {b.x, b.y, b.l, b.w}) v.push_back(x);
  }
  return ops::Make<float>(tensorflow::DT_FLOAT, {(int64_t)rows.size(), dof}, v);
}
template <typename T, typename F>
tensorflow::Tensor Col(tensorflow::DataType dt, const std::vector<RowRef>& rows, F f) {
  std::vector<T> v;
  for (auto& r : rows) v.push_back(f(r));
  return ops::Make<T>(dt, {(int64_t)rows.size()}, v);
}

// Interleaves the rows of different groups while keeping each group's order.
template <typename T>
std::vector<T> Interleave(std::vector<std::vector<T>> groups, sim::Stream s) {
  std::vector<T> out;
  std::vector<size_t> pos(groups.size(), 0);
  bool keep = sim::Draw(s, 3) == 0;  // one group after the other
  std::vector<int> order = sim::Permutation(s, groups.size());
  if (keep) {
    for (int g : order) for (auto& x : groups[g]) out.push_back(x);
    return out;
  }
  for (;;) {
    std::vector<int> live;
    for (int g : order) if (pos[g] < groups[g].size()) live.push_back(g);
    if (live.empty()) return out;
    int g = live[sim::Draw(s, live.size())];
    out.push_back(groups[g][pos[g]++]);
  }
}

inline std::vector<tensorflow::Tensor> DetInputs(const std::vector<RowRef>& pd, const std::vector<RowRef>& gt, int dof) {
  using namespace tensorflow;
  std::vector<Tensor> in;
  in.push_back(Boxes(pd, dof));
  in.push_back(Col<uint8_t>(DT_UINT8, pd, [](const RowRef& r) { return r.o->type; }));
  in.push_back(Col<float>(DT_FLOAT, pd, [](const RowRef& r) { return r.o->score; }));
  in.push_back(Col<int64_t>(DT_INT64, pd, [](const RowRef& r) { return r.frame; }));
  { std::vector<char> v; for (auto& r : pd) v.push_back(r.o->nlz); in.push_back(ops::MakeBool({(int64_t)pd.size()}, v)); }
  in.push_back(Boxes(gt, dof));
  in.push_back(Col<uint8_t>(DT_UINT8, gt, [](const RowRef& r) { return r.o->type; }));
  in.push_back(Col<int64_t>(DT_INT64, gt, [](const RowRef& r) { return r.frame; }));
  in.push_back(Col<uint8_t>(DT_UINT8, gt, [](const RowRef& r) { return r.o->det_level; }));
  { std::vector<float> v; for (auto& r : gt) { v.push_back(r.o->vx); v.push_back(r.o->vy); }
    in.push_back(ops::Make<float>(DT_FLOAT, {(int64_t)gt.size(), 2}, v)); }
  return in;
}
inline std::vector<tensorflow::DataType> DetTypes() {
  using namespace tensorflow;
  return {DT_FLOAT, DT_UINT8, DT_FLOAT, DT_INT64, DT_BOOL, DT_FLOAT, DT_UINT8, DT_INT64, DT_UINT8, DT_FLOAT};
}
inline std::vector<tensorflow::Tensor> DetInputs(const std::vector<ref::Frame>& fs, int dof, sim::Stream s) {
  std::vector<std::vector<RowRef>> p, g;
  for (auto& f : fs) {
    p.emplace_back(); g.emplace_back();
    for (auto& o : f.pds) p.back().push_back({f.id, &o, ""});
    for (auto& o : f.gts) g.back().push_back({f.id, &o, ""});
  }
  return DetInputs(Interleave(p, s), Interleave(g, s), dof);
}
inline int GenDof(const ref::Cfg& c) {
  int min = c.box_type == ref::kBox3D ? 7 : c.box_type == ref::kBox2D ? 5 : 4;
  std::vector<int> ok;
  for (int d : {7, 5, 4}) if (d >= min) ok.push_back(d);
  return ok[sim::W(ok.size())];
}
}  // namespace bridge
#endif
