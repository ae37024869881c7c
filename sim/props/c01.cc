// C01: the detection op under any schedule and row order.
#include "props/bridge.h"
#include "props/det.h"

namespace {
void Run() {
  std::vector<ref::Frame> fs;
  int n = sim::W(7);
  std::vector<int64_t> ids = ref::GenIds(n);
  ref::Cfg c = ref::GenCfg(false, true);
  for (int i = 0; i < n; ++i) fs.push_back(ref::GenFrame(ids[i], 3, true));
  int dof = bridge::GenDof(c);
  for (auto& f : fs) {
    for (auto& o : f.pds) bridge::Reduce(dof, &o.box);
    for (auto& o : f.gts) bridge::Reduce(dof, &o.box);
  }
  ref::LogCfg(c);
  ref::LogFrames(fs);
  std::string cfg = bridge::ToConfig(c).SerializeAsString();
  sim::NoteWorkload(sim::HashStr(cfg) ^ ref::HashFrames(fs));
  ops::Kernel k("DetectionMetrics", bridge::DetTypes(), &cfg);
  if (!k.ok()) sim::Violation("kernel-rejected", "%s", k.error().c_str());

  std::vector<tensorflow::Tensor> in = bridge::DetInputs(fs, dof, sim::kSched);
  ops::Result r;
  sim::Simulate([&] { r = k.Run(in); });
  if (!r.ok) sim::Violation("valid-input-rejected", "%s", r.error.c_str());
  int busy = 0;
  for (auto& f : fs) busy += !f.pds.empty() && !f.gts.empty();
  if (busy >= 2) sim::Nontrivial();
  det::CheckOp(c, fs, dof, r);
}
sim::Register reg("C01", Run, det::Warm);
}  // namespace
