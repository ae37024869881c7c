// C03: the tracking op under any schedule and row order.
#include "props/trk.h"

namespace {
void Run() {
  ref::Cfg c = ref::GenCfg(false, true);
  std::vector<trk::Seq> ss = trk::GenSeqs(4, 4, true);
  int dof = bridge::GenDof(c);
  trk::Reduce(&ss, dof);
  ref::LogCfg(c);
  trk::LogSeqs(ss);
  std::string cfg = bridge::ToConfig(c).SerializeAsString();
  sim::NoteWorkload(sim::HashStr(cfg) ^ trk::HashSeqs(ss));
  ops::Kernel k("TrackingMetrics", trk::Types(), &cfg);
  if (!k.ok()) sim::Violation("kernel-rejected", "%s", k.error().c_str());
  std::vector<tensorflow::Tensor> in = trk::Inputs(ss, dof, sim::kSched);
  ops::Result r;
  sim::Simulate([&] { r = k.Run(in); });
  if (!r.ok) sim::Violation("valid-input-rejected", "%s", r.error.c_str());

  // What the op sees of the workload: frames and sequences that have a row.
  std::vector<trk::Seq> vis;
  for (auto& s : ss) {
    trk::Seq v;
    v.id = s.id;
    for (auto& f : s.frames) if (!f.pds.empty() || !f.gts.empty()) v.frames.push_back(f);
    if (!v.frames.empty()) vis.push_back(v);
  }
  std::sort(vis.begin(), vis.end(), [](const trk::Seq& a, const trk::Seq& b) { return a.id < b.id; });
  int busy = 0;
  for (auto& s : vis) {
    int n = 0;
    for (auto& f : s.frames) n += !f.pds.empty() && !f.gts.empty();
    busy += n >= 2;
  }
  if (busy >= 2) sim::Nontrivial();
  std::vector<float> cut = trk::Cutoffs(c, vis);
  if (c.cutoffs.empty() && trk::NearCutoff(cut, vis)) sim::Skip("score at an estimated cutoff");
  trk::Table t;
  for (auto& s : vis) trk::AddTable(&t, trk::SerialSeq(c, cut, s, dof));
  trk::CompareOutputs(c, cut, t, r, "serial");
  trk::Table m;
  if (trk::Model(c, cut, vis, &m)) trk::CompareOutputs(c, cut, m, r, "model");
}
sim::Register reg("C03", Run, trk::Warm);
}  // namespace
