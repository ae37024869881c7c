// Oracles for detection results.
#ifndef WODSIM_DET_H_
#define WODSIM_DET_H_
#include "props/bridge.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"

namespace det {
namespace co = waymo::open_dataset;

// Each frame alone, on this thread, through the library.
inline ref::DetTable SerialTable(const ref::Cfg& c, const std::vector<float>& cutoffs,
                                 const ref::Frame& f, int dof) {
  ref::Cfg cc = c;
  cc.cutoffs = cutoffs;
  cc.desired = 0;
  std::vector<co::Object> p, g;
  for (auto& o : f.pds) p.push_back(bridge::ToObject(o, dof, false));
  for (auto& o : f.gts) g.push_back(bridge::ToObject(o, dof, true));
  auto ms = co::ComputeDetectionMeasurements(bridge::ToConfig(cc), p, g);
  std::vector<ref::Row> rows = ref::Rows(cc);
  if (ms.size() != rows.size())
    sim::Violation("wrong-breakdown-count", "library returned %zu breakdowns, expected %zu", ms.size(), rows.size());
  ref::DetTable t(rows.size(), std::vector<ref::DetCount>(cutoffs.size()));
  for (size_t i = 0; i < rows.size(); ++i) {
    if (ms[i].breakdown().generator_id() != rows[i].id || ms[i].breakdown().shard() != rows[i].shard ||
        ms[i].breakdown().difficulty_level() != rows[i].level)
      sim::Violation("wrong-breakdown", "breakdown %zu of a frame is (%d,%d,%d), expected (%d,%d,%d)", i,
                     ms[i].breakdown().generator_id(), ms[i].breakdown().shard(),
                     ms[i].breakdown().difficulty_level(), rows[i].id, rows[i].shard, rows[i].level);
    if (ms[i].measurements_size() != (int)cutoffs.size())
      sim::Violation("wrong-cutoff-count", "%d measurements, %zu cutoffs", ms[i].measurements_size(), cutoffs.size());
    for (size_t k = 0; k < cutoffs.size(); ++k) {
      auto& m = ms[i].measurements(k);
      t[i][k] = {m.num_tps(), m.num_fps(), m.num_fns(), m.sum_ha(), m.sum_longitudinal_affinity()};
    }
  }
  return t;
}

// The independent model; false when rounding could decide some comparison.
inline bool ModelTable(const ref::Cfg& c, const std::vector<float>& cutoffs,
                       const std::vector<ref::Frame>& fs, ref::DetTable* out) {
  *out = ref::DetTable(ref::Rows(c).size(), std::vector<ref::DetCount>(cutoffs.size()));
  try {
    for (ref::Frame f : fs) {
      ref::LendSpeed(c, &f.pds, f.gts);
      ref::AddTable(out, ref::CountFrame(c, cutoffs, f.pds, f.gts));
    }
  } catch (ref::Ambiguous&) {
    sim::Probe("model: ambiguous, skipped");
    return false;
  }
  sim::Probe("model: compared");
  return true;
}
inline ref::DetTable SerialAll(const ref::Cfg& c, const std::vector<float>& cutoffs,
                               const std::vector<ref::Frame>& fs, int dof) {
  ref::DetTable t(ref::Rows(c).size(), std::vector<ref::DetCount>(cutoffs.size()));
  for (auto& f : fs) ref::AddTable(&t, SerialTable(c, cutoffs, f, dof));
  return t;
}
inline std::vector<float> Cutoffs(const ref::Cfg& c, const std::vector<ref::Frame>& fs) {
  if (!c.cutoffs.empty()) return c.cutoffs;
  std::vector<float> s;
  for (auto& f : fs) for (auto& o : f.pds) s.push_back(o.score);
  return ref::EstimateCutoffs(s, c.desired);
}
// True when some score is so close to a cutoff that float rounding decides.
inline bool NearCutoff(const std::vector<float>& cut, const std::vector<ref::Frame>& fs) {
  for (auto& f : fs) for (auto& o : f.pds) for (float x : cut)
    if (o.score != x && fabs(o.score - x) < 1e-6) return true;
  return false;
}

// Compares the seven outputs of the DetectionMetrics / DetectionMetricsResult
// ops with a table of summed counts. `what` names the oracle.
inline void CompareOutputs(const ref::Cfg& c, const std::vector<float>& cutoffs, const ref::DetTable& t,
                           const ops::Result& r, const char* what) {
  std::vector<ref::Row> rows = ref::Rows(c);
  const int64_t B = rows.size(), S = cutoffs.size();
  auto shape = [&](int i, std::vector<int64_t> want) {
    auto got = r.out[i].shape().dim_sizes();
    if (std::vector<int64_t>(got.begin(), got.end()) != want)
      sim::Violation("wrong-shape", "output %d has shape %s", i, r.out[i].shape().DebugString().c_str());
  };
  if (r.out.size() != 7) sim::Violation("wrong-shape", "%zu outputs", r.out.size());
  for (int i : {0, 1, 2}) shape(i, {B});
  shape(3, {B, S, 5});
  shape(4, {B, S, 2});
  shape(5, {B, S, 2});
  shape(6, {B, 3});
  auto pr = r.out[3].tensor<float, 3>();
  auto ph = r.out[4].tensor<float, 3>();
  auto pl = r.out[5].tensor<float, 3>();
  auto bd = r.out[6].matrix<uint8_t>();
  for (int i = 0; i < B; ++i) {
    if (bd(i, 0) != rows[i].id || bd(i, 1) != rows[i].shard || bd(i, 2) != rows[i].level)
      sim::Violation("wrong-breakdown", "row %d is breakdown (%d,%d,%d), expected (%d,%d,%d)", i, bd(i, 0),
                     bd(i, 1), bd(i, 2), rows[i].id, rows[i].shard, rows[i].level);
    for (int k = 0; k < S; ++k) {
      const ref::DetCount& m = t[i][k];
      if (pr(i, k, 2) != m.tp || pr(i, k, 3) != m.fp || pr(i, k, 4) != m.fn)
        sim::Violation(sim::StrF("counts-vs-%s", what).c_str(),
                       "breakdown (%d,%d,%d) cutoff %.6f: op has tp %.0f fp %.0f fn %.0f, %s has tp %d fp %d fn %d",
                       rows[i].id, rows[i].shard, rows[i].level, cutoffs[k], pr(i, k, 2), pr(i, k, 3),
                       pr(i, k, 4), what, m.tp, m.fp, m.fn);
    }
    ref::DetResult d;
    try {
      d = ref::Finish(c, t[i]);
    } catch (ref::Ambiguous&) {
      sim::Probe("precision at the configured minimum, curve not compared");
      continue;
    }
    auto near = [&](const char* name, double a, double b, int k) {
      if (!(ref::Near(a, b)))
        sim::Violation(sim::StrF("%s-vs-%s", name, what).c_str(),
                       "breakdown (%d,%d,%d) cutoff #%d: %s is %.7g, expected %.7g", rows[i].id, rows[i].shard,
                       rows[i].level, k, name, a, b);
    };
    for (int k = 0; k < S; ++k) {
      near("precision", pr(i, k, 0), d.p[k], k);
      near("recall", pr(i, k, 1), d.r[k], k);
      near("precision-ha", ph(i, k, 0), d.p_ha[k], k);
      near("recall-ha", ph(i, k, 1), d.r[k], k);
      if (c.let.on) {
        near("precision-la", pl(i, k, 0), d.p_la[k], k);
        near("recall-la", pl(i, k, 1), d.r[k], k);
      }
    }
    near("ap", r.out[0].vec<float>()(i), d.ap, -1);
    near("ap-ha", r.out[1].vec<float>()(i), d.ap_ha, -1);
    if (c.let.on) near("ap-la", r.out[2].vec<float>()(i), d.ap_la, -1);
  }
}
inline void CheckOp(const ref::Cfg& c, std::vector<ref::Frame> fs, int dof, const ops::Result& r) {
  std::sort(fs.begin(), fs.end(), [](const ref::Frame& a, const ref::Frame& b) { return a.id < b.id; });
  std::vector<float> cut = Cutoffs(c, fs);
  if (c.cutoffs.empty() && NearCutoff(cut, fs)) sim::Skip("score at an estimated cutoff");
  CompareOutputs(c, cut, SerialAll(c, cut, fs, dof), r, "serial");
  ref::DetTable m;
  if (ModelTable(c, cut, fs, &m)) CompareOutputs(c, cut, m, r, "model");
}
inline void Warm() {
  // Touch lazily initialised state of the libraries once, before any fork.
  ref::Cfg c;
  c.breakdowns = {{ref::kOneShard, {2}}};
  c.cutoffs = {0.f};
  std::string cfg = bridge::ToConfig(c).SerializeAsString();
  ops::Kernel k("DetectionMetrics", bridge::DetTypes(), &cfg);
  ref::Frame f;
  f.gts.resize(1);
  f.pds.resize(1);
  k.Run(bridge::DetInputs({f}, 7, sim::kSched));
}
}  // namespace det
#endif
