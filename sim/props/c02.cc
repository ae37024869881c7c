// C02: detection evaluation as a job over shards: workers evaluate shards
// concurrently, deliveries are lost, duplicated and delayed, the coordinator
// crashes and restarts from what it stored; the finalised metrics must be those
// of one pass.
#include <deque>
#include <set>

#include "props/bridge.h"
#include "props/det.h"

namespace {
namespace co = waymo::open_dataset;
using tensorflow::Tensor;
using Ms = std::vector<co::DetectionMeasurements>;

// What a shard evaluation yields: the state tensor, and the measurement protos
// in wire format.
struct Part {
  Tensor state;
  std::vector<std::string> wire;
};
std::vector<std::string> ToWire(const Ms& m) {
  std::vector<std::string> w;
  for (auto& x : m) w.push_back(x.SerializeAsString());
  return w;
}
Ms FromWire(const std::vector<std::string>& w) {
  Ms m(w.size());
  for (size_t i = 0; i < w.size(); ++i)
    if (!m[i].ParseFromString(w[i])) sim::HarnessError("wire");
  return m;
}
Tensor AddStates(const Tensor& a, const Tensor& b) {
  if (a.shape().dim_sizes() != b.shape().dim_sizes())
    sim::Violation("state-shape-differs", "shards returned states of shape %s and %s",
                   a.shape().DebugString().c_str(), b.shape().DebugString().c_str());
  Tensor r(tensorflow::DT_FLOAT, a.shape());
  auto x = a.flat<float>(), y = b.flat<float>();
  auto z = r.flat<float>();
  for (int i = 0; i < z.size(); ++i) z(i) = x(i) + y(i);
  return r;
}
struct Message { int shard, due; Part part; };

void Run() {
  std::vector<ref::Frame> fs;
  int n = 1 + sim::W(8);
  std::vector<int64_t> ids = ref::GenIds(n);
  ref::Cfg c = ref::GenCfg(true, true);
  for (int i = 0; i < n; ++i) fs.push_back(ref::GenFrame(ids[i], 2, true));
  int dof = bridge::GenDof(c);
  for (auto& f : fs) {
    for (auto& o : f.pds) bridge::Reduce(dof, &o.box);
    for (auto& o : f.gts) bridge::Reduce(dof, &o.box);
  }
  int num_shards = 1 + sim::W(5), num_workers = 1 + sim::W(3);
  std::vector<std::vector<ref::Frame>> shards(num_shards);
  std::vector<int> where;
  for (auto& f : fs) { where.push_back(sim::W(num_shards)); shards[where.back()].push_back(f); }
  ref::LogCfg(c);
  ref::LogFrames(fs);
  bool details = sim::WP(1, 3);
  co::Config pc = bridge::ToConfig(c);
  pc.set_include_details_in_measurements(details);
  std::string cfg = pc.SerializeAsString();
  sim::NoteWorkload(sim::HashBytes(where.data(), where.size() * sizeof(int), sim::HashStr(cfg)) ^ ref::HashFrames(fs));
  ops::Kernel state_k("DetectionMetricsState", bridge::DetTypes(), &cfg);
  ops::Kernel result_k("DetectionMetricsResult", {tensorflow::DT_FLOAT}, &cfg);
  ops::Kernel full_k("DetectionMetrics", bridge::DetTypes(), &cfg);
  if (!state_k.ok() || !result_k.ok() || !full_k.ok()) sim::Violation("kernel-rejected", "%s", state_k.error().c_str());

  auto evaluate = [&](int s) {
    Part p;
    std::vector<ref::Frame> part = shards[s];
    ops::Result r = state_k.Run(bridge::DetInputs(part, dof, sim::kSched));
    if (!r.ok) sim::Violation("valid-input-rejected", "%s", r.error.c_str());
    p.state = r.out[0];
    // The same shard through the library: one measurement list per frame,
    // merged in a drawn grouping.
    std::vector<Ms> per;
    for (auto& f : part) {
      std::vector<co::Object> pd, gt;
      for (auto& o : f.pds) pd.push_back(bridge::ToObject(o, dof, false));
      for (auto& o : f.gts) gt.push_back(bridge::ToObject(o, dof, true));
      per.push_back(co::ComputeDetectionMeasurements(pc, pd, gt));
    }
    p.wire = ToWire(co::MergeDetectionMeasurements(pc, per));
    return p;
  };

  std::deque<int> todo;
  std::vector<Message> net;
  int tick = 0, crashes = 0, lost = 0;
  bool done = false;
  // Durable: which shards are folded into the stored partial results.
  struct Stored { std::set<int> have; std::vector<Part> parts; } disk, mem;
  auto merge = [&](const Part& a, const Part& b) {
    Part p;
    p.state = AddStates(a.state, b.state);
    if (a.wire.empty()) p.wire = b.wire;
    else if (b.wire.empty()) p.wire = a.wire;
    else p.wire = ToWire(co::MergeDetectionMeasurements(pc, {FromWire(a.wire), FromWire(b.wire)}));
    return p;
  };
  ops::Result out, full;
  Part total;
  sim::Simulate([&] {
    for (int s : sim::Permutation(sim::kSched, num_shards)) todo.push_back(s);
    std::vector<int> workers;
    for (int w = 0; w < num_workers; ++w)
      workers.push_back(sim::Spawn([&, w] {
        while (!done) {
          if (todo.empty()) { sim::YieldPoint(); continue; }
          int s = todo.front();
          todo.pop_front();
          Part p = evaluate(s);
          if (lost < 6 && sim::FP(1, 8)) {
            sim::Fault("worker crashed after evaluating, result lost");
            ++lost;
            continue;
          }
          int copies = 1;
          if (sim::FP(1, 6)) { sim::Fault("result delivered twice"); copies = 2; }
          for (int k = 0; k < copies; ++k) {
            int delay = sim::F(4) * 5;
            if (delay) sim::Fault("result delayed");
            net.push_back({s, tick + delay, p});
          }
          sim::YieldPoint();
        }
      }));
    int idle = 0;
    while ((int)mem.have.size() < num_shards) {
      ++tick;
      std::vector<size_t> due;
      for (size_t i = 0; i < net.size(); ++i) if (net[i].due <= tick) due.push_back(i);
      if (due.empty()) {
        // Nothing arrives: after a while ask again for what is missing.
        if (++idle > 30 && todo.empty()) {
          idle = 0;
          for (int s = 0; s < num_shards; ++s)
            if (!mem.have.count(s)) todo.push_back(s), sim::Probe("shard requested again");
        }
        sim::YieldPoint();
        continue;
      }
      idle = 0;
      size_t k = due[sim::F(due.size())];
      Message m = net[k];
      net.erase(net.begin() + k);
      if (mem.have.count(m.shard)) { sim::Probe("second result of a shard ignored"); continue; }
      mem.have.insert(m.shard);
      mem.parts.push_back(m.part);
      // Fold two partial results together, in any grouping.
      while (mem.parts.size() >= 2 && sim::FP(1, 2)) {
        size_t a = sim::F(mem.parts.size()), b = sim::F(mem.parts.size());
        if (a == b) break;
        Part j = merge(mem.parts[a], mem.parts[b]);
        mem.parts.erase(mem.parts.begin() + std::max(a, b));
        mem.parts.erase(mem.parts.begin() + std::min(a, b));
        mem.parts.push_back(j);
        sim::Probe("partial results merged");
      }
      if (sim::FP(1, 2)) disk = mem;
      if (crashes < 3 && sim::FP(1, 8)) {
        sim::Fault("coordinator crashed and restarted from stored partial results");
        ++crashes;
        mem = disk;
        for (int s = 0; s < num_shards; ++s) if (!mem.have.count(s)) todo.push_back(s);
      }
    }
    done = true;
    sim::JoinAll(workers);
    while (mem.parts.size() > 1) {
      Part j = merge(mem.parts[mem.parts.size() - 2], mem.parts.back());
      mem.parts.resize(mem.parts.size() - 2);
      mem.parts.push_back(j);
    }
    total = mem.parts[0];
    out = result_k.Run({total.state});
    full = full_k.Run(bridge::DetInputs(fs, dof, sim::kSched));
  });
  if (!out.ok || !full.ok) sim::Violation("valid-input-rejected", "%s%s", out.error.c_str(), full.error.c_str());
  int busy = 0, used = 0;
  for (auto& s : shards) {
    int b = 0;
    for (auto& f : s) b += !f.pds.empty() && !f.gts.empty();
    busy += b > 0;
    used += b;
  }
  if (busy >= 2) sim::Nontrivial();

  det::CheckOp(c, fs, dof, out);
  det::CheckOp(c, fs, dof, full);
  // The library path: finalise the merged measurements.
  Ms lib = FromWire(total.wire);
  if (fs.empty()) return;
  std::vector<ref::Row> rows = ref::Rows(c);
  ref::DetTable want = det::SerialAll(c, c.cutoffs, fs, dof);
  if (lib.size() != rows.size()) sim::Violation("wrong-breakdown-count", "%zu merged breakdowns", lib.size());
  std::vector<co::DetectionMetrics> fin = co::ComputeDetectionMetrics(pc, std::vector<Ms>{lib});
  for (size_t i = 0; i < rows.size(); ++i) {
    if (lib[i].breakdown().generator_id() != rows[i].id || lib[i].breakdown().shard() != rows[i].shard ||
        lib[i].breakdown().difficulty_level() != rows[i].level || fin[i].breakdown().shard() != rows[i].shard)
      sim::Violation("wrong-breakdown", "merged breakdown %zu", i);
    if (lib[i].measurements_size() != (int)c.cutoffs.size())
      sim::Violation("wrong-cutoff-count", "%d merged measurements", lib[i].measurements_size());
    for (size_t k = 0; k < c.cutoffs.size(); ++k) {
      auto& m = lib[i].measurements(k);
      auto& w = want[i][k];
      if (m.num_tps() != w.tp || m.num_fps() != w.fp || m.num_fns() != w.fn || m.score_cutoff() != c.cutoffs[k] ||
          !ref::Near(m.sum_ha(), w.ha) || !ref::Near(m.sum_longitudinal_affinity(), w.la))
        sim::Violation("merged-counts", "breakdown (%d,%d,%d) cutoff %.4f: merged tp %d fp %d fn %d ha %.5f la %.5f, expected %d %d %d %.5f %.5f",
                       rows[i].id, rows[i].shard, rows[i].level, c.cutoffs[k], m.num_tps(), m.num_fps(), m.num_fns(),
                       m.sum_ha(), m.sum_longitudinal_affinity(), w.tp, w.fp, w.fn, w.ha, w.la);
      if (details) {
        int tp = 0, fp = 0, fn = 0;
        for (auto& d : m.details()) tp += d.tp_gt_ids_size(), fp += d.fp_ids_size(), fn += d.fn_ids_size();
        if (m.details_size() != (int)fs.size())
          sim::Violation("details-lost", "%d frame details after merging %zu frames", m.details_size(), fs.size());
        if (tp != w.tp || fp != w.fp || fn != w.fn)
          sim::Violation("details-counts", "details list tp %d fp %d fn %d, counts are %d %d %d", tp, fp, fn, w.tp, w.fp, w.fn);
      }
    }
    try {
      ref::DetResult d = ref::Finish(c, want[i]);
      if (!ref::Near(fin[i].mean_average_precision(), d.ap) ||
          !ref::Near(fin[i].mean_average_precision_ha_weighted(), d.ap_ha))
        sim::Violation("merged-ap", "breakdown %zu: ap %.6f ap_ha %.6f, expected %.6f %.6f", i,
                       fin[i].mean_average_precision(), fin[i].mean_average_precision_ha_weighted(), d.ap, d.ap_ha);
    } catch (ref::Ambiguous&) {
    }
  }
}
sim::Register reg("C02", Run, det::Warm);
}  // namespace
