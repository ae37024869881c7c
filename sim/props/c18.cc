// C18: equal inputs give equal numbers in any process: the same evaluation is
// repeated under other memory layouts, memory contents, schedules and after
// other work, and compared bit by bit.
#include "props/det.h"
#include "props/mo.h"
#include "props/trk.h"
#include "waymo_open_dataset/metrics/segmentation_metrics.h"

namespace {
namespace co = waymo::open_dataset;
using Job = std::function<std::string()>;  // bytes of everything it returns

std::string Bytes(const ops::Result& r) {
  if (!r.ok) return "error " + r.error;
  std::string s;
  for (auto& t : r.out) {
    s += t.shape().DebugString();
    auto d = t.tensor_data();
    s.append(d.data(), d.size());
  }
  return s;
}
Job OpJob(const std::string& op, std::vector<tensorflow::DataType> types, std::string cfg, std::vector<tensorflow::Tensor> in) {
  return [=] {
    ops::Kernel k(op, types, &cfg);
    if (!k.ok()) sim::Violation("kernel-rejected", "%s", k.error().c_str());
    ops::Result r;
    sim::Simulate([&] { r = k.Run(in); });
    if (!r.ok) sim::Violation("valid-input-rejected", "%s", r.error.c_str());
    return Bytes(r);
  };
}
template <typename M>
std::string Text(const std::vector<M>& v) {
  std::string s;
  for (auto& m : v) s += m.ShortDebugString() + "\n";
  return s;
}
// Twins: objects which no rule of the metrics tells apart.
void Twins(ref::Frame* f) {
  auto dup = [&](std::vector<ref::Obj>* v) {
    if (v->empty() || !sim::WP(1, 2)) return;
    int n = 1 + sim::W(2);
    for (int i = 0; i < n; ++i) {
      ref::Obj o = (*v)[sim::W(v->size())];
      if (sim::WP(1, 3)) { o.box.x = ref::F32(o.box.x + 0.25); }
      v->insert(v->begin() + sim::W(v->size() + 1), o);
    }
  };
  dup(&f->pds);
  dup(&f->gts);
}

// how: 0 metrics op, 1 library, 2 state op, 3 state op, then result op.
Job GenDet(uint64_t* h, int how) {
  bool lib = how == 1;
  ref::Cfg c = ref::GenCfg(how == 3, true);
  int n = 1 + sim::W(sim::W(2) ? 5 : 9);
  std::vector<int64_t> ids = ref::GenIds(n);
  std::vector<ref::Frame> fs;
  int dof = bridge::GenDof(c);
  for (int i = 0; i < n; ++i) {
    fs.push_back(ref::GenFrame(ids[i], 3, sim::W(2)));
    Twins(&fs.back());
    for (auto& o : fs.back().pds) bridge::Reduce(dof, &o.box);
    for (auto& o : fs.back().gts) bridge::Reduce(dof, &o.box);
  }
  ref::LogCfg(c);
  ref::LogFrames(fs);
  co::Config pc = bridge::ToConfig(c);
  *h = *h * 31 + (ref::HashFrames(fs) ^ sim::HashStr(pc.SerializeAsString()));
  if (how >= 2) {
    std::string cfg = pc.SerializeAsString();
    std::vector<tensorflow::Tensor> in = bridge::DetInputs(fs, dof, sim::kWork);
    return [=] {
      ops::Kernel k("DetectionMetricsState", bridge::DetTypes(), &cfg);
      if (!k.ok()) sim::Violation("kernel-rejected", "%s", k.error().c_str());
      ops::Kernel q("DetectionMetricsResult", {tensorflow::DT_FLOAT}, &cfg);
      ops::Result r, e;
      sim::Simulate([&] {
        r = k.Run(in);
        if (how == 3 && r.ok) e = q.Run({r.out[0]});
      });
      if (!r.ok || (how == 3 && !e.ok)) sim::Violation("valid-input-rejected", "%s %s", r.error.c_str(), e.error.c_str());
      return Bytes(r) + (how == 3 ? Bytes(e) : "");
    };
  }
  if (!lib) return OpJob("DetectionMetrics", bridge::DetTypes(), pc.SerializeAsString(), bridge::DetInputs(fs, dof, sim::kWork));
  pc.set_include_details_in_measurements(sim::W(2));
  return [=] {
    std::vector<std::vector<co::Object>> p(fs.size()), g(fs.size());
    for (size_t i = 0; i < fs.size(); ++i) {
      int k = 0;
      for (auto& o : fs[i].pds) { p[i].push_back(bridge::ToObject(o, dof, false)); p[i].back().mutable_object()->set_id(sim::StrF("p%d", k++)); }
      for (auto& o : fs[i].gts) { g[i].push_back(bridge::ToObject(o, dof, true)); g[i].back().mutable_object()->set_id(sim::StrF("g%d", k++)); }
    }
    co::Config cc = pc;
    if (cc.score_cutoffs_size() == 0) cc = co::EstimateScoreCutoffs(pc, p, g);
    std::string s = cc.ShortDebugString();
    for (size_t i = 0; i < fs.size(); ++i) s += Text(co::ComputeDetectionMeasurements(cc, p[i], g[i]));
    return s + Text(co::ComputeDetectionMetrics(pc, p, g));
  };
}
Job GenTrk(uint64_t* h, bool lib) {
  ref::Cfg c = ref::GenCfg(false, true);
  std::vector<trk::Seq> ss = trk::GenSeqs(3, 5, false);
  // Twins with identities of their own, on whole stretches of a sequence.
  for (auto& s : ss) {
    int n = sim::W(4);
    for (int k = 0; k < n; ++k) {
      bool gt = sim::W(2);
      for (auto& f : s.frames) {
        auto& v = gt ? f.gts : f.pds;
        if (v.empty() || sim::WP(1, 4)) continue;
        ref::Obj o = v[k % v.size()];
        o.id = (gt ? 90000 : 80000) + k * 17;
        v.push_back(o);
      }
    }
  }
  int dof = bridge::GenDof(c);
  trk::Reduce(&ss, dof);
  ref::LogCfg(c);
  trk::LogSeqs(ss);
  co::Config pc = bridge::ToConfig(c);
  *h = *h * 31 + (trk::HashSeqs(ss) ^ sim::HashStr(pc.SerializeAsString()));
  if (!lib) return OpJob("TrackingMetrics", trk::Types(), pc.SerializeAsString(), trk::Inputs(ss, dof, sim::kWork));
  pc.set_include_details_in_measurements(sim::W(2));
  return [=] {
    std::vector<std::vector<std::vector<co::Object>>> p, g;
    for (auto& s : ss) { p.emplace_back(); g.emplace_back(); trk::ToObjects(s, dof, &p.back(), &g.back()); }
    co::Config cc = pc;
    if (cc.score_cutoffs_size() == 0) cc = co::EstimateScoreCutoffs(pc, p, g);
    std::string s = cc.ShortDebugString();
    for (size_t i = 0; i < p.size(); ++i) s += Text(co::ComputeTrackingMeasurements(cc, p[i], g[i]));
    return s + Text(co::ComputeTrackingMetrics(pc, p, g));
  };
}
Job GenMo(uint64_t* h, bool lib) {
  mo::Cfg c = mo::GenCfg();
  mo::Dims d;
  d.A = 1 + sim::W(4);
  d.M = 1 + sim::W(3);
  d.K = 1 + sim::W(4);
  d.N = 1 + sim::W(2);
  int n = 1 + sim::W(6);
  std::vector<mo::Scen> ss;
  for (int i = 0; i < n; ++i) {
    ss.push_back(mo::GenScen(c, d, sim::StrF("%llx", (unsigned long long)(sim::W(1 << 30) * 7919 + i))));
    if (sim::WP(1, 2))
      for (auto& g : ss.back().groups)
        for (size_t k = 0; k < g.k.size(); ++k) g.k[k].conf = 0.125f * (1 + k % 3);
  }
  mo::LogCfg(c);
  for (auto& s : ss) mo::LogScen(s);
  co::MotionMetricsConfig pc = mo::ToConfig(c);
  *h = *h * 31 + sim::HashStr(pc.SerializeAsString());
  for (auto& s : ss) *h = mo::Hash(s, *h);
  if (!lib) {
    std::vector<const mo::Scen*> batch;
    for (auto& s : ss) batch.push_back(&s);
    return OpJob("MotionMetrics", mo::Types(), pc.SerializeAsString(), mo::Inputs(c, d, batch, sim::kWork));
  }
  bool custom = sim::W(2);
  return [=] {
    absl::flat_hash_map<std::string, co::ScenarioPredictions> pm;
    absl::flat_hash_map<std::string, co::Scenario> sm;
    for (auto& s : ss) { pm[s.id] = mo::ToPredictions(s); sm[s.id] = mo::ToScenario(s); }
    co::CustomMetricsFn fn;
    if (custom)
      fn = [](const co::MotionMetricsConfig&, const absl::flat_hash_map<int, const co::Track*>&, const co::Scenario& s, int step,
              const co::MultimodalPrediction& p, co::MetricsStats& st) {
        st.custom_metrics["a"].Add(((int)(sim::HashStr(s.scenario_id()) % 3) - 1) * 1e17 + step);
        st.custom_metrics["b"].Add(0.1 * p.joint_predictions_size());
        return co::OkStatus();
      };
    co::MotionMetrics m;
    co::Status st = co::ComputeMotionMetrics(pc, pm, sm, &m, fn);
    if (!st.ok()) sim::Violation("valid-input-rejected", "%s", std::string(st.message()).c_str());
    std::string out;
    for (auto& b : m.metrics_bundles()) {
      out += b.ShortDebugString() + "\n";
      auto bits = [&](float v) { out.append(reinterpret_cast<const char*>(&v), 4); };
      bits(b.min_ade()); bits(b.min_fde()); bits(b.miss_rate()); bits(b.overlap_rate()); bits(b.mean_average_precision());
    }
    return out;
  };
}
Job GenSeg(uint64_t* h) {
  int n = 2 + sim::W(6);
  std::vector<int> types;
  for (int i = 0; i < n; ++i) types.push_back(1 + i);
  std::vector<std::pair<int, int>> pts;
  int m = sim::W(60);
  for (int i = 0; i < m; ++i) pts.push_back({(int)sim::W(n + 2), (int)sim::W(n + 2)});
  for (auto& p : pts) *h = *h * 31 + p.first * 40 + p.second;
  return [=] {
    co::SegmentationMetricsConfig cfg;
    for (int t : types) cfg.add_segmentation_types(static_cast<co::Segmentation::Type>(t));
    co::SegmentationMetricsIOU acc(cfg);
    std::vector<co::Segmentation::Type> p, g;
    for (auto& x : pts) { p.push_back(static_cast<co::Segmentation::Type>(x.first)); g.push_back(static_cast<co::Segmentation::Type>(x.second)); }
    if (!acc.Update(p, g).ok()) sim::Violation("valid-input-rejected", "segmentation");
    co::SegmentationMetrics r = acc.ComputeIOU();
    co::SegmentationMetrics q = acc.MergeResults({r.segmentation_measurements(), r.segmentation_measurements()});
    return r.ShortDebugString() + q.ShortDebugString();
  };
}
Job Gen(int kind, uint64_t* h) {
  *h += kind;
  switch (kind) {
    case 0: {
      int how = (int[]){0, 2, 3}[sim::W(3)];
      sim::Probe(how ? how == 2 ? "detection state op" : "detection state and result ops" : "detection op");
      return GenDet(h, how);
    }
    case 1: sim::Probe("tracking op"); return GenTrk(h, false);
    case 2: sim::Probe("motion op"); return GenMo(h, false);
    case 3: sim::Probe("detection library"); return GenDet(h, 1);
    case 4: sim::Probe("tracking library"); return GenTrk(h, true);
    case 5: sim::Probe("motion library"); return GenMo(h, true);
    default: sim::Probe("segmentation"); return GenSeg(h);
  }
}
const char* kName[] = {"detection-op", "tracking-op", "motion-op", "detection-library", "tracking-library", "motion-library", "segmentation"};

void Run() {
  uint64_t h = 5;
  int kind = std::min<int>(sim::W(13) / 2, 6);
  Job job = Gen(kind, &h);
  Job other;
  int okind = -1;
  if (sim::WP(1, 2)) {
    okind = std::min<int>(sim::W(13) / 2, 6);
    other = Gen(okind, &h);
  }
  sim::NoteWorkload(h);
  std::string first = job();
  int n = 2 + sim::F(2);
  for (int i = 0; i < n; ++i) {
    sim::NewProcessMemory();
    if (other && sim::F(2)) { other(); sim::Fault("other work done before in the process"); }
    std::string again = job();
    if (again != first) {
      size_t k = 0;
      while (k < again.size() && k < first.size() && again[k] == first[k]) ++k;
      size_t a = k > 60 ? k - 60 : 0;
      std::string x = first.substr(a, 160), y = again.substr(a, 160);
      for (auto* s : {&x, &y}) for (char& ch : *s) if (ch < 32 || ch > 126) ch = '.';
      sim::Violation(sim::StrF("not-reproducible-%s", kName[kind]).c_str(), "results differ at byte %zu of %zu:\n  %s\n  %s", k, first.size(),
                     x.c_str(), y.c_str());
    }
  }
  sim::Nontrivial();
}
void Warm() { det::Warm(); trk::Warm(); mo::Warm(); }
sim::Register reg("C18", Run, Warm);
}  // namespace
