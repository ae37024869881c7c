// C09: one kernel, several callers at the same time, some of whose calls fail,
// against each call made alone on a kernel of its own.
#include <map>

#include "props/cam.h"
#include "props/det.h"
#include "props/mo.h"
#include "props/trk.h"

namespace {
namespace co = waymo::open_dataset;
using tensorflow::DataType;
using tensorflow::Tensor;
using Ins = std::vector<Tensor>;

struct Node {  // one op with its attributes and the calls made on it
  std::string op;
  std::vector<DataType> types;
  std::function<void(tensorflow::NodeDef*)> attrs;
  std::vector<Ins> calls;
  std::vector<Ins> bad;      // calls that are to be rejected
  bool can_run_out = false;  // outputs come from the device allocator
  std::vector<ops::Result> want;
};
std::function<void(tensorflow::NodeDef*)> Conf(std::string cfg) {
  return [cfg](tensorflow::NodeDef* d) { (*d->mutable_attr())["config"].set_s(cfg); };
}
std::vector<ref::Frame> GenFrames(int max, int dof) {
  int n = sim::W(max + 1);
  std::vector<int64_t> ids = ref::GenIds(n);
  std::vector<ref::Frame> fs;
  for (int i = 0; i < n; ++i) {
    fs.push_back(ref::GenFrame(ids[i], 3, sim::W(2)));
    for (auto& o : fs.back().pds) bridge::Reduce(dof, &o.box);
    for (auto& o : fs.back().gts) bridge::Reduce(dof, &o.box);
  }
  return fs;
}
Node GenDet(int n, bool state) {
  ref::Cfg c = ref::GenCfg(state, true);
  co::Config pc = bridge::ToConfig(c);
  Node k{state ? "DetectionMetricsState" : "DetectionMetrics", bridge::DetTypes(), Conf(pc.SerializeAsString())};
  ref::LogCfg(c);
  int dof = bridge::GenDof(c);
  for (int i = 0; i < n; ++i) {
    std::vector<ref::Frame> fs = GenFrames(4, dof);
    ref::LogFrames(fs);
    k.calls.push_back(bridge::DetInputs(fs, dof, sim::kWork));
  }
  return k;
}
Node GenResult(int n) {
  ref::Cfg c = ref::GenCfg(true, true);
  co::Config pc = bridge::ToConfig(c);
  Node k{"DetectionMetricsResult", {tensorflow::DT_FLOAT}, Conf(pc.SerializeAsString())};
  ref::LogCfg(c);
  int64_t B = ref::Rows(c).size(), S = c.cutoffs.size();
  auto state = [&](std::vector<int64_t> shape) {
    int64_t m = 1;
    for (int64_t x : shape) m *= x;
    std::vector<float> v;
    for (int64_t i = 0; i < m; ++i) v.push_back(sim::W(40));
    return ops::Make<float>(tensorflow::DT_FLOAT, shape, v);
  };
  for (int i = 0; i < n; ++i) k.calls.push_back({state({B, S, 5})});
  k.bad.push_back({state({B - 1, S, 5})});
  k.bad.push_back({state({B, S - 1, 5})});
  k.bad.push_back({state({B, S, 4})});
  k.bad.push_back({state({B * S, 5})});
  return k;
}
Node GenTrk(int n) {
  ref::Cfg c = ref::GenCfg(false, true);
  Node k{"TrackingMetrics", trk::Types(), Conf(bridge::ToConfig(c).SerializeAsString())};
  ref::LogCfg(c);
  int dof = bridge::GenDof(c);
  for (int i = 0; i < n; ++i) {
    std::vector<trk::Seq> ss = trk::GenSeqs(3, 4, sim::W(2));
    trk::Reduce(&ss, dof);
    trk::LogSeqs(ss);
    k.calls.push_back(trk::Inputs(ss, dof, sim::kWork));
  }
  return k;
}
Node GenMo(int n) {
  mo::Cfg c = mo::GenCfg();
  Node k{"MotionMetrics", mo::Types(), Conf(mo::ToConfig(c).SerializeAsString())};
  mo::LogCfg(c);
  for (int i = 0; i < n; ++i) {
    mo::Dims d;
    d.A = 1 + sim::W(4);
    d.M = 1 + sim::W(3);
    d.K = 1 + sim::W(4);
    d.N = 1 + sim::W(2);
    int B = 1 + sim::W(3);
    std::vector<mo::Scen> ss;
    for (int b = 0; b < B; ++b) ss.push_back(mo::GenScen(c, d, sim::StrF("s%d", b)));
    std::vector<const mo::Scen*> batch;
    for (auto& s : ss) { batch.push_back(&s); mo::LogScen(s); }
    k.calls.push_back(mo::Inputs(c, d, batch, sim::kWork));
  }
  return k;
}
Node GenMatch(int n) {
  ref::Cfg c = ref::GenCfg(true, true);
  Node k{"Match", {tensorflow::DT_FLOAT, tensorflow::DT_FLOAT}, Conf(bridge::ToConfig(c).SerializeAsString())};
  ref::LogCfg(c);
  k.can_run_out = true;
  int dof = c.box_type == ref::kBox3D ? 7 : c.box_type == ref::kBox2D ? (sim::W(2) ? 7 : 5) : 4;
  auto boxes = [&](const std::vector<std::vector<ref::Obj>>& batch, int np, int dof) {
    std::vector<float> v;
    for (auto& b : batch)
      for (int i = 0; i < np; ++i) {
        ref::Box x = i < (int)b.size() ? b[i].box : ref::Box{0, 0, 0, 0, 0, 0, 0};
        if (dof == 7) for (double y : {x.x, x.y, ref::F32(x.z - x.h / 2), x.l, x.w, x.h, x.yaw}) v.push_back(y);
        else if (dof == 5) for (double y : {x.x, x.y, x.l, x.w, x.yaw}) v.push_back(y);
        else for (double y : {x.x, x.y, x.l, x.w}) v.push_back(y);
      }
    return ops::Make<float>(tensorflow::DT_FLOAT, {(int64_t)batch.size(), np, dof}, v);
  };
  for (int i = 0; i < n; ++i) {
    int B = 1 + sim::W(3), np = 0, ng = 0;
    std::vector<std::vector<ref::Obj>> p, g;
    for (int b = 0; b < B; ++b) {
      ref::Frame f = ref::GenFrame(b, 3, true);
      ref::LogFrames({f});
      np = std::max<int>(np, f.pds.size());
      ng = std::max<int>(ng, f.gts.size());
      p.push_back(f.pds);
      g.push_back(f.gts);
    }
    k.calls.push_back({boxes(p, np, dof), boxes(g, ng, dof)});
    k.bad.push_back({boxes(p, np, dof), boxes(g, ng, dof == 7 ? 4 : 7)});
    g.push_back({});
    k.bad.push_back({boxes(p, np, dof), boxes(g, ng, dof)});
    k.bad.push_back({ops::Make<float>(tensorflow::DT_FLOAT, {4}, {1, 2, 3, 4}), boxes(g, ng, dof)});
  }
  return k;
}
Node GenCam(int n, int which) {
  using namespace cam;
  bool dbl = sim::W(2), depth = sim::W(2);
  DataType t = dbl ? tensorflow::DT_DOUBLE : tensorflow::DT_FLOAT;
  const char* name[] = {"WorldToImage", "WorldToImageMovingPoint", "ImageToWorld"};
  Node k{name[which], {t, t, tensorflow::DT_INT32, t, t}, [=](tensorflow::NodeDef* d) {
           (*d->mutable_attr())["T"].set_type(t);
           if (which < 2) (*d->mutable_attr())["return_depth"].set_b(depth);
         }};
  if (which == 1) k.types.push_back(t);
  auto td = [&](const std::vector<int64_t>& s, const std::vector<double>& v) {
    if (dbl) return ops::Make<double>(t, s, v);
    return ops::Make<float>(t, s, std::vector<float>(v.begin(), v.end()));
  };
  for (int i = 0; i < n; ++i) {
    Calib c = GenCalib();
    Image m = GenImage();
    m.trigger = sim::WU(0, 5);  // small enough for floats
    m.done = m.trigger + m.shutter + 0.05;
    m.pose_ts = m.trigger + 0.02;
    co::CameraCalibration pc = ToProto(c);
    co::CameraImage pi = ToProto(m);
    sim::Log("call camera %s image %s", pc.ShortDebugString().c_str(), pi.ShortDebugString().c_str());
    std::vector<double> ex(pc.extrinsic().transform().begin(), pc.extrinsic().transform().end()),
        img(pi.pose().transform().begin(), pi.pose().transform().end());
    for (double x : {m.v[0], m.v[1], m.v[2], m.w[0], m.w[1], m.w[2], m.pose_ts, m.shutter, m.trigger, m.done}) img.push_back(x);
    int np = sim::W(5);
    std::vector<double> xyz, vel;
    for (int p = 0; p < np; ++p) {
      double u = c.width * sim::WU(-0.2, 1.2), v = c.height * sim::WU(-0.2, 1.2), d = sim::WU(-10, 60);
      V3 q = Behind(c, m, u, v, d);
      if (which == 2) xyz.insert(xyz.end(), {u, v, d});
      else xyz.insert(xyz.end(), q.begin(), q.end());
      for (int j = 0; j < 3; ++j) vel.push_back(sim::WU(-10, 10));
    }
    Ins in = {td({4, 4}, ex), td({9}, std::vector<double>(c.in.begin(), c.in.end())),
              ops::Make<int32_t>(tensorflow::DT_INT32, {3}, {c.width, c.height, c.dir}), td({26}, img), td({np, 3}, xyz)};
    if (which == 1) in.push_back(td({np, 3}, vel));
    k.calls.push_back(in);
  }
  return k;
}
Node Gen() {
  int n = 2 + sim::W(3);
  Node k;
  int kind = sim::W(9);
  switch (kind) {
    case 0: k = GenDet(n, false); break;
    case 1: k = GenDet(n, true); break;
    case 2: k = GenResult(n); break;
    case 3: k = GenTrk(n); break;
    case 4: k = GenMo(n); break;
    case 5: k = GenMatch(n); break;
    default: k = GenCam(n, kind - 6); break;
  }
  sim::Probe(("op " + k.op).c_str());
  // Some calls repeat each other.
  if (sim::WP(1, 4)) k.calls[1] = k.calls[0];
  return k;
}
bool Busy(const ops::Result& r) {
  for (auto& t : r.out) {
    auto d = t.tensor_data();
    for (char c : d) if (c != 0) return true;
  }
  return false;
}

void Run() {
  std::vector<Node> nodes(1 + sim::W(2));
  for (auto& k : nodes) k = Gen();
  if (nodes.size() == 2 && sim::WP(1, 3)) {  // the same op with other attributes
    for (int i = 0; i < 8 && nodes[1].op != nodes[0].op; ++i) nodes[1] = Gen();
  }
  uint64_t h = 3;
  int busy = 0;
  // Every call alone.
  for (auto& k : nodes) {
    h = sim::HashStr(k.op, h);
    for (auto& in : k.calls) {
      for (auto& t : in)
        if (t.dtype() == tensorflow::DT_STRING) for (int i = 0; i < t.NumElements(); ++i) h = sim::HashStr(std::string(t.flat<tensorflow::tstring>()(i)), h);
        else h = sim::HashBytes(t.tensor_data().data(), t.tensor_data().size(), h);
      ops::Kernel own(k.op, k.types, k.attrs);
      if (!own.ok()) sim::Violation("kernel-rejected", "%s", own.error().c_str());
      ops::Result r;
      sim::Simulate([&] { r = own.Run(in); });
      if (!r.ok) sim::Violation("valid-input-rejected", "%s: %s", k.op.c_str(), r.error.c_str());
      busy += Busy(r);
      k.want.push_back(r);
    }
  }
  sim::NoteWorkload(h);
  if (busy >= 2) sim::Nontrivial();
  std::vector<std::unique_ptr<ops::Kernel>> kernels;
  for (auto& k : nodes) kernels.push_back(std::make_unique<ops::Kernel>(k.op, k.types, k.attrs));
  int callers = 1 + sim::Draw(sim::kSched, 3), flying = 0, most = 0;
  bool fail_during = false;
  sim::Simulate([&] {
    std::vector<int> tids;
    for (int t = 0; t < callers; ++t)
      tids.push_back(sim::Spawn([&] {
        int n = 1 + sim::Draw(sim::kSched, 3);
        for (int i = 0; i < n; ++i) {
          int w = sim::Draw(sim::kSched, nodes.size());
          Node& k = nodes[w];
          int c = sim::Draw(sim::kSched, k.calls.size());
          if (!k.bad.empty() && sim::FP(1, 3)) {
            sim::Fault("call with inputs of the wrong shape");
            int b = sim::F(k.bad.size());
            fail_during |= flying > 0;
            if (kernels[w]->Run(k.bad[b]).ok) sim::Violation("bad-call-accepted", "%s accepts inputs of the wrong shape (%d)", k.op.c_str(), b);
          }
          ++flying;
          most = std::max(most, flying);
          bool oom = k.can_run_out && sim::FP(1, 4);
          kernels[w]->FailAllocation(oom ? sim::F(4) : -1);
          ops::Result r = kernels[w]->Run(k.calls[c]);
          --flying;
          if (oom && kernels[w]->AllocationFailed()) {
            sim::Fault("allocation of an output fails");
            if (r.ok) sim::Violation("lost-output", "%s succeeds although an output could not be allocated", k.op.c_str());
            continue;
          }
          std::string d = ops::Diff(r, k.want[c]);
          if (!d.empty())
            sim::Violation("call-disturbed", "%s call %d: %s (alone it returned the latter)", k.op.c_str(), c, d.c_str());
        }
      }));
    sim::JoinAll(tids);
  });
  if (most > 1) sim::Probe("calls at the same time");
  if (fail_during) sim::Probe("a call fails while others run");
}
void Warm() {
  det::Warm();
  trk::Warm();
  mo::Warm();
}
sim::Register reg("C09", Run, Warm);
}  // namespace
