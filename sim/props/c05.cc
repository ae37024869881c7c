// C05: the motion op under any schedule, with scenarios that cannot be evaluated.
#include "props/mo.h"

namespace {
void Run() {
  mo::Cfg c = mo::GenCfg();
  mo::Dims d;
  d.A = 1 + sim::W(4);
  d.M = 1 + sim::W(3);
  d.K = 1 + sim::W(4);
  d.N = 1 + sim::W(2);
  int B = 1 + sim::W(6);
  std::vector<mo::Scen> ss;
  int mode = sim::W(2);
  for (int i = 0; i < B; ++i)
    ss.push_back(mo::GenScen(c, d, mode ? sim::StrF("%x%d", (unsigned)sim::W(1 << 20), i) : sim::StrF("s%d", i)));
  // Faults of the input: some scenarios cannot be evaluated.
  bool bad = false;
  const char* how = "";
  if (sim::FP(1, 4)) {
    for (auto& s : ss) {
      if (!sim::FP(1, 2)) continue;
      const mo::Group& g = s.groups[sim::F(s.groups.size())];
      mo::Agent& a = s.agents[g.agents[sim::F(g.agents.size())]];
      if (sim::FP(1, 2)) {
        a.type = 5 + sim::F(60);
        sim::Fault("scenario with an unknown object type");
      } else {
        for (auto& x : a.s) x.valid = false;
        sim::Fault("scenario predicting an object that is never seen");
      }
      s.bad = bad = true;
    }
  }
  // ... or the whole call does not fit the configuration.
  std::vector<tensorflow::Tensor> in;
  mo::Cfg declared = c;
  if (!bad && sim::FP(1, 12)) {
    bad = true;
    switch (sim::F(3)) {
      case 0: declared.fut += declared.ts; how = "other number of future steps declared"; break;
      case 1: declared.steps[sim::F(declared.steps.size())].m = c.tp() + sim::F(2); how = "measurement step past the end"; break;
      case 2: declared.hist += 1; how = "other number of history steps declared"; break;
    }
    sim::Fault(how);
  }
  mo::LogCfg(declared);
  for (auto& s : ss) mo::LogScen(s);
  std::string cfg = mo::ToConfig(declared).SerializeAsString();
  uint64_t h = sim::HashStr(cfg);
  for (auto& s : ss) h = mo::Hash(s, h);
  sim::NoteWorkload(h);
  ops::Kernel k("MotionMetrics", mo::Types(), &cfg);
  if (!k.ok()) sim::Violation("kernel-rejected", "%s", k.error().c_str());
  std::vector<const mo::Scen*> all, batch;
  for (auto& s : ss) all.push_back(&s);
  for (int i : sim::Permutation(sim::kSched, B)) batch.push_back(&ss[i]);
  // The rows of a scenario may arrive in two parts: same tracks, other groups.
  int groups = 0;
  for (auto& s : ss) groups += s.groups.size();
  if (B >= 2 && groups >= 3) sim::Nontrivial();
  in = mo::Inputs(c, d, batch, sim::kSched);
  ops::Result r;
  if (bad) sim::AllowAbort(true);
  sim::Simulate([&] { r = k.Run(in); });
  if (bad) {
    if (r.ok) {
      std::string v;
      for (int i = 0; i < r.out[0].NumElements(); ++i) v += sim::StrF("%.4f ", r.out[0].flat<float>()(i));
      sim::Violation("failure-not-reported", "the call succeeded (%s) although it cannot be evaluated; min_ade %s", how, v.c_str());
    }
    return;
  }
  if (!r.ok) sim::Violation("valid-input-rejected", "%s", r.error.c_str());
  mo::CompareOp(c, r, mo::Serial(c, all), "serial");
  mo::Table m;
  if (mo::ModelTable(c, all, &m)) mo::CompareOp(c, r, m, "model");
}
sim::Register reg("C05", Run, mo::Warm);
}  // namespace
