// C07: segmentation accumulators under a drawn history of updates, rejected
// updates, resets, reads and merges, against exact per-class counts.
#include <set>

#include "rt/sim.h"
#include "waymo_open_dataset/metrics/segmentation_metrics.h"

namespace {
namespace co = waymo::open_dataset;
using Type = co::Segmentation::Type;

// Exact counts of the classes that are evaluated.
struct Count {
  std::map<int, int64_t> inter, uni;
  void Add(const Count& o) {
    for (auto& kv : o.inter) inter[kv.first] += kv.second;
    for (auto& kv : o.uni) uni[kv.first] += kv.second;
  }
};
struct Frame { std::vector<Type> pd, gt; };

Count CountFrame(const std::vector<int>& classes, const Frame& f) {
  Count c;
  std::set<int> on(classes.begin(), classes.end());
  for (size_t i = 0; i < f.pd.size(); ++i) {
    int p = f.pd[i], g = f.gt[i];
    if (!on.count(g)) continue;  // ground truth outside the classes is ignored
    c.uni[g]++;
    if (p == g) c.inter[g]++;
    else if (on.count(p)) c.uni[p]++;
  }
  return c;
}
void Check(const std::vector<int>& classes, const Count& want, const co::SegmentationMetrics& m, const char* what) {
  auto& s = m.segmentation_measurements();
  if ((size_t)s.intersections_size() != classes.size() || (size_t)s.unions_size() != classes.size() ||
      (size_t)m.per_class_iou().size() != classes.size())
    sim::Violation("wrong-class-count", "%s: %d intersections, %d unions, %zu IoUs for %zu classes", what,
                   s.intersections_size(), s.unions_size(), m.per_class_iou().size(), classes.size());
  double sum = 0;
  for (size_t i = 0; i < classes.size(); ++i) {
    int k = classes[i];
    auto a = want.inter.find(k), b = want.uni.find(k);
    int64_t in = a == want.inter.end() ? 0 : a->second, un = b == want.uni.end() ? 0 : b->second;
    if (s.intersections(i) != in || s.unions(i) != un)
      sim::Violation(sim::StrF("counts-%s", what).c_str(), "class %d: intersection %lld union %lld, expected %lld and %lld", k,
                     (long long)s.intersections(i), (long long)s.unions(i), (long long)in, (long long)un);
    double iou = un > 0 ? (double)in / un : 1;
    auto it = m.per_class_iou().find(k);
    if (it == m.per_class_iou().end() || !(fabs(it->second - iou) < 1e-5))
      sim::Violation(sim::StrF("iou-%s", what).c_str(), "class %d: IoU %g, expected %g", k,
                     it == m.per_class_iou().end() ? NAN : it->second, iou);
    sum += iou;
  }
  if (!(fabs(m.miou() - sum / classes.size()) < 1e-5))
    sim::Violation(sim::StrF("miou-%s", what).c_str(), "mean IoU %g, expected %g", m.miou(), sum / classes.size());
}

Frame GenFrame(const std::vector<int>& pool) {
  Frame f;
  int n = sim::W(12);
  int miss = 1 + sim::W(4);
  for (int i = 0; i < n; ++i) {
    int g = sim::WPick(pool);
    f.gt.push_back(static_cast<Type>(g));
    f.pd.push_back(static_cast<Type>(sim::WP(1, miss) ? sim::WPick(pool) : g));
  }
  return f;
}

struct Node {
  std::unique_ptr<co::SegmentationMetricsIOU> acc;
  Count want;  // frames since the last reset
};

void Run() {
  // A drawn set of evaluated classes, in a drawn order.
  int total = 1 + sim::W(8);
  std::vector<int> pool, classes;
  int base = sim::W(15);
  for (int i = 0; i < total + 2; ++i) pool.push_back((base + i) % 23);
  for (int i : sim::Permutation(sim::kWork, pool.size())) if (classes.size() < (size_t)total) classes.push_back(pool[i]);
  co::SegmentationMetricsConfig cfg;
  for (int k : classes) cfg.add_segmentation_types(static_cast<Type>(k));
  std::string s;
  for (int k : classes) s += sim::StrF("%d ", k);
  sim::Log("classes %s", s.c_str());

  int workers = 1 + sim::W(3);
  std::vector<std::vector<Frame>> frames(workers);
  uint64_t h = sim::HashStr(cfg.SerializeAsString());
  size_t nframes = 0;
  for (auto& v : frames) {
    int n = sim::W(5);
    for (int i = 0; i < n; ++i) {
      v.push_back(GenFrame(pool));
      ++nframes;
      for (size_t k = 0; k < v.back().pd.size(); ++k) h = h * 31 + v.back().pd[k] * 64 + v.back().gt[k];
    }
  }
  sim::NoteWorkload(h);
  if (workers >= 2 && nframes >= 3) sim::Nontrivial();

  // Every worker owns an accumulator; what it has measured so far is handed to
  // the coordinator in messages, some of which are lost, repeated or late.
  struct Msg { int worker, epoch; std::string bytes; Count want; };
  std::vector<Msg> sent;
  std::vector<Node> nodes(workers);
  Count all;
  auto work = [&](int w) {
    Node& n = nodes[w];
    n.acc = std::make_unique<co::SegmentationMetricsIOU>(cfg);
    int epoch = 0;
    for (auto& f : frames[w]) {
      int ops = 1 + sim::Draw(sim::kSched, 3);
      for (int o = 0; o < ops; ++o) switch (sim::Draw(sim::kSched, 6)) {
        case 1: {  // a frame that has to be rejected
          Frame bad = f;
          sim::Fault("frame with missing points");
          bool p = sim::F(2);
          auto& v = p ? bad.pd : bad.gt;
          if (v.empty() || sim::F(2)) v.push_back(static_cast<Type>(classes[0]));
          else v.resize(sim::F(v.size()));
          co::Status st = n.acc->Update(bad.pd, bad.gt);
          if (st.ok()) sim::Violation("bad-frame-accepted", "%zu predictions and %zu ground truths", bad.pd.size(), bad.gt.size());
          Check(classes, n.want, n.acc->ComputeIOU(), "after-rejected-frame");
          break;
        }
        case 2:
          Check(classes, n.want, n.acc->ComputeIOU(), "read");
          break;
        case 3: {  // merging does not touch the accumulator that does it
          std::vector<co::SegmentationMeasurements> r;
          Count c;
          int k = sim::Draw(sim::kSched, 3);
          for (int q = 0; q < k && !sent.empty(); ++q) {
            const Msg& m = sent[sim::Draw(sim::kSched, sent.size())];
            co::SegmentationMeasurements x;
            x.ParseFromString(m.bytes);
            r.push_back(x);
            c.Add(m.want);
          }
          Check(classes, c, n.acc->MergeResults(r), "merge");
          Check(classes, n.want, n.acc->ComputeIOU(), "read-after-merge");
          sim::Probe("merged by a busy accumulator");
          break;
        }
        case 4:
          if (sim::FP(1, 3)) {  // a long earlier run's partial result
            Msg m{w, -1, "", {}};
            co::SegmentationMeasurements x;
            for (int k : classes) {
              int64_t u = (int64_t)sim::F(40) * 100000000ll, i = u / (1 + sim::F(4));
              x.add_intersections(i);
              x.add_unions(u);
              m.want.inter[k] = i;
              m.want.uni[k] = u;
            }
            m.bytes = x.SerializeAsString();
            sent.push_back(m);
            sim::Probe("large partial result");
          }
          break;
        default: break;
      }
      co::Status st = n.acc->Update(f.pd, f.gt);
      if (!st.ok()) sim::Violation("valid-frame-rejected", "%s", std::string(st.message()).c_str());
      n.want.Add(CountFrame(classes, f));
      if (sim::Draw(sim::kSched, 3) == 0) {
        Check(classes, n.want, n.acc->ComputeIOU(), "read");
        Msg m{w, epoch, n.acc->ComputeIOU().segmentation_measurements().SerializeAsString(), n.want};
        sent.push_back(m);
        if (sim::Draw(sim::kSched, 2)) {  // start over after handing over
          n.acc->Reset();
          n.want = Count();
          ++epoch;
          Check(classes, n.want, n.acc->ComputeIOU(), "after-reset");
          sim::Probe("reset");
        }
      }
      sim::YieldPoint();
    }
  };
  sim::Simulate([&] {
    std::vector<int> t;
    for (int w = 0; w < workers; ++w) t.push_back(sim::Spawn([&, w] { work(w); }));
    sim::JoinAll(t);
  });
  // The coordinator keeps the last message of every (worker, epoch), and what
  // the workers still hold; messages may come again, late and in any order.
  std::vector<Msg> inbox;
  for (auto& m : sent) {
    inbox.push_back(m);
    if (sim::FP(1, 5)) { inbox.push_back(m); sim::Fault("message duplicated"); }
  }
  for (int w = 0; w < workers; ++w) {
    Check(classes, nodes[w].want, nodes[w].acc->ComputeIOU(), "final");
    inbox.push_back({w, 1000, nodes[w].acc->ComputeIOU().segmentation_measurements().SerializeAsString(), nodes[w].want});
  }
  std::map<std::pair<int, int>, size_t> keep;
  for (size_t i = 0; i < inbox.size(); ++i) keep[{inbox[i].worker, inbox[i].epoch}] = i;
  std::vector<co::SegmentationMeasurements> parts;
  std::vector<size_t> order;
  for (auto& kv : keep) order.push_back(kv.second);
  std::vector<int> perm = sim::Permutation(sim::kSched, order.size());
  for (int i : perm) {
    const Msg& m = inbox[order[i]];
    co::SegmentationMeasurements x;
    if (!x.ParseFromString(m.bytes)) sim::HarnessError("message");
    parts.push_back(x);
    all.Add(m.want);
  }
  // Merge in drawn groups.
  co::SegmentationMetricsIOU fresh(cfg);
  while (parts.size() > 1 && sim::Draw(sim::kSched, 3)) {
    size_t n = 1 + sim::Draw(sim::kSched, parts.size());
    std::vector<co::SegmentationMeasurements> head(parts.begin(), parts.begin() + n);
    co::SegmentationMetrics m = (sim::Draw(sim::kSched, 2) ? fresh : *nodes[0].acc).MergeResults(head);
    parts.erase(parts.begin(), parts.begin() + n);
    parts.push_back(m.segmentation_measurements());
    sim::Probe("partial results merged first");
  }
  Check(classes, all, fresh.MergeResults(parts), "final-merge");
  Check(classes, Count(), fresh.ComputeIOU(), "merging-node");
  Check(classes, Count(), fresh.MergeResults({}), "merge-of-nothing");
}
void Warm() {
  co::SegmentationMetricsConfig cfg;
  cfg.add_segmentation_types(static_cast<Type>(1));
  co::SegmentationMetricsIOU a(cfg);
  a.Update({static_cast<Type>(1)}, {static_cast<Type>(1)});
  a.ComputeIOU();
}
sim::Register reg("C07", Run, Warm);
}  // namespace
