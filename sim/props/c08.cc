// C08: matchers re-used over drawn histories, against fresh matchers and
// exhaustive/greedy matching; the Match op over drawn batches.
#include "props/bridge.h"
#include "waymo_open_dataset/metrics/matcher.h"

namespace {
namespace co = waymo::open_dataset;

// A drawn custom function: kind 0 is "none".
struct Custom { int iou = 0, la = 0, can = 0, weight = 0; bool on = false; };

co::ComputeIoUFunc IoUFn(int kind) {
  if (kind == 0) return nullptr;
  return [kind](const co::Label::Box& a, const co::Label::Box& b) -> float {
    double d = hypot(a.center_x() - b.center_x(), a.center_y() - b.center_y());
    return kind == 1 ? 1 / (1 + d) : std::max(0.0, 1 - d / 3);
  };
}
co::ComputeLongitudinalAffinityFunc LaFn(int kind) {
  if (kind == 0) return nullptr;
  return [kind](const co::Label::Box& a, const co::Label::Box& b) -> float {
    double d = fabs(a.center_y() - b.center_y());
    return kind == 1 ? 1 / (1 + d * d) : std::max(0.0, 1 - d);
  };
}
co::CanMatchFunc CanFn(int kind) {
  if (kind == 0) return nullptr;
  return [kind](const co::Matcher& m, int i, int j) {
    if (kind == 1) return m.IoU(i, j) > 0.2 && m.predictions()[i].object().type() == m.ground_truths()[j].object().type();
    return m.LongitudinalAffinity(i, j) > 0.3 && m.IoU(i, j) > 0.05;
  };
}
co::ComputeMatchingWeightFunc WeightFn(int kind) {
  if (kind == 0) return nullptr;
  return [kind](const co::Matcher& m, int i, int j) {
    if (kind == 1) return 1 + m.QuantizedWeight(m.LongitudinalAffinity(i, j) * 0.5f);
    return m.QuantizedWeight(m.IoU(i, j) * m.LongitudinalAffinity(i, j)) + 3 * ((i + 2 * j) % 5);
  };
}

struct Pool {
  std::vector<std::vector<ref::Obj>> pd, gt;  // plain
  std::vector<std::vector<co::Object>> pdo, gto;
};
// What a matcher currently holds.
struct State {
  Custom fn;
  bool fn_set[4] = {false, false, false, false};
  const std::vector<co::Object>* pd = nullptr;
  const std::vector<co::Object>* gt = nullptr;
  const std::vector<ref::Obj>* rpd = nullptr;
  const std::vector<ref::Obj>* rgt = nullptr;
  std::vector<int> ps, gs;
};
void Apply(const State& s, co::Matcher* m) {
  if (s.fn_set[0]) m->SetCustomIoUComputeFunc(IoUFn(s.fn.iou));
  if (s.fn_set[1]) m->SetCustomLongitudinalAffinityFunc(LaFn(s.fn.la));
  if (s.fn_set[2]) m->SetCustomCanMatchFunc(CanFn(s.fn.can));
  if (s.fn_set[3]) m->SetCustomMatchingWeightFunc(WeightFn(s.fn.weight));
  m->SetPredictions(*s.pd);
  m->SetGroundTruths(*s.gt);
  m->SetPredictionSubset(s.ps);
  m->SetGroundTruthSubset(s.gs);
}
std::string Str(const std::vector<int>& v) {
  std::string s;
  for (int x : v) s += sim::StrF("%d ", x);
  return s;
}
std::vector<int> Subset(int n) {
  std::vector<int> out;
  int mode = sim::Draw(sim::kSched, 4);
  for (int i : sim::Permutation(sim::kSched, n))
    if (mode == 0 || sim::Draw(sim::kSched, 4)) out.push_back(i);
  if (mode == 1) std::sort(out.begin(), out.end());
  if (mode == 2 && sim::Draw(sim::kSched, 3) == 0) out.clear();
  return out;
}

// The rules every matching obeys, from what the fresh matcher says of pairs.
void CheckRules(const ref::Cfg& c, const State& s, co::Matcher* fresh, const std::vector<int>& p, const std::vector<int>& g) {
  int n = s.ps.size(), m = s.gs.size();
  if ((int)p.size() != n || (int)g.size() != m)
    sim::Violation("wrong-size", "%zu and %zu matches for subsets of %d and %d", p.size(), g.size(), n, m);
  std::vector<std::vector<long>> w(n, std::vector<long>(m, -1));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j)
      if (fresh->CanMatch(s.ps[i], s.gs[j])) w[i][j] = fresh->MatchingWeight(s.ps[i], s.gs[j]);
  long total = 0;
  for (int i = 0; i < n; ++i) {
    if (p[i] < -1 || p[i] >= m) sim::Violation("match-out-of-range", "prediction %d is matched to %d", i, p[i]);
    if (p[i] < 0) continue;
    if (g[p[i]] != i) sim::Violation("not-mutual", "prediction %d has ground truth %d, which has prediction %d", i, p[i], g[p[i]]);
    if (w[i][p[i]] < 0) sim::Violation("forbidden-pair", "prediction %d and ground truth %d may not match", i, p[i]);
    total += w[i][p[i]];
  }
  for (int j = 0; j < m; ++j) {
    if (g[j] < -1 || g[j] >= n) sim::Violation("match-out-of-range", "ground truth %d is matched to %d", j, g[j]);
    if (g[j] >= 0 && p[g[j]] != j) sim::Violation("not-mutual", "ground truth %d has prediction %d, which has ground truth %d", j, g[j], p[g[j]]);
  }
  if (c.matcher == 1) {
    // Maximum total weight over all one-to-one matchings, by dynamic programming over ground truth sets.
    std::vector<long> best(1u << m, -1);
    best[0] = 0;
    for (int i = 0; i < n; ++i) {
      std::vector<long> next = best;
      for (unsigned k = 0; k < best.size(); ++k) {
        if (best[k] < 0) continue;
        for (int j = 0; j < m; ++j)
          if (!(k >> j & 1) && w[i][j] >= 0) next[k | 1u << j] = std::max(next[k | 1u << j], best[k] + w[i][j]);
      }
      best = next;
    }
    long top = *std::max_element(best.begin(), best.end());
    if (total != top) sim::Violation("not-optimal", "total weight %ld, the best matching has %ld", total, top);
    sim::Probe("optimality checked");
  } else {
    // Greedy by score: each prediction has the best of what the better ones left.
    std::vector<int> order(n);
    for (int i = 0; i < n; ++i) order[i] = i;
    auto score = [&](int i) { return (*s.pd)[s.ps[i]].score(); };
    std::sort(order.begin(), order.end(), [&](int a, int b) { return score(a) > score(b); });
    for (int k = 0; k + 1 < n; ++k) if (score(order[k]) == score(order[k + 1])) { sim::Probe("equal scores"); return; }
    std::vector<char> used(m, 0);
    for (int i : order) {
      long bw = -1;
      for (int j = 0; j < m; ++j) if (!used[j]) bw = std::max(bw, w[i][j]);
      if (p[i] < 0 ? bw >= 0 : w[i][p[i]] != bw)
        sim::Violation("not-greedy", "prediction %d has weight %ld, %ld was available", i, p[i] < 0 ? -1 : w[i][p[i]], bw);
      if (p[i] >= 0) used[p[i]] = 1;
    }
    sim::Probe("greedy order checked");
  }
}
// Pairs against the independent model of overlap and affinity.
void CheckPair(const ref::Cfg& c, const State& s, const co::Matcher& m, int i, int j) {
  bool custom = s.fn.iou || s.fn.la || s.fn.can || s.fn.weight || s.fn_set[0] || s.fn_set[1] || s.fn_set[2] || s.fn_set[3];
  if (custom) return;
  ref::Pair p;
  try {
    p = ref::Evaluate(c, (*s.rpd)[i], (*s.rgt)[j]);
  } catch (ref::Ambiguous&) {
    return;
  }
  if (fabs(m.IoU(i, j) - p.iou) > 1e-3) sim::Violation("overlap-value", "pair %d %d overlaps %g, expected %g", i, j, m.IoU(i, j), p.iou);
  if (fabs(m.LongitudinalAffinity(i, j) - p.la) > 1e-3)
    sim::Violation("affinity-value", "pair %d %d has affinity %g, expected %g", i, j, m.LongitudinalAffinity(i, j), p.la);
  if (m.CanMatch(i, j) != p.can) sim::Violation("can-match-value", "pair %d %d: %d, expected %d", i, j, m.CanMatch(i, j), p.can);
  if (fabs(m.MatchingWeight(i, j) / 1e6 - p.iou * p.la) > 2e-3)
    sim::Violation("weight-value", "pair %d %d has weight %d, expected %g", i, j, m.MatchingWeight(i, j), 1e6 * p.iou * p.la);
}

void History(const ref::Cfg& c, const co::Config& cfg, Pool* pool, int dof, bool custom) {
  std::unique_ptr<co::Matcher> m = co::Matcher::Create(cfg);
  State s;
  s.fn.on = custom;
  // Buffers which are refilled in place and set again.
  std::vector<co::Object> pbuf, gbuf;
  std::vector<ref::Obj> rpbuf, rgbuf;
  auto set_pd = [&] {
    int k = sim::Draw(sim::kSched, pool->pd.size());
    if (sim::Draw(sim::kSched, 2)) {
      rpbuf = pool->pd[k];
      pbuf = pool->pdo[k];
      s.pd = &pbuf;
      s.rpd = &rpbuf;
    } else {
      s.pd = &pool->pdo[k];
      s.rpd = &pool->pd[k];
    }
    m->SetPredictions(*s.pd);
    s.ps = Subset(s.pd->size());
    m->SetPredictionSubset(s.ps);
  };
  auto set_gt = [&] {
    int k = sim::Draw(sim::kSched, pool->gt.size());
    if (sim::Draw(sim::kSched, 2)) {
      rgbuf = pool->gt[k];
      gbuf = pool->gto[k];
      s.gt = &gbuf;
      s.rgt = &rgbuf;
    } else {
      s.gt = &pool->gto[k];
      s.rgt = &pool->gt[k];
    }
    m->SetGroundTruths(*s.gt);
    s.gs = Subset(s.gt->size());
    m->SetGroundTruthSubset(s.gs);
  };
  if (sim::Draw(sim::kSched, 2)) { set_pd(); set_gt(); } else { set_gt(); set_pd(); }
  std::vector<int> po, go;  // outputs, re-used
  int steps = 4 + sim::Draw(sim::kSched, 12);
  for (int k = 0; k < steps; ++k) {
    switch (sim::Draw(sim::kSched, 10)) {
      case 1: set_pd(); break;
      case 2: set_gt(); break;
      case 3: s.ps = Subset(s.pd->size()); m->SetPredictionSubset(s.ps); break;
      case 4: s.gs = Subset(s.gt->size()); m->SetGroundTruthSubset(s.gs); break;
      case 5: {  // functions of the caller come and go
        if (!s.fn.on) break;  // no custom functions in this history
        sim::Probe("custom function replaced");
        switch (sim::Draw(sim::kSched, 4)) {
          case 0: s.fn.iou = sim::Draw(sim::kSched, 3); s.fn_set[0] = true; m->SetCustomIoUComputeFunc(IoUFn(s.fn.iou)); break;
          case 1: s.fn.la = sim::Draw(sim::kSched, 3); s.fn_set[1] = true; m->SetCustomLongitudinalAffinityFunc(LaFn(s.fn.la)); break;
          case 2: s.fn.can = sim::Draw(sim::kSched, 3); s.fn_set[2] = true; m->SetCustomCanMatchFunc(CanFn(s.fn.can)); break;
          case 3: s.fn.weight = sim::Draw(sim::kSched, 3); s.fn_set[3] = true; m->SetCustomMatchingWeightFunc(WeightFn(s.fn.weight)); break;
        }
        break;
      }
      case 6:  // questions about single pairs, which fill caches
        for (int q = 0; q < 4 && !s.pd->empty() && !s.gt->empty(); ++q) {
          int i = sim::Draw(sim::kSched, s.pd->size()), j = sim::Draw(sim::kSched, s.gt->size());
          std::unique_ptr<co::Matcher> f = co::Matcher::Create(cfg);
          Apply(s, f.get());
          switch (sim::Draw(sim::kSched, 4)) {
            case 0: if (m->IoU(i, j) != f->IoU(i, j)) sim::Violation("stale-overlap", "pair %d %d: %g, fresh %g", i, j, m->IoU(i, j), f->IoU(i, j)); break;
            case 1: if (m->LongitudinalAffinity(i, j) != f->LongitudinalAffinity(i, j)) sim::Violation("stale-affinity", "pair %d %d", i, j); break;
            case 2: if (m->CanMatch(i, j) != f->CanMatch(i, j)) sim::Violation("stale-can-match", "pair %d %d", i, j); break;
            case 3: if (m->MatchingWeight(i, j) != f->MatchingWeight(i, j)) sim::Violation("stale-weight", "pair %d %d", i, j); break;
          }
          CheckPair(c, s, *m, i, j);
        }
        break;
      default: {
        bool wp = sim::Draw(sim::kSched, 5) != 1, wg = sim::Draw(sim::kSched, 5) != 1;
        if (sim::Draw(sim::kSched, 3) == 1) {  // outputs hold something already
          int a = sim::Draw(sim::kSched, 9), b = sim::Draw(sim::kSched, 9);
          po.assign(a, 7 - a);
          go.assign(b, b - 3);
        }
        m->Match(wp ? &po : nullptr, wg ? &go : nullptr);
        std::unique_ptr<co::Matcher> f = co::Matcher::Create(cfg);
        Apply(s, f.get());
        std::vector<int> fp, fg;
        f->Match(&fp, &fg);
        if (wp && po != fp) sim::Violation("history-changes-matching", "predictions match %s, fresh matcher %s", Str(po).c_str(), Str(fp).c_str());
        if (wg && go != fg) sim::Violation("history-changes-matching", "ground truths match %s, fresh matcher %s", Str(go).c_str(), Str(fg).c_str());
        CheckRules(c, s, f.get(), fp, fg);
        for (size_t i = 0; i < fp.size(); ++i) if (fp[i] >= 0) CheckPair(c, s, *m, s.ps[i], s.gs[fp[i]]);
        sim::Probe("match");
      }
    }
  }
}

// ------------------------------------------------------------------ Match op
tensorflow::Tensor BoxTensor(const std::vector<std::vector<ref::Obj>>& batch, int n, int dof) {
  std::vector<float> v;
  for (auto& b : batch)
    for (int i = 0; i < n; ++i) {
      if (i >= (int)b.size()) { for (int k = 0; k < dof; ++k) v.push_back(0); continue; }
      const ref::Box& x = b[i].box;
      if (dof == 7) for (double y : {x.x, x.y, ref::F32(x.z - x.h / 2), x.l, x.w, x.h, x.yaw}) v.push_back(y);
      else if (dof == 5) for (double y : {x.x, x.y, x.l, x.w, x.yaw}) v.push_back(y);
      else for (double y : {x.x, x.y, x.l, x.w}) v.push_back(y);
    }
  return ops::Make<float>(tensorflow::DT_FLOAT, {(int64_t)batch.size(), n, dof}, v);
}
struct Call {
  std::vector<std::vector<ref::Obj>> pd, gt;  // per batch element
  int np, ng;
};
using Match = std::tuple<int, int, float, float>;
std::vector<Match> Matches(const ops::Result& r) {
  if (r.out.size() != 4) sim::Violation("wrong-shape", "%zu outputs", r.out.size());
  std::vector<Match> out;
  int64_t n = r.out[0].NumElements();
  for (auto& t : r.out) if (t.dims() != 1 || t.NumElements() != n) sim::Violation("wrong-shape", "%s", t.shape().DebugString().c_str());
  for (int i = 0; i < n; ++i)
    out.push_back({r.out[0].vec<int32_t>()(i), r.out[1].vec<int32_t>()(i), r.out[2].vec<float>()(i), r.out[3].vec<float>()(i)});
  return out;
}
void OpHistory(const ref::Cfg& c, const std::string& cfg, const std::vector<Call>& calls, int dof) {
  using namespace tensorflow;
  ops::Kernel k("Match", {DT_FLOAT, DT_FLOAT}, &cfg);
  if (!k.ok()) sim::Violation("kernel-rejected", "%s", k.error().c_str());
  for (auto& call : calls) {
    if (sim::FP(1, 4)) {  // a call that has to fail
      sim::Fault("op call with wrong shapes");
      auto& x = call;
      Tensor a = BoxTensor(x.pd, x.np, dof), b = BoxTensor(x.gt, x.ng, dof);
      switch (sim::F(3)) {
        case 0: b = BoxTensor(x.gt, x.ng, dof == 7 ? 4 : 7); break;
        case 1: { auto g = x.gt; g.push_back({}); b = BoxTensor(g, x.ng, dof); break; }
        case 2: a = ops::Make<float>(DT_FLOAT, {4}, {1, 2, 3, 4}); break;
      }
      if (k.Run({a, b}).ok) sim::Violation("bad-call-accepted", "mismatched shapes");
    }
    ops::Result r = k.Run({BoxTensor(call.pd, call.np, dof), BoxTensor(call.gt, call.ng, dof)});
    if (!r.ok) sim::Violation("valid-input-rejected", "%s", r.error.c_str());
    std::vector<Match> got = Matches(r);
    // Each element of the batch alone.
    std::vector<Match> alone;
    for (size_t b = 0; b < call.pd.size(); ++b) {
      ops::Result one = k.Run({BoxTensor({call.pd[b]}, call.np, dof), BoxTensor({call.gt[b]}, call.ng, dof)});
      if (!one.ok) sim::Violation("valid-input-rejected", "%s", one.error.c_str());
      for (auto m : Matches(one)) {
        std::get<0>(m) += b * call.np;
        std::get<1>(m) += b * call.ng;
        alone.push_back(m);
      }
    }
    if (got != alone) sim::Violation("batch-changes-matching", "%zu matches, elements alone have %zu", got.size(), alone.size());
    // The model.
    for (size_t b = 0; b < call.pd.size(); ++b) {
      std::map<int, Match> by_pd;
      std::map<int, int> used;
      for (auto& m : got) {
        int i = std::get<0>(m) - b * call.np, j = std::get<1>(m) - b * call.ng;
        if (i < 0 || i >= call.np) continue;
        if (i >= (int)call.pd[b].size() || j < 0 || j >= (int)call.gt[b].size())
          sim::Violation("padding-matched", "prediction %d of element %zu matches ground truth %d", i, b, j);
        if (by_pd.count(i) || used[j]++) sim::Violation("not-one-to-one", "element %zu prediction %d ground truth %d", b, i, j);
        by_pd[i] = m;
      }
      try {
        std::vector<std::vector<ref::Pair>> pr(call.pd[b].size(), std::vector<ref::Pair>(call.gt[b].size()));
        for (size_t i = 0; i < call.pd[b].size(); ++i)
          for (size_t j = 0; j < call.gt[b].size(); ++j) pr[i][j] = ref::Evaluate(c, call.pd[b][i], call.gt[b][j]);
        auto pair = [&](int i, int j) -> const ref::Pair& { return pr[i][j]; };
        std::vector<int> want;
        if (c.matcher == 1) want = ref::BestMatching(call.pd[b].size(), call.gt[b].size(), pair);
        else want = ref::GreedyMatching(std::vector<float>(call.pd[b].size(), 1.f), call.gt[b].size(), pair);
        for (size_t i = 0; i < want.size(); ++i) {
          auto it = by_pd.find(i);
          int j = it == by_pd.end() ? -1 : std::get<1>(it->second) - (int)b * call.ng;
          if (j != want[i]) {
            long a = 0, z = 0;  // accept a matching as heavy within the rounding of overlaps
            for (size_t q = 0; q < want.size(); ++q) {
              if (want[q] >= 0) a += pr[q][want[q]].weight;
              auto t = by_pd.find(q);
              if (t != by_pd.end()) z += pr[q][std::get<1>(t->second) - (int)b * call.ng].weight;
            }
            if (c.matcher == 1 && labs(a - z) < 100 * (long)want.size()) throw ref::Ambiguous();
            sim::Violation("op-matching", "element %zu prediction %zu matches %d, expected %d", b, i, j, want[i]);
          }
          if (j >= 0 && (fabs(std::get<2>(it->second) - pr[i][j].iou) > 1e-3 || fabs(std::get<3>(it->second) - pr[i][j].la) > 1e-3))
            sim::Violation("op-values", "element %zu prediction %zu: IoU %g affinity %g, expected %g %g", b, i, std::get<2>(it->second),
                           std::get<3>(it->second), pr[i][j].iou, pr[i][j].la);
        }
        sim::Probe("op: model compared");
      } catch (ref::Ambiguous&) {
        sim::Probe("op: ambiguous, skipped");
      }
    }
  }
}

void Run() {
  ref::Cfg c = ref::GenCfg(true, true);
  bool op = sim::W(3) == 2;
  int dof = c.box_type == ref::kBox3D ? 7 : c.box_type == ref::kBox2D ? (sim::W(2) ? 7 : 5) : 4;
  co::Config cfg = bridge::ToConfig(c);
  std::string cs = cfg.SerializeAsString();
  ref::LogCfg(c);
  uint64_t h = sim::HashStr(cs) + op;
  if (op) {
    // The op gives every box the same type and score.
    std::vector<Call> calls(1 + sim::W(3));
    for (auto& call : calls) {
      int B = 1 + sim::W(3);
      call.np = call.ng = 0;
      for (int b = 0; b < B; ++b) {
        ref::Frame f = ref::GenFrame(b, 2, true);
        for (auto& o : f.pds) { o.type = 1; o.score = 1; bridge::Reduce(dof, &o.box); }
        for (auto& o : f.gts) { o.type = 1; bridge::Reduce(dof, &o.box); }
        ref::LogFrames({f});
        h = h * 31 + ref::HashFrames({f});
        call.pd.push_back(f.pds);
        call.gt.push_back(f.gts);
        call.np = std::max<int>(call.np, f.pds.size());
        call.ng = std::max<int>(call.ng, f.gts.size());
      }
      call.np += sim::W(3);  // padding
      call.ng += sim::W(3);
    }
    sim::NoteWorkload(h);
    if (calls.size() >= 2) sim::Nontrivial();
    sim::Simulate([&] { OpHistory(c, cs, calls, dof); });
    sim::Probe("op history");
    return;
  }
  Pool pool;
  bool distinct = !sim::WP(1, 4);
  int n = 2 + sim::W(3);
  for (int i = 0; i < n; ++i) {
    ref::Frame f = ref::GenFrame(i, 2, distinct);
    for (auto& o : f.pds) bridge::Reduce(dof, &o.box);
    for (auto& o : f.gts) bridge::Reduce(dof, &o.box);
    if (i && sim::WP(1, 2)) {  // similar to the last one: stale answers would look plausible
      f = {i, pool.pd.back(), pool.gt.back()};
      for (auto& o : f.pds) { o.box = ref::Jitter(o.box, 0.4); bridge::Reduce(dof, &o.box); }
      for (auto& o : f.gts) { o.box = ref::Jitter(o.box, 0.4); bridge::Reduce(dof, &o.box); }
    }
    ref::LogFrames({f});
    h = h * 31 + ref::HashFrames({f});
    pool.pd.push_back(f.pds);
    pool.gt.push_back(f.gts);
    pool.pdo.emplace_back();
    pool.gto.emplace_back();
    for (auto& o : f.pds) pool.pdo.back().push_back(bridge::ToObject(o, dof, false));
    for (auto& o : f.gts) pool.gto.back().push_back(bridge::ToObject(o, dof, true));
  }
  sim::NoteWorkload(h);
  int busy = 0;
  for (int i = 0; i < n; ++i) busy += !pool.pd[i].empty() && !pool.gt[i].empty();
  if (busy >= 2) sim::Nontrivial();
  bool custom = sim::W(2);
  int threads = 1 + sim::Draw(sim::kSched, 2);
  
  sim::Simulate([&] {
    std::vector<int> t;
    for (int i = 0; i < threads; ++i) t.push_back(sim::Spawn([&] { History(c, cfg, &pool, dof, custom); }));
    sim::JoinAll(t);
  });
}
void Warm() {
  ref::Cfg c;
  c.breakdowns = {{ref::kOneShard, {2}}};
  c.cutoffs = {0.f};
  std::string cs = bridge::ToConfig(c).SerializeAsString();
  ops::Kernel k("Match", {tensorflow::DT_FLOAT, tensorflow::DT_FLOAT}, &cs);
  std::vector<ref::Obj> o(1);
  k.Run({BoxTensor({o}, 1, 7), BoxTensor({o}, 1, 7)});
}
sim::Register reg("C08", Run, Warm);
}  // namespace
