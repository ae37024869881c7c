// Tracking workloads, an independent CLEAR-MOT model, and op inputs.
#ifndef WODSIM_TRK_H_
#define WODSIM_TRK_H_
#include <set>

#include "props/bridge.h"
#include "waymo_open_dataset/metrics/tracking_metrics.h"

namespace trk {
namespace co = waymo::open_dataset;
struct Seq {
  std::string id;
  std::vector<ref::Frame> frames;  // in timestamp order
};
struct Count {
  int misses = 0, fps = 0, mismatches = 0, matches = 0, gts = 0;
  double cost = 0;
  void Add(const Count& o) {
    misses += o.misses; fps += o.fps; mismatches += o.mismatches; matches += o.matches; gts += o.gts;
    cost += o.cost;
  }
};
using Table = std::vector<std::vector<Count>>;  // [breakdown row][cutoff]

// One sequence, one breakdown shard, one cutoff, all difficulty levels.
struct Mot {
  std::map<int64_t, int64_t> m;  // ground truth -> prediction, one to one
  std::vector<Count> out;        // per level
  explicit Mot(size_t levels) : out(levels) {}

  void Frame(const ref::Cfg& c, const std::vector<ref::Obj>& pds, const std::vector<ref::Obj>& gts,
             const std::vector<int>& levels) {
    // The first of several predictions with one id counts, the rest do not.
    std::vector<const ref::Obj*> p, g;
    std::set<int64_t> seen;
    for (auto& o : pds) if (seen.insert(o.id).second) p.push_back(&o);
    for (auto& o : gts) g.push_back(&o);
    std::map<int64_t, int64_t> now;
    std::vector<char> pu(p.size(), 0), gu(g.size(), 0);
    double cost = 0;
    for (size_t j = 0; j < g.size(); ++j) {
      auto it = m.find(g[j]->id);
      if (it == m.end()) continue;
      for (size_t i = 0; i < p.size(); ++i) {
        if (p[i]->id != it->second) continue;
        ref::Pair q = ref::Evaluate(c, *p[i], *g[j]);
        if (q.can) {
          now[g[j]->id] = p[i]->id;
          pu[i] = gu[j] = 1;
          cost += 1 - q.iou;
        }
      }
    }
    std::vector<const ref::Obj*> fp, fg;
    for (size_t i = 0; i < p.size(); ++i) if (!pu[i]) fp.push_back(p[i]);
    for (size_t j = 0; j < g.size(); ++j) if (!gu[j]) fg.push_back(g[j]);
    std::vector<std::vector<ref::Pair>> pr(fp.size(), std::vector<ref::Pair>(fg.size()));
    for (size_t i = 0; i < fp.size(); ++i)
      for (size_t j = 0; j < fg.size(); ++j) pr[i][j] = ref::Evaluate(c, *fp[i], *fg[j]);
    auto pair = [&](int i, int j) -> const ref::Pair& { return pr[i][j]; };
    std::vector<int> mt;
    if (c.matcher == 1) {
      mt = ref::BestMatching(fp.size(), fg.size(), pair);
    } else {
      std::vector<float> sc;
      for (auto* o : fp) sc.push_back(o->score);
      mt = ref::GreedyMatching(sc, fg.size(), pair);
    }
    int fps = 0;
    std::vector<char> hit(fg.size(), 0);
    for (size_t i = 0; i < fp.size(); ++i) {
      if (mt[i] >= 0) {
        hit[mt[i]] = 1;
        now[fg[mt[i]]->id] = fp[i]->id;
        cost += 1 - pr[i][mt[i]].iou;
      } else if (!fp[i]->nlz) {
        ++fps;
      }
    }
    // Identity changes against everything matched so far.
    std::map<int64_t, int64_t> inv;
    for (auto& kv : m) inv[kv.second] = kv.first;
    std::set<int64_t> here;
    for (auto* o : g) here.insert(o->id);
    int mism = 0;
    for (auto& kv : now) {
      auto old = m.find(kv.first);
      if (old != m.end() && old->second != kv.second) ++mism;
      auto prev = inv.find(kv.second);
      if (prev != inv.end() && prev->second != kv.first && !here.count(prev->second)) ++mism;
    }
    for (auto& kv : now) {
      auto prev = inv.find(kv.second);
      if (prev != inv.end() && !now.count(prev->second)) m.erase(prev->second);
    }
    for (auto& kv : now) m[kv.first] = kv.second;
    if (!now.empty()) sim::Probe("model: matches", now.size());
    if (mism) sim::Probe("model: mismatches", mism);
    for (size_t k = 0; k < levels.size(); ++k) {
      int miss = 0, above = 0;
      for (size_t j = 0; j < fg.size(); ++j) {
        if (hit[j]) continue;
        if (fg[j]->trk_level <= levels[k]) ++miss; else ++above;
      }
      Count d;
      d.misses = miss;
      d.fps = fps;
      d.mismatches = mism;
      d.matches = now.size();
      d.gts = (int)g.size() - above;
      d.cost = cost;
      out[k].Add(d);
    }
  }
};

inline Table ModelSeq(const ref::Cfg& c, const std::vector<float>& cutoffs, const Seq& s0) {
  Seq s = s0;
  if (s.frames.empty()) return {};
  for (auto& f : s.frames) ref::LendSpeed(c, &f.pds, f.gts);
  Table t;
  for (auto& b : c.breakdowns) {
    std::vector<int> levels = b.levels.empty() ? std::vector<int>{2} : b.levels;
    for (int sh = 0; sh < ref::NumShards(b.id); ++sh) {
      std::vector<std::vector<Count>> rows(levels.size());
      for (float cut : cutoffs) {
        Mot mot(levels.size());
        for (auto& f : s.frames) {
          std::vector<ref::Obj> p, g;
          for (auto& o : f.pds) if (ref::ShardOf(b.id, o) == sh && o.score >= cut) p.push_back(o);
          for (auto& o : f.gts) if (ref::ShardOf(b.id, o) == sh) g.push_back(o);
          mot.Frame(c, p, g, levels);
        }
        for (size_t k = 0; k < levels.size(); ++k) rows[k].push_back(mot.out[k]);
      }
      for (auto& r : rows) t.push_back(r);
    }
  }
  return t;
}
inline void AddTable(Table* a, const Table& b) {
  if (a->empty()) { *a = b; return; }
  for (size_t i = 0; i < b.size(); ++i)
    for (size_t j = 0; j < b[i].size(); ++j) (*a)[i][j].Add(b[i][j]);
}

// ---- the library, one sequence at a time
inline void ToObjects(const Seq& s, int dof, std::vector<std::vector<co::Object>>* p,
                      std::vector<std::vector<co::Object>>* g) {
  for (auto& f : s.frames) {
    p->emplace_back();
    g->emplace_back();
    for (auto& o : f.pds) {
      p->back().push_back(bridge::ToObject(o, dof, false));
      p->back().back().mutable_object()->set_id(sim::StrF("%lld", (long long)o.id));
    }
    for (auto& o : f.gts) {
      g->back().push_back(bridge::ToObject(o, dof, true));
      g->back().back().mutable_object()->set_id(sim::StrF("%lld", (long long)o.id));
      g->back().back().mutable_object()->set_tracking_difficulty_level(
          static_cast<co::Label::DifficultyLevel>(o.trk_level));
    }
  }
}
inline co::Config Config(const ref::Cfg& c, const std::vector<float>& cutoffs) {
  ref::Cfg cc = c;
  cc.cutoffs = cutoffs;
  cc.desired = 0;
  return bridge::ToConfig(cc);
}
inline Table FromMeasurements(const ref::Cfg& c, const std::vector<float>& cutoffs,
                              const std::vector<co::TrackingMeasurements>& ms) {
  std::vector<ref::Row> rows = ref::Rows(c);
  if (ms.size() != rows.size())
    sim::Violation("wrong-breakdown-count", "library returned %zu breakdowns, expected %zu", ms.size(), rows.size());
  Table t(rows.size());
  for (size_t i = 0; i < rows.size(); ++i) {
    auto& b = ms[i].breakdown();
    if (b.generator_id() != rows[i].id || b.shard() != rows[i].shard || b.difficulty_level() != rows[i].level)
      sim::Violation("wrong-breakdown", "breakdown %zu is (%d,%d,%d), expected (%d,%d,%d)", i, b.generator_id(),
                     b.shard(), b.difficulty_level(), rows[i].id, rows[i].shard, rows[i].level);
    if (ms[i].measurements_size() != (int)cutoffs.size())
      sim::Violation("wrong-cutoff-count", "%d measurements, %zu cutoffs", ms[i].measurements_size(), cutoffs.size());
    for (size_t k = 0; k < cutoffs.size(); ++k) {
      auto& m = ms[i].measurements(k);
      if (m.score_cutoff() != cutoffs[k])
        sim::Violation("wrong-cutoff", "measurement %zu has cutoff %g, expected %g", k, m.score_cutoff(), cutoffs[k]);
      Count d;
      d.misses = m.num_misses(); d.fps = m.num_fps(); d.mismatches = m.num_mismatches();
      d.matches = m.num_matches(); d.gts = m.num_objects_gt(); d.cost = m.matching_cost();
      t[i].push_back(d);
    }
  }
  return t;
}
inline Table SerialSeq(const ref::Cfg& c, const std::vector<float>& cutoffs, const Seq& s, int dof) {
  if (s.frames.empty()) return {};
  std::vector<std::vector<co::Object>> p, g;
  ToObjects(s, dof, &p, &g);
  return FromMeasurements(c, cutoffs, co::ComputeTrackingMeasurements(Config(c, cutoffs), p, g));
}
inline void CompareTables(const ref::Cfg& c, const std::vector<float>& cutoffs, const Table& got, const Table& want,
                          const char* what) {
  std::vector<ref::Row> rows = ref::Rows(c);
  if (got.size() != want.size()) sim::Violation("wrong-breakdown-count", "%zu vs %zu", got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i)
    for (size_t k = 0; k < cutoffs.size(); ++k) {
      const Count &a = got[i][k], &b = want[i][k];
      if (a.misses != b.misses || a.fps != b.fps || a.mismatches != b.mismatches || a.matches != b.matches ||
          a.gts != b.gts || !ref::Near(a.cost, b.cost))
        sim::Violation(sim::StrF("mot-counts-vs-%s", what).c_str(),
                       "breakdown (%d,%d,%d) cutoff %.6f: miss %d fp %d mismatch %d match %d gt %d cost %.5f, %s has "
                       "miss %d fp %d mismatch %d match %d gt %d cost %.5f",
                       rows[i].id, rows[i].shard, rows[i].level, cutoffs[k], a.misses, a.fps, a.mismatches, a.matches,
                       a.gts, a.cost, what, b.misses, b.fps, b.mismatches, b.matches, b.gts, b.cost);
    }
}
struct Metric { double mota = 0, motp = 0, miss = 0, mismatch = 0, fp = 0, cutoff = 0; };
// The metrics of every cutoff with (nearly) the best MOTA.
inline std::vector<Metric> Finish(const std::vector<Count>& row, const std::vector<float>& cutoffs) {
  std::vector<Metric> all, best;
  double top = 0;
  for (size_t k = 0; k < row.size(); ++k) {
    const Count& d = row[k];
    if (d.gts == 0) continue;
    Metric x;
    x.miss = (double)d.misses / d.gts;
    x.fp = (double)d.fps / d.gts;
    x.mismatch = (double)d.mismatches / d.gts;
    x.mota = 1 - (x.miss + x.fp + x.mismatch);
    x.motp = d.matches > 0 ? d.cost / d.matches : 0;
    x.cutoff = cutoffs[k];
    top = std::max(top, x.mota);
    all.push_back(x);
  }
  for (auto& x : all) if (x.mota > -1e-5 && x.mota > top - 1e-5) best.push_back(x);
  if (top < 2e-5) best.push_back(Metric());  // no cutoff does better than nothing at all
  return best;
}
inline void CheckMetric(const ref::Row& r, const std::vector<Metric>& ok, const Metric& got, const char* what) {
  for (auto& x : ok)
    if (ref::Near(x.mota, got.mota) && ref::Near(x.motp, got.motp) && ref::Near(x.miss, got.miss) &&
        ref::Near(x.mismatch, got.mismatch) && ref::Near(x.fp, got.fp) && ref::Near(x.cutoff, got.cutoff, 1e-6))
      return;
  const Metric& x = ok[0];
  sim::Violation(sim::StrF("mot-metrics-vs-%s", what).c_str(),
                 "breakdown (%d,%d,%d): mota %.6f motp %.6f miss %.6f mismatch %.6f fp %.6f cutoff %.6f, %s has mota "
                 "%.6f motp %.6f miss %.6f mismatch %.6f fp %.6f cutoff %.6f",
                 r.id, r.shard, r.level, got.mota, got.motp, got.miss, got.mismatch, got.fp, got.cutoff, what, x.mota,
                 x.motp, x.miss, x.mismatch, x.fp, x.cutoff);
}
inline void CompareOutputs(const ref::Cfg& c, const std::vector<float>& cutoffs, const Table& t, const ops::Result& r,
                           const char* what) {
  std::vector<ref::Row> rows = ref::Rows(c);
  if (t.empty()) rows.clear();
  const int64_t B = rows.size();
  if (r.out.size() != 7) sim::Violation("wrong-shape", "%zu outputs", r.out.size());
  for (int i = 0; i < 6; ++i)
    if (r.out[i].dims() != 1 || r.out[i].dim_size(0) != B)
      sim::Violation("wrong-shape", "output %d has shape %s", i, r.out[i].shape().DebugString().c_str());
  auto v = [&](int i, int k) { return (double)r.out[i].vec<float>()(k); };
  for (int i = 0; i < B; ++i) {
    auto bd = r.out[6].matrix<uint8_t>();
    if (bd(i, 0) != rows[i].id || bd(i, 1) != rows[i].shard || bd(i, 2) != rows[i].level)
      sim::Violation("wrong-breakdown", "row %d is (%d,%d,%d), expected (%d,%d,%d)", i, bd(i, 0), bd(i, 1), bd(i, 2),
                     rows[i].id, rows[i].shard, rows[i].level);
    Metric got{v(0, i), v(1, i), v(2, i), v(3, i), v(4, i), v(5, i)};
    CheckMetric(rows[i], Finish(t[i], cutoffs), got, what);
  }
}
inline bool Model(const ref::Cfg& c, const std::vector<float>& cutoffs, const std::vector<Seq>& ss, Table* out) {
  out->clear();
  try {
    for (auto& s : ss) AddTable(out, ModelSeq(c, cutoffs, s));
  } catch (ref::Ambiguous&) {
    sim::Probe("model: ambiguous, skipped");
    return false;
  }
  sim::Probe("model: compared");
  return true;
}

// ---- op inputs
inline std::vector<tensorflow::DataType> Types() {
  using namespace tensorflow;
  return {DT_FLOAT, DT_UINT8, DT_FLOAT, DT_INT64, DT_STRING, DT_INT64, DT_BOOL,
          DT_FLOAT, DT_UINT8, DT_INT64, DT_STRING, DT_INT64, DT_UINT8, DT_FLOAT};
}
inline std::vector<tensorflow::Tensor> Inputs(const std::vector<Seq>& ss, int dof, sim::Stream st) {
  using namespace tensorflow;
  using bridge::RowRef;
  std::vector<std::vector<RowRef>> pg, gg;
  for (auto& s : ss)
    for (auto& f : s.frames) {
      pg.emplace_back();
      gg.emplace_back();
      for (auto& o : f.pds) pg.back().push_back({f.id, &o, s.id});
      for (auto& o : f.gts) gg.back().push_back({f.id, &o, s.id});
    }
  std::vector<RowRef> pd = bridge::Interleave(pg, st), gt = bridge::Interleave(gg, st);
  auto seqs = [](const std::vector<RowRef>& rows) {
    std::vector<std::string> v;
    for (auto& r : rows) v.push_back(r.seq);
    return ops::MakeStr({(int64_t)rows.size()}, v);
  };
  std::vector<Tensor> d = bridge::DetInputs(pd, gt, dof);
  auto ids = [](const std::vector<RowRef>& rows) {
    return bridge::Col<int64_t>(DT_INT64, rows, [](const RowRef& r) { return r.o->id; });
  };
  Tensor lvl = bridge::Col<uint8_t>(DT_UINT8, gt, [](const RowRef& r) { return r.o->trk_level; });
  return {d[0], d[1], d[2], d[3], seqs(pd), ids(pd), d[4], d[5], d[6], d[7], seqs(gt), ids(gt), lvl, d[9]};
}

// ---- generation: objects that move, vanish, come back and are mistaken
inline Seq GenSeq(const std::string& id, int max_frames, bool distinct_scores) {
  Seq s;
  s.id = id;
  int nf = 1 + sim::W(max_frames);
  int no = sim::W(4);
  struct Actor { ref::Obj o; double dx, dy; int64_t pid; };
  std::vector<Actor> act;
  for (int i = 0; i < no; ++i) {
    Actor a;
    double ang = sim::WU(-3.1, 3.1), rad = sim::WU(6, 60);
    bool crowd = i > 0 && sim::WP(1, 2);
    a.o.type = 1 + sim::W(4);
    if (crowd) {
      a.o.type = act[0].o.type;
      a.o.box = ref::Jitter(act[0].o.box, 2.0);
    } else {
      a.o.box = ref::GenBox(rad * cos(ang), rad * sin(ang), sim::WP(1, 3));
    }
    a.o.id = sim::WP(1, 2) ? i + 1 : 10 * (int64_t)(1 + sim::W(100)) + i;
    a.o.det_level = a.o.trk_level = 1 + sim::W(2);
    if (sim::WP(1, 4)) a.o.det_level = 3 - a.o.trk_level;
    a.dx = sim::WU(-0.6, 0.6);
    a.dy = sim::WU(-0.6, 0.6);
    a.pid = sim::WP(1, 3) ? a.o.id : 100 + i;
    act.push_back(a);
  }
  int64_t t = sim::WP(1, 3) ? 1500000000000000ll : sim::WI(-20, 50);
  int64_t fresh = 500;
  for (int k = 0; k < nf; ++k) {
    ref::Frame f;
    f.id = t;
    t += sim::WP(1, 4) ? 1 + (int64_t)sim::W(1000) : 1;
    for (int i = 0; i < no; ++i) {
      Actor& a = act[i];
      a.o.box.x = ref::F32(a.o.box.x + a.dx);
      a.o.box.y = ref::F32(a.o.box.y + a.dy);
      double v = hypot(a.dx, a.dy) * 10;
      a.o.vx = ref::F32(a.dx * 10);
      a.o.vy = ref::F32(a.dy * 10);
      (void)v;
      // Tracker identity events.
      if (sim::WP(1, 8)) a.pid = fresh++;
      if (i > 0 && sim::WP(1, 8)) std::swap(a.pid, act[sim::W(i)].pid);
      if (sim::WP(1, 10) && i > 0) a.pid = act[sim::W(i)].pid;  // stolen: may duplicate
      if (!sim::WP(1, 6)) {
        ref::Obj g = a.o;
        if (sim::WP(1, 12)) g.trk_level = 3 - g.trk_level;
        f.gts.push_back(g);
      }
      int copies = sim::WP(1, 5) ? 0 : sim::WP(1, 10) ? 2 : 1;
      for (int q = 0; q < copies; ++q) {
        ref::Obj p = a.o;
        p.id = q == 0 || sim::WP(1, 2) ? a.pid : fresh++;
        p.box = ref::Jitter(a.o.box, sim::WP(1, 5) ? 1.2 : 0.15);
        p.score = static_cast<float>(distinct_scores ? sim::WU(0, 1, 1000003) : sim::WU(0, 1, 20));
        p.nlz = sim::WP(1, 8);
        if (sim::WP(1, 12)) p.type = 1 + sim::W(4);
        f.pds.push_back(p);
      }
    }
    if (sim::WP(1, 6)) {
      ref::Obj p;
      p.type = 1 + sim::W(4);
      p.id = fresh++;
      p.box = ref::GenBox(sim::WU(-50, 50), sim::WU(-50, 50), false);
      p.score = static_cast<float>(sim::WU(0, 1, 1000003));
      p.nlz = sim::WP(1, 3);
      f.pds.push_back(p);
    }
    s.frames.push_back(f);
  }
  return s;
}
inline std::vector<Seq> GenSeqs(int max_seq, int max_frames, bool distinct) {
  std::vector<Seq> ss;
  int n = sim::W(max_seq + 1);
  for (int i = 0; i < n; ++i)
    ss.push_back(GenSeq(sim::WP(1, 2) ? sim::StrF("seq_%d", i) : sim::StrF("%c%d-FRONT", (char)('z' - i), i),
                        max_frames, distinct));
  // Sequences share frame ids and object ids freely.
  return ss;
}
inline void Reduce(std::vector<Seq>* ss, int dof) {
  for (auto& s : *ss)
    for (auto& f : s.frames) {
      for (auto& o : f.pds) bridge::Reduce(dof, &o.box);
      for (auto& o : f.gts) bridge::Reduce(dof, &o.box);
    }
}
inline uint64_t HashSeqs(const std::vector<Seq>& ss) {
  uint64_t h = 11;
  for (auto& s : ss) h = (h * 31 + sim::HashStr(s.id)) ^ ref::HashFrames(s.frames);
  return h;
}
inline void LogSeqs(const std::vector<Seq>& ss) {
  for (auto& s : ss) {
    sim::Log("sequence %s", s.id.c_str());
    for (auto& f : s.frames) {
      sim::Log(" frame %lld", (long long)f.id);
      for (auto& o : f.pds) sim::Log("  pd id %lld %s", (long long)o.id, ref::Str(o).c_str());
      for (auto& o : f.gts) sim::Log("  gt id %lld trk%d %s", (long long)o.id, o.trk_level, ref::Str(o).c_str());
    }
  }
}
inline std::vector<float> Cutoffs(const ref::Cfg& c, const std::vector<Seq>& ss) {
  if (!c.cutoffs.empty()) return c.cutoffs;
  std::vector<float> s;
  for (auto& q : ss) for (auto& f : q.frames) for (auto& o : f.pds) s.push_back(o.score);
  return ref::EstimateCutoffs(s, c.desired);
}
inline bool NearCutoff(const std::vector<float>& cut, const std::vector<Seq>& ss) {
  for (auto& q : ss) for (auto& f : q.frames) for (auto& o : f.pds) for (float x : cut)
    if (o.score != x && fabs(o.score - x) < 1e-6) return true;
  return false;
}
inline void Warm() {
  ref::Cfg c;
  c.breakdowns = {{ref::kOneShard, {2}}};
  c.cutoffs = {0.f};
  std::string cfg = bridge::ToConfig(c).SerializeAsString();
  ops::Kernel k("TrackingMetrics", Types(), &cfg);
  Seq s;
  s.id = "w";
  s.frames.resize(1);
  s.frames[0].pds.resize(1);
  s.frames[0].gts.resize(1);
  k.Run(Inputs({s}, 7, sim::kSched));
}
}  // namespace trk
#endif
