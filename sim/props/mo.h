// Motion scenarios: generation, conversion and an independent model of the
// motion metrics. The model shares no code with the repository.
#ifndef WODSIM_MO_H_
#define WODSIM_MO_H_
#include "props/bridge.h"
#include "waymo_open_dataset/metrics/motion_metrics.h"
#include "waymo_open_dataset/protos/motion_metrics.pb.h"
#include "waymo_open_dataset/protos/scenario.pb.h"

namespace mo {
namespace co = waymo::open_dataset;
using ref::Ambiguous;
using ref::F32;

struct State { double x = 0, y = 0, l = 4, w = 2, yaw = 0, vx = 0, vy = 0; bool valid = true; };
struct Agent { int id = 0, type = 1; std::vector<State> s; };
struct Traj { int agent = 0; std::vector<std::pair<float, float>> p; };
struct Joint { float conf = 1; std::vector<Traj> t; };
struct Group { std::vector<int> agents; std::vector<Joint> k; };
struct Scen {
  std::string id;
  std::vector<Agent> agents;
  std::vector<Group> groups;
  bool bad = false;  // cannot be evaluated
};
struct Step { int m; float lat, lon; };
struct Cfg {
  int ts = 10, ps = 10, hist = 1, fut = 4, maxp = 6;
  float lo = 1.4f, hi = 11.f, slo = 0.5f, shi = 1.f;
  std::vector<Step> steps;
  int tp() const { return fut * ps / ts; }
  int tg() const { return hist + fut + 1; }
  int track(int s) const { return (s + 1) * (ts / ps) + hist; }
};
struct Dims { int A = 1, M = 1, K = 1, N = 1; };

inline Cfg GenCfg() {
  Cfg c;
  static const int rate[] = {1, 2, 5};
  int r = rate[sim::W(3)];
  c.ts = 10;
  c.ps = c.ts / r;
  c.hist = sim::W(3);
  c.fut = r * (2 + sim::W(4));
  c.maxp = 1 + sim::W(6);
  int n = 1 + sim::W(3);
  std::vector<int> used;
  for (int i = 0; i < n; ++i) {
    int m = sim::W(c.tp());
    if (std::find(used.begin(), used.end(), m) != used.end()) continue;
    used.push_back(m);
    c.steps.push_back({m, (float)sim::WU(0.5, 3, 25), (float)sim::WU(0.5, 6, 25)});
  }
  return c;
}
inline co::MotionMetricsConfig ToConfig(const Cfg& c) {
  co::MotionMetricsConfig r;
  r.set_track_steps_per_second(c.ts);
  r.set_prediction_steps_per_second(c.ps);
  r.set_track_history_samples(c.hist);
  r.set_track_future_samples(c.fut);
  r.set_speed_lower_bound(c.lo);
  r.set_speed_upper_bound(c.hi);
  r.set_speed_scale_lower(c.slo);
  r.set_speed_scale_upper(c.shi);
  r.set_max_predictions(c.maxp);
  for (auto& s : c.steps) {
    auto* x = r.add_step_configurations();
    x->set_measurement_step(s.m);
    x->set_lateral_miss_threshold(s.lat);
    x->set_longitudinal_miss_threshold(s.lon);
  }
  return r;
}
inline Agent GenAgent(const Cfg& c, int id, bool predicted) {
  Agent a;
  a.id = id;
  static const std::vector<int> types = {1, 2, 3, 1, 2, 3, 1, 4};
  a.type = types[sim::W(types.size())];
  double x = sim::WU(-12, 12, 400), y = sim::WU(-12, 12, 400), yaw = sim::WU(-3.1, 3.1, 400);
  double v = sim::WP(1, 4) ? 0 : sim::WU(0, 14, 400), om = sim::WP(1, 2) ? 0 : sim::WU(-3, 3, 400);
  double l = F32(sim::WU(1, 6, 100)), w = F32(sim::WU(0.5, 2.5, 100)), dt = 1.0 / c.ts;
  // Objects gain or lose speed, skid, and are measured with different sizes.
  double acc = sim::WP(1, 2) ? 0 : sim::WU(-14, 14, 400), skid = sim::WP(3, 4) ? 0 : sim::WU(-0.6, 0.6, 100);
  double grow = sim::WP(2, 3) ? 0 : sim::WU(-0.1, 0.2, 60);
  for (int t = 0; t < c.tg(); ++t) {
    State s;
    s.x = F32(x); s.y = F32(y); s.yaw = F32(remainder(yaw, 2 * M_PI)); s.l = F32(l * exp(grow * t)); s.w = F32(w * exp(grow * t));
    s.vx = F32(v * cos(yaw + skid)); s.vy = F32(v * sin(yaw + skid));
    a.s.push_back(s);
    v = std::max(0.0, v + acc * dt * 3);
    // Time is stretched so that a few steps cover manoeuvres.
    x += v * cos(yaw) * dt * 3; y += v * sin(yaw) * dt * 3; yaw += om * dt * 3;
  }
  switch (sim::W(6)) {
    case 1: { int k = sim::W(c.tg()); for (int t = 0; t < k; ++t) a.s[t].valid = false; break; }
    case 2: { int k = sim::W(c.tg()); for (int t = k + 1; t < c.tg(); ++t) a.s[t].valid = false; break; }
    case 3: for (auto& s : a.s) s.valid = !sim::WP(1, 4); break;
    default: break;
  }
  bool any = false;
  for (auto& s : a.s) any |= s.valid;
  if (!any) a.s[c.hist].valid = true;
  (void)predicted;
  return a;
}
inline Scen GenScen(const Cfg& c, const Dims& d, const std::string& id) {
  Scen s;
  s.id = id;
  int na = 1 + sim::W(d.A);
  std::vector<int> ids;
  int mode = sim::W(3);
  for (int i = 0; i < na; ++i) {
    int v = mode == 0 ? i : mode == 1 ? 1000 + (int)sim::W(100000) : na - 1 - i + (int)sim::W(3);
    while (std::find(ids.begin(), ids.end(), v) != ids.end()) ++v;
    ids.push_back(v);
    s.agents.push_back(GenAgent(c, v, true));
  }
  int ng = 1 + sim::W(d.M);
  for (int g = 0; g < ng; ++g) {
    Group q;
    int n = 1 + sim::W(std::min(d.N, na));
    std::vector<int> pick;
    for (int i = 0; i < na; ++i) pick.push_back(i);
    for (int i = 0; i < n; ++i) std::swap(pick[i], pick[i + sim::W(na - i)]);
    pick.resize(n);
    q.agents = pick;
    std::vector<float> confs;
    for (int k = 0; k < d.K; ++k) {
      Joint j;
      j.conf = (float)sim::WU(0, 1, 100003);
      while (std::find(confs.begin(), confs.end(), j.conf) != confs.end()) j.conf += 0.01f;
      confs.push_back(j.conf);
      for (int a : pick) {
        Traj t;
        t.agent = a;
        bool good = sim::WP(1, 2);
        double ox = good ? sim::WU(-0.4, 0.4, 200) : sim::WU(-5, 5, 200);
        double oy = good ? sim::WU(-0.4, 0.4, 200) : sim::WU(-5, 5, 200);
        double grow = sim::WU(0.6, 1.4, 100);
        const State& z = s.agents[a].s[c.hist];
        for (int i = 0; i < c.tp(); ++i) {
          const State& g = s.agents[a].s[c.track(i)];
          t.p.push_back({(float)(z.x + (g.x - z.x) * grow + ox), (float)(z.y + (g.y - z.y) * grow + oy)});
        }
        j.t.push_back(t);
      }
      q.k.push_back(j);
    }
    s.groups.push_back(q);
  }
  // States that are not valid hold anything, most often nothing.
  if (sim::WP(1, 2))
    for (auto& a : s.agents)
      for (auto& z : a.s)
        if (!z.valid) z = State{-1, -1, 0, 0, 0, 0, 0, false};
  return s;
}
inline uint64_t Hash(const Scen& s, uint64_t h = 11) {
  h = sim::HashStr(s.id, h);
  for (auto& a : s.agents) {
    h = sim::HashBytes(&a.id, 8, h);
    for (auto& t : a.s) { double v[] = {t.x, t.y, t.yaw, t.vx, (double)t.valid, t.l}; h = sim::HashBytes(v, sizeof v, h); }
  }
  for (auto& g : s.groups) for (auto& k : g.k) {
    h = sim::HashBytes(&k.conf, 4, h);
    for (auto& t : k.t) { h = sim::HashBytes(&t.agent, 4, h); h = sim::HashBytes(t.p.data(), t.p.size() * 8, h); }
  }
  return h;
}
inline void LogScen(const Scen& s) {
  sim::Log("scenario %s%s: %zu agents, %zu prediction groups", s.id.c_str(), s.bad ? " (bad)" : "", s.agents.size(), s.groups.size());
  for (auto& a : s.agents) {
    std::string v;
    for (auto& t : a.s) v += t.valid ? '1' : '0';
    sim::Log("  agent %d type %d valid %s from (%.2f,%.2f) to (%.2f,%.2f) size %.1fx%.1f speed %.2f", a.id, a.type, v.c_str(),
             a.s.front().x, a.s.front().y, a.s.back().x, a.s.back().y, a.s[0].l, a.s[0].w, hypot(a.s[0].vx, a.s[0].vy));
  }
  for (auto& g : s.groups) {
    std::string b;
    for (int i : g.agents) b += sim::StrF("%d ", s.agents[i].id);
    sim::Log("  group of agents %s", b.c_str());
    for (auto& k : g.k) {
      std::string q;
      for (auto& t : k.t) q += sim::StrF(" (%.2f,%.2f)->(%.2f,%.2f)", t.p[0].first, t.p[0].second, t.p.back().first, t.p.back().second);
      sim::Log("    conf %.5f%s", k.conf, q.c_str());
    }
  }
}
inline void LogCfg(const Cfg& c) {
  std::string s;
  for (auto& x : c.steps) s += sim::StrF(" %d(%.2f/%.2f)", x.m, x.lat, x.lon);
  sim::Log("config: %d/%d steps per second, %d history, %d future, top %d, steps%s", c.ts, c.ps, c.hist, c.fut, c.maxp, s.c_str());
}

// ---- to the library's messages
inline co::Scenario ToScenario(const Scen& s) {
  co::Scenario r;
  r.set_scenario_id(s.id);
  for (auto& a : s.agents) {
    auto* t = r.add_tracks();
    t->set_id(a.id);
    t->set_object_type(static_cast<co::Track::ObjectType>(a.type));
    for (auto& x : a.s) {
      auto* q = t->add_states();
      q->set_center_x(x.x); q->set_center_y(x.y);
      q->set_length(x.l); q->set_width(x.w); q->set_heading(x.yaw);
      q->set_velocity_x(x.vx); q->set_velocity_y(x.vy);
      q->set_valid(x.valid);
    }
  }
  for (auto& g : s.groups) for (int a : g.agents) r.add_tracks_to_predict()->set_track_index(a);
  return r;
}
inline co::ScenarioPredictions ToPredictions(const Scen& s) {
  co::ScenarioPredictions r;
  r.set_scenario_id(s.id);
  for (auto& g : s.groups) {
    auto* m = r.add_multi_modal_predictions();
    for (auto& k : g.k) {
      auto* j = m->add_joint_predictions();
      j->set_confidence(k.conf);
      for (auto& t : k.t) {
        auto* q = j->add_trajectories();
        q->set_object_id(s.agents[t.agent].id);
        for (auto& p : t.p) { q->add_center_x(p.first); q->add_center_y(p.second); }
      }
    }
  }
  return r;
}

// ---- to the op's tensors. Agents and groups sit in drawn slots; unused slots
// hold values that must not be looked at.
inline std::vector<tensorflow::Tensor> Inputs(const Cfg& c, const Dims& d, const std::vector<const Scen*>& batch,
                                              sim::Stream st) {
  using namespace tensorflow;
  const int64_t B = batch.size(), TP = c.tp(), TG = c.tg();
  std::vector<float> traj(B * d.M * d.K * d.N * TP * 2, 7.7e8f), score(B * d.M * d.K, 55.f),
      gt(B * d.A * TG * 7, -3.3e8f);
  std::vector<char> valid(B * d.A * TG, 0), mask(B * d.M * d.N, 0);
  std::vector<int64_t> idx(B * d.M * d.N, -1), type(B * d.A, 3), oid(B * d.A, 123456789);
  std::vector<std::string> sid;
  for (int64_t b = 0; b < B; ++b) {
    const Scen& s = *batch[b];
    sid.push_back(s.id);
    // Slots keep the order of agents and groups.
    auto slots = [&](int n, int of) {
      std::vector<int> r;
      int extra = of - n, at = 0;
      for (int i = 0; i < n; ++i) {
        int skip = extra ? sim::Draw(st, extra + 1) : 0;
        extra -= skip;
        at += skip;
        r.push_back(at++);
      }
      return r;
    };
    std::vector<int> as = slots(s.agents.size(), d.A), gs = slots(s.groups.size(), d.M);
    for (size_t i = 0; i < s.agents.size(); ++i) {
      const Agent& a = s.agents[i];
      int64_t at = b * d.A + as[i];
      type[at] = a.type;
      oid[at] = a.id;
      for (int t = 0; t < TG; ++t) {
        const State& x = a.s[t];
        float* p = &gt[(at * TG + t) * 7];
        p[0] = x.x; p[1] = x.y; p[2] = x.l; p[3] = x.w; p[4] = x.yaw; p[5] = x.vx; p[6] = x.vy;
        valid[at * TG + t] = x.valid;
      }
    }
    for (size_t g = 0; g < s.groups.size(); ++g) {
      const Group& q = s.groups[g];
      std::vector<int> ns = slots(q.agents.size(), d.N);
      for (size_t n = 0; n < q.agents.size(); ++n) {
        int64_t at = (b * d.M + gs[g]) * d.N + ns[n];
        mask[at] = 1;
        idx[at] = as[q.agents[n]];
        for (int k = 0; k < d.K; ++k)
          for (int t = 0; t < TP; ++t) {
            float* p = &traj[((((b * d.M + gs[g]) * d.K + k) * d.N + ns[n]) * TP + t) * 2];
            p[0] = q.k[k].t[n].p[t].first;
            p[1] = q.k[k].t[n].p[t].second;
          }
      }
      for (int k = 0; k < d.K; ++k) score[(b * d.M + gs[g]) * d.K + k] = q.k[k].conf;
    }
  }
  return {ops::Make<float>(DT_FLOAT, {B, d.M, d.K, d.N, TP, 2}, traj),
          ops::Make<float>(DT_FLOAT, {B, d.M, d.K}, score),
          ops::Make<float>(DT_FLOAT, {B, d.A, TG, 7}, gt),
          ops::MakeBool({B, d.A, TG}, valid),
          ops::Make<int64_t>(DT_INT64, {B, d.M, d.N}, idx),
          ops::MakeBool({B, d.M, d.N}, mask),
          ops::Make<int64_t>(DT_INT64, {B, d.A}, type),
          ops::Make<int64_t>(DT_INT64, {B, d.A}, oid),
          ops::MakeStr({B}, sid)};
}
inline std::vector<tensorflow::DataType> Types() {
  using namespace tensorflow;
  return {DT_FLOAT, DT_FLOAT, DT_FLOAT, DT_BOOL, DT_INT64, DT_BOOL, DT_INT64, DT_INT64, DT_STRING};
}

// ---- the model
struct Acc {
  double sum = 0;
  int n = 0;
  void Add(double v) { sum += v; ++n; }
  void Add(const Acc& o) { sum += o.sum; n += o.n; }
  double Mean() const { return n ? sum / n : 0; }
};
struct Bucket {
  std::vector<std::pair<float, bool>> hard, soft;
  int n = 0;
};
struct Stat {
  Acc ade, fde, miss, overlap;
  std::map<int, Bucket> buckets;
};
using Stats = std::map<int, std::map<int, Stat>>;  // type, step
inline void AddStats(Stats* a, const Stats& b) {
  for (auto& t : b) for (auto& s : t.second) {
    Stat& x = (*a)[t.first][s.first];
    x.ade.Add(s.second.ade); x.fde.Add(s.second.fde); x.miss.Add(s.second.miss); x.overlap.Add(s.second.overlap);
    for (auto& q : s.second.buckets) {
      Bucket& y = x.buckets[q.first];
      y.hard.insert(y.hard.end(), q.second.hard.begin(), q.second.hard.end());
      y.soft.insert(y.soft.end(), q.second.soft.begin(), q.second.soft.end());
      y.n += q.second.n;
    }
  }
}
inline void Clear(double v, double thr, double eps = 1e-4) { if (fabs(v - thr) < eps) throw Ambiguous(); }

// Shape of the future path: 0 stationary .. 7, or -1 when unknown.
enum { kStationary, kStraight, kStraightRight, kStraightLeft, kRight, kLeft, kLeftU, kRightU };
inline int Shape(const Cfg& c, const Agent& a) {
  int last = -1;
  for (int t = c.tg() - 1; t > c.hist && last < 0; --t) if (a.s[t].valid) last = t;
  if (last < 0 || !a.s[c.hist].valid) return -1;
  const State &p = a.s[c.hist], &q = a.s[last];
  double dist = hypot(q.x - p.x, q.y - p.y);
  double turn = remainder(q.yaw - p.yaw, 2 * M_PI);
  double speed = std::max(hypot(p.vx, p.vy), hypot(q.vx, q.vy));
  double lon = (q.x - p.x) * cos(p.yaw) + (q.y - p.y) * sin(p.yaw);
  double lat = -(q.x - p.x) * sin(p.yaw) + (q.y - p.y) * cos(p.yaw);
  Clear(dist, 3); Clear(speed, 2);
  if (speed < 2 && dist < 3) return kStationary;
  Clear(fabs(turn), M_PI / 6); Clear(fabs(turn), M_PI);
  if (fabs(turn) < M_PI / 6) {
    Clear(fabs(lat), 2.5);
    if (fabs(lat) < 2.5) return kStraight;
    return lat < 0 ? kStraightRight : kStraightLeft;
  }
  Clear(lat, 0); Clear(lon, 0);
  if (lat < 0) return lon < 0 ? kRightU : kRight;
  return lon < 0 ? kLeftU : kLeft;
}
inline bool Overlaps(ref::Box a, ref::Box b) {
  double v = ref::Overlap2D(a, b);
  if (v > 1e-3) return true;
  a.l += 2e-3; a.w += 2e-3;
  if (ref::Overlap2D(a, b) > 0) throw Ambiguous();
  return false;
}
inline int TypePriority(int t) { static const int p[] = {0, 2, 3, 4, 1}; return p[t]; }

inline Stats Model(const Cfg& c, const Scen& s) {
  Stats out;
  for (auto& g : s.groups) {
    int type = 0, shape = kStationary;
    bool known = false;
    for (int a : g.agents) {
      if (TypePriority(s.agents[a].type) > TypePriority(type)) type = s.agents[a].type;
      int h = Shape(c, s.agents[a]);
      if (h >= 0) { known = true; shape = std::max(shape, h); }
    }
    if (shape == kRightU) shape = kRight;
    int K = std::min<int>(g.k.size(), c.maxp);
    for (auto& st : c.steps) {
      Stat& x = out[type][st.m];
      double best_ade = 1e300, best_fde = 1e300;
      bool any = false, hit = false;
      std::vector<std::pair<float, int>> match;  // confidence, 1/0
      for (int k = 0; k < K; ++k) {
        double ade = 0, fde = 0;
        bool ade_ok = true, fde_ok = true, ok = true;
        for (auto& t : g.k[k].t) {
          const Agent& a = s.agents[t.agent];
          double sum = 0;
          int n = 0;
          for (int i = 0; i <= st.m; ++i) {
            const State& z = a.s[c.track(i)];
            if (z.valid) { sum += hypot(t.p[i].first - z.x, t.p[i].second - z.y); ++n; }
          }
          if (n) ade += sum / n; else ade_ok = false;
          const State& z = a.s[c.track(st.m)];
          if (!z.valid) { fde_ok = false; continue; }
          double ex = t.p[st.m].first - z.x, ey = t.p[st.m].second - z.y;
          fde += hypot(ex, ey);
          double v = hypot(a.s[c.hist].vx, a.s[c.hist].vy), f;
          f = v < c.lo ? c.slo : v > c.hi ? c.shi : c.slo + (c.shi - c.slo) * (v - c.lo) / (c.hi - c.lo);
          double lon = fabs(ex * cos(z.yaw) + ey * sin(z.yaw)) / f, lat = fabs(-ex * sin(z.yaw) + ey * cos(z.yaw)) / f;
          Clear(v, c.lo); Clear(v, c.hi);
          Clear(lat, st.lat); Clear(lon, st.lon);
          if (lat > st.lat || lon > st.lon) ok = false;
        }
        if (ade_ok) best_ade = std::min(best_ade, ade / g.k[k].t.size());
        if (fde_ok) {
          best_fde = std::min(best_fde, fde / g.k[k].t.size());
          any = true;
          hit |= ok;
          match.push_back({g.k[k].conf, ok});
        }
      }
      if (best_ade < 1e300) x.ade.Add(best_ade);
      if (best_fde < 1e300) x.fde.Add(best_fde);
      if (any) x.miss.Add(hit ? 0 : 1);
      // Overlap of the most confident prediction with anything present now.
      int top = 0;
      for (int k = 1; k < K; ++k) if (g.k[k].conf > g.k[top].conf) top = k;
      bool over = false;
      for (auto& t : g.k[top].t)
        for (int i = 0; i <= st.m && !over; ++i) {
          auto ang = [&](int p, int q) { return atan2(t.p[q].second - t.p[p].second, t.p[q].first - t.p[p].first); };
          // A still object has no direction of its own.
          int n = t.p.size();
          double h;
          if (i == 0) h = ang(0, 1);
          else if (i == n - 1) h = ang(n - 2, n - 1);
          else {
            double a = ang(i, i + 1), b = ang(i - 1, i);
            if (hypot(sin(a) + sin(b), cos(a) + cos(b)) < 1e-2) throw Ambiguous();
            h = atan2(sin(a) + sin(b), cos(a) + cos(b));
          }
          const State& me = s.agents[t.agent].s[c.track(i)];
          ref::Box mine;
          mine.x = t.p[i].first; mine.y = t.p[i].second; mine.l = me.l; mine.w = me.w; mine.yaw = h;
          for (auto& o : s.agents) {
            const State& z = o.s[c.track(i)];
            if (o.id == s.agents[t.agent].id || !o.s[c.hist].valid || !z.valid) continue;
            ref::Box other;
            other.x = z.x; other.y = z.y; other.l = z.l; other.w = z.w; other.yaw = z.yaw;
            if (Overlaps(mine, other)) over = true;
          }
        }
      x.overlap.Add(over ? 1 : 0);
      if (!known) continue;
      std::sort(match.begin(), match.end(), [](auto& a, auto& b) { return a.first > b.first; });
      for (size_t i = 1; i < match.size(); ++i) if (match[i].first == match[i - 1].first) throw Ambiguous();
      Bucket& b = x.buckets[shape];
      bool found = false;
      for (auto& m : match) {
        b.hard.push_back({m.first, m.second && !found});
        if (!(m.second && found)) b.soft.push_back({m.first, m.second});
        found |= m.second;
      }
      if (!match.empty()) b.n++;
    }
  }
  return out;
}
inline double Ap(std::vector<std::pair<float, bool>> v, int n) {
  std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first != b.first ? a.first > b.first : a.second < b.second; });
  std::vector<double> prec;
  int tp = 0;
  for (size_t i = 0; i < v.size(); ++i) { tp += v[i].second; prec.push_back((double)tp / (i + 1)); }
  double ap = 0, best = 0;
  for (int i = (int)v.size() - 1; i >= 0; --i) {
    best = std::max(best, prec[i]);
    if (v[i].second) ap += best / n;
  }
  return ap;
}
struct Row { double ade, fde, miss, overlap, map, soft; };
inline Row Finish(const Stat& s) {
  Row r{s.ade.Mean(), s.fde.Mean(), s.miss.Mean(), s.overlap.Mean(), 0, 0};
  int n = 0, m = 0;
  for (auto& b : s.buckets) {
    if (!b.second.hard.empty()) { r.map += Ap(b.second.hard, b.second.n); ++n; }
    if (!b.second.soft.empty()) { r.soft += Ap(b.second.soft, b.second.n); ++m; }
  }
  if (n) r.map /= n;
  if (m) r.soft /= m;
  return r;
}
using Table = std::map<std::pair<int, int>, Row>;
inline Table Finish(const Stats& s) {
  Table t;
  for (auto& a : s) for (auto& b : a.second) t[{a.first, b.first}] = Finish(b.second);
  return t;
}
inline bool ModelTable(const Cfg& c, const std::vector<const Scen*>& ss, Table* t) {
  Stats sum;
  try {
    for (auto* s : ss) AddStats(&sum, Model(c, *s));
  } catch (Ambiguous&) {
    sim::Probe("model: ambiguous, skipped");
    return false;
  }
  sim::Probe("model: compared");
  *t = Finish(sum);
  return true;
}
inline Table FromMetrics(const co::MotionMetrics& m) {
  Table t;
  for (auto& b : m.metrics_bundles()) {
    std::pair<int, int> k = {b.has_object_filter() ? (int)b.object_filter() : 0, b.measurement_step()};
    if (t.count(k)) sim::Violation("duplicate-bundle", "two bundles for type %d step %d", k.first, k.second);
    t[k] = {b.min_ade(), b.min_fde(), b.miss_rate(), b.overlap_rate(), b.mean_average_precision(),
            b.soft_mean_average_precision()};
  }
  return t;
}
inline void CompareRow(int type, int step, const Row& a, const Row& b, const char* what, bool soft = true) {
  const double x[] = {a.ade, a.fde, a.miss, a.overlap, a.map, a.soft}, y[] = {b.ade, b.fde, b.miss, b.overlap, b.map, b.soft};
  static const char* n[] = {"min_ade", "min_fde", "miss_rate", "overlap_rate", "map", "soft_map"};
  for (int i = 0; i < (soft ? 6 : 5); ++i)
    if (!ref::Near(x[i], y[i]))
      sim::Violation(sim::StrF("%s-vs-%s", n[i], what).c_str(), "type %d step %d: %s is %.7g, expected %.7g", type, step,
                     n[i], x[i], y[i]);
}
inline void CompareTables(const Table& got, const Table& want, const char* what) {
  for (auto& w : want) {
    auto it = got.find(w.first);
    if (it == got.end())
      sim::Violation(sim::StrF("missing-bundle-vs-%s", what).c_str(), "no metrics for type %d step %d", w.first.first, w.first.second);
    CompareRow(w.first.first, w.first.second, it->second, w.second, what);
  }
  if (got.size() != want.size())
    sim::Violation(sim::StrF("extra-bundle-vs-%s", what).c_str(), "%zu bundles, expected %zu", got.size(), want.size());
}
// Every scenario alone, one after the other.
inline Table Serial(const Cfg& c, const std::vector<const Scen*>& ss) {
  co::BucketedMetricsStats sum;
  for (auto* s : ss) {
    co::BucketedMetricsStats one;
    co::Status st = co::ComputeMetricsStats(ToConfig(c), ToPredictions(*s), ToScenario(*s), &one);
    if (!st.ok()) sim::Violation("valid-scenario-rejected", "%s", std::string(st.message()).c_str());
    sum.Accumulate(one);
  }
  return FromMetrics(co::ComputeMotionMetrics(&sum));
}
inline void CompareOp(const Cfg& c, const ops::Result& r, const Table& want, const char* what) {
  if (r.out.size() != 5) sim::Violation("wrong-shape", "%zu outputs", r.out.size());
  for (auto& t : r.out)
    if (t.NumElements() != (int64_t)(3 * c.steps.size())) sim::Violation("wrong-shape", "output has %lld elements", (long long)t.NumElements());
  int i = 0;
  for (int type = 1; type <= 3; ++type)
    for (auto& s : c.steps) {
      auto v = [&](int k) { return (double)r.out[k].flat<float>()(i); };
      Row got{v(0), v(1), v(2), v(3), v(4), 0};
      auto it = want.find({type, s.m});
      Row w = it == want.end() ? Row{-1, -1, -1, -1, -1, 0} : it->second;
      CompareRow(type, s.m, got, w, what, false);
      ++i;
    }
}
inline void Warm() {
  Cfg c;
  c.steps = {{0, 1, 1}};
  std::string cfg = ToConfig(c).SerializeAsString();
  ops::Kernel k("MotionMetrics", Types(), &cfg);
  Scen s;
  s.id = "w";
  s.agents.resize(1);
  s.agents[0].s.resize(c.tg());
  Group g;
  g.agents = {0};
  Joint j;
  Traj t;
  t.p.resize(c.tp());
  j.t = {t};
  g.k = {j};
  s.groups = {g};
  Dims d;
  if (k.ok()) k.Run(Inputs(c, d, {&s}, sim::kSched));
}
}  // namespace mo
#endif
