// Workload generation for detection/tracking inputs and an independent
// reference model of box overlap, matching and detection accounting.
// Nothing here uses the metrics library.
#ifndef WODSIM_WOD_H_
#define WODSIM_WOD_H_

#include <algorithm>
#include <cmath>
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "rt/sim.h"

namespace ref {

enum BoxType { kBox3D = 1, kBox2D = 2, kBoxAA = 3 };  // Label.Box.Type
struct Box {
  double x = 0, y = 0, z = 0, l = 1, w = 1, h = 1, yaw = 0;
};
struct Obj {
  int64_t id = 0;
  int type = 1;
  Box box;
  float score = 1;
  bool nlz = false;
  int det_level = 1, trk_level = 1;
  double vx = 0, vy = 0;
};
inline double F32(double v) { return static_cast<float>(v); }

// ---------------------------------------------------------------- overlap
struct P2 { double x, y; };
inline std::vector<P2> Corners(const Box& b) {
  double c = cos(b.yaw), s = sin(b.yaw), l = b.l / 2, w = b.w / 2;
  std::vector<P2> out;
  const double sx[] = {1, -1, -1, 1}, sy[] = {1, 1, -1, -1};
  for (int i = 0; i < 4; ++i) {
    double px = sx[i] * l, py = sy[i] * w;
    out.push_back({b.x + px * c - py * s, b.y + px * s + py * c});
  }
  return out;
}
// Sutherland-Hodgman clip of convex a by convex counter-clockwise b.
inline double Overlap2D(const Box& a, const Box& b) {
  std::vector<P2> poly = Corners(a), clip = Corners(b);
  for (int i = 0; i < 4 && !poly.empty(); ++i) {
    P2 p = clip[i], q = clip[(i + 1) % 4];
    auto side = [&](const P2& t) { return (q.x - p.x) * (t.y - p.y) - (q.y - p.y) * (t.x - p.x); };
    std::vector<P2> next;
    for (size_t k = 0; k < poly.size(); ++k) {
      P2 u = poly[k], v = poly[(k + 1) % poly.size()];
      double su = side(u), sv = side(v);
      if (su >= 0) next.push_back(u);
      if ((su > 0 && sv < 0) || (su < 0 && sv > 0)) {
        double t = su / (su - sv);
        next.push_back({u.x + t * (v.x - u.x), u.y + t * (v.y - u.y)});
      }
    }
    poly = next;
  }
  double area = 0;
  for (size_t k = 0; k < poly.size(); ++k) {
    P2 u = poly[k], v = poly[(k + 1) % poly.size()];
    area += u.x * v.y - u.y * v.x;
  }
  return std::max(0.0, area / 2);
}
inline double Interval(double c1, double s1, double c2, double s2) {
  return std::max(0.0, std::min(c1 + s1 / 2, c2 + s2 / 2) - std::max(c1 - s1 / 2, c2 - s2 / 2));
}
inline double IoU(const Box& a, const Box& b, int box_type) {
  double inter, va, vb;
  if (box_type == kBoxAA) {
    inter = Interval(a.x, a.l, b.x, b.l) * Interval(a.y, a.w, b.y, b.w);
    va = a.l * a.w;
    vb = b.l * b.w;
  } else {
    inter = Overlap2D(a, b);
    va = a.l * a.w;
    vb = b.l * b.w;
    if (box_type == kBox3D) {
      inter *= Interval(a.z, a.h, b.z, b.h);
      va *= a.h;
      vb *= b.h;
    }
  }
  double u = va + vb - inter;
  return u <= 1e-6 ? 0 : std::min(1.0, inter / u);
}

// ---------------------------------------------------------------- config
struct Let {
  bool on = false;
  double sx = 0, sy = 0, sz = 0;
  double pct = 0.1, min_m = 0.5;
  int align = 2;
};
struct Cfg {
  std::vector<float> cutoffs;  // empty: estimated
  int desired = 0;
  struct Breakdown { int id; std::vector<int> levels; };
  std::vector<Breakdown> breakdowns;
  int matcher = 1;  // 1 Hungarian, 2 score first
  float iou_thr[5] = {0.5f, 0.5f, 0.5f, 0.5f, 0.5f};
  int box_type = kBox3D;
  float recall_delta = 0.05f;
  float min_precision = 0;
  float min_ha = -1;
  Let let;
};

// Longitudinal-error-tolerant overlap and affinity, from the published text.
inline Box Shifted(Box b, const Let& l) {
  b.x -= l.sx; b.y -= l.sy; b.z -= l.sz;
  return b;
}
inline double Affinity(const Cfg& c, const Box& pd0, const Box& gt0) {
  Box p = Shifted(pd0, c.let), g = Shifted(gt0, c.let);
  double dot = p.x * g.x + p.y * g.y + p.z * g.z;
  double gr = std::max(1e-6, sqrt(g.x * g.x + g.y * g.y + g.z * g.z));
  double tol = std::max((double)(float)c.let.pct * gr, (double)(float)c.let.min_m);
  // signed distance along the line of sight of the ground truth
  double err = fabs(dot / gr - gr) / (float)tol;
  return std::min(1.0, std::max(0.0, 1.0 - err));
}
inline double LetIoU(const Cfg& c, const Box& pd0, const Box& gt0) {
  Box p = Shifted(pd0, c.let), g = Shifted(gt0, c.let);
  double dot = p.x * g.x + p.y * g.y + p.z * g.z;
  double m = dot / std::max(1e-6, p.x * p.x + p.y * p.y + p.z * p.z);
  switch (c.let.align) {
    case 1: m = 1; break;                                  // not aligned
    case 2: break;                                         // range aligned
    case 3: p.x = g.x; p.y = g.y; m = 1; break;            // centre aligned
    case 4: if (!(m >= 0 && m < 1)) m = 1; break;          // only pulled nearer
    case 5: if (m >= 0 && m < 1) m = 1; break;             // only if nearer (any side)
    case 6: m = std::max(m, 1.0); break;                   // between origin and gt
  }
  if (c.let.align != 3) { p.x *= m; p.y *= m; p.z *= m; }
  return IoU(p, g, c.box_type);
}

struct Pair { double iou = 0, la = 1; bool can = false; long weight = 0; };
constexpr double kEps = 2e-5;  // distance to any decision boundary that is "too close"

struct Ambiguous {};  // thrown when rounding could decide

inline Pair Evaluate(const Cfg& c, const Obj& p, const Obj& g) {
  Pair r;
  if (p.type != g.type) {
    r.la = c.let.on ? 0 : 1;
  } else if (c.let.on) {
    r.iou = LetIoU(c, p.box, g.box);
    r.la = Affinity(c, p.box, g.box);
    if (r.la > 0 && r.la < kEps) throw Ambiguous();
    if (r.la == 0) {  // is it clearly zero?
      Cfg wide = c;
      wide.let.pct *= 1.0001; wide.let.min_m *= 1.0001;
      if (Affinity(wide, p.box, g.box) > 0) throw Ambiguous();
    }
  } else {
    r.iou = IoU(p.box, g.box, c.box_type);
  }
  double thr = c.iou_thr[p.type];
  if (fabs(r.iou - thr) < kEps) throw Ambiguous();
  r.can = r.iou > thr && (!c.let.on || r.la > 0);
  r.weight = lround(r.iou * (c.let.on ? r.la : 1.0) * 1e6);
  return r;
}

// Optimal (maximum weight) matching by exhaustive search; throws when a
// different matching is as good up to rounding.
inline std::vector<int> BestMatching(int n, int m, const std::function<const Pair&(int, int)>& pair) {
  std::vector<int> cur(n, -1), best(n, -1);
  std::vector<char> used(m, 0);
  long best_w = -1, second = -1;
  long nodes = 0;
  std::function<void(int, long)> go = [&](int i, long w) {
    if (++nodes > 400000) throw Ambiguous();
    if (i == n) {
      if (w > best_w) {
        second = best_w;
        best_w = w;
        best = cur;
      } else if (w > second) {
        second = w;
      }
      return;
    }
    cur[i] = -1;
    go(i + 1, w);
    for (int j = 0; j < m; ++j) {
      if (used[j] || !pair(i, j).can) continue;
      used[j] = 1;
      cur[i] = j;
      go(i + 1, w + pair(i, j).weight);
      used[j] = 0;
    }
    cur[i] = -1;
  };
  go(0, 0);
  if (second >= 0 && best_w - second < 30) throw Ambiguous();
  return best;
}
inline std::vector<int> GreedyMatching(const std::vector<float>& scores, int m,
                                       const std::function<const Pair&(int, int)>& pair) {
  int n = scores.size();
  std::vector<int> order(n), out(n, -1);
  for (int i = 0; i < n; ++i) order[i] = i;
  std::sort(order.begin(), order.end(), [&](int a, int b) { return scores[a] > scores[b]; });
  std::vector<char> used(m, 0);
  for (int k = 0; k < n; ++k) {
    int i = order[k];
    long bw = -1, sw = -1;
    int bj = -1;
    for (int j = 0; j < m; ++j) {
      if (used[j] || !pair(i, j).can) continue;
      long w = pair(i, j).weight;
      if (w > bw) { sw = bw; bw = w; bj = j; } else if (w > sw) { sw = w; }
    }
    if (bj >= 0) {
      if (sw >= 0 && bw - sw < 30) throw Ambiguous();
      used[bj] = 1;
      out[i] = bj;
    }
    // Equal scores leave the order open; only a problem if they compete.
    if (k + 1 < n && scores[order[k]] == scores[order[k + 1]]) {
      for (int j = 0; j < m; ++j)
        if (pair(order[k], j).can && pair(order[k + 1], j).can) throw Ambiguous();
    }
  }
  return out;
}

// ---------------------------------------------------------------- breakdowns
// ids as in breakdown.proto
enum { kOneShard = 1, kObjectType = 2, kRange = 3, kVelocity = 7, kAllButSign = 8, kSize = 9, kCamera = 10 };
inline int NumShards(int id) {
  switch (id) {
    case kOneShard: return 1;
    case kObjectType: return 4;
    case kRange: return 12;
    case kVelocity: return 20;
    case kAllButSign: return 2;
    case kSize: return 8;
    case kCamera: return 20;
  }
  return 0;
}
inline std::vector<int> FovCameras(const Box& b) {
  static const double centre[] = {0, 45, -45, 90, -90};
  std::vector<int> out;
  double deg = atan2(b.y, b.x) * 180 / M_PI;
  for (int i = 0; i < 5; ++i) {
    double d = fabs(deg - centre[i]);
    if (fabs(d - 25.2) < 1e-9) throw Ambiguous();
    if (d < 25.2) out.push_back(i);
  }
  return out;
}
// The shard an object belongs to (-1: none).
inline int ShardOf(int id, const Obj& o) {
  switch (id) {
    case kOneShard: return 0;
    case kAllButSign: return o.type == 3 ? 1 : 0;
    case kObjectType: return o.type - 1;
    case kRange: {
      double r = sqrt(o.box.x * o.box.x + o.box.y * o.box.y + o.box.z * o.box.z);
      return 3 * (o.type - 1) + (r < 30 ? 0 : r < 50 ? 1 : 2);
    }
    case kSize: return 2 * (o.type - 1) + (std::max(o.box.l, std::max(o.box.w, o.box.h)) < 7 ? 0 : 1);
    case kVelocity: {
      double v = sqrt(o.vx * o.vx + o.vy * o.vy);
      int k = v < (double)0.2f ? 0 : v < 1 ? 1 : v < 3 ? 2 : v < 10 ? 3 : 4;
      return 5 * (o.type - 1) + k;
    }
    case kCamera: {
      auto c = FovCameras(o.box);
      return c.empty() ? -1 : 5 * (o.type - 1) + c[0];
    }
  }
  return -1;
}
inline bool GtOnly(int id) { return id == kVelocity || id == kCamera; }
// Shards in which the object takes part in detection matching.
inline bool TakesPart(int id, int shard, const Obj& o) {
  if (id == kVelocity) return shard / 5 == o.type - 1;
  if (id == kCamera) {
    if (shard / 5 != o.type - 1) return false;
    for (int c : FovCameras(o.box)) if (c == shard % 5) return true;
    return false;
  }
  return ShardOf(id, o) == shard;
}

// ---------------------------------------------------------------- detection
struct DetCount {
  int tp = 0, fp = 0, fn = 0;
  double ha = 0, la = 0;
  void Add(const DetCount& o) { tp += o.tp; fp += o.fp; fn += o.fn; ha += o.ha; la += o.la; }
};
using DetTable = std::vector<std::vector<DetCount>>;  // [breakdown row][cutoff]
struct Row { int id, shard, level; };
inline std::vector<Row> Rows(const Cfg& c) {
  std::vector<Row> out;
  for (const auto& b : c.breakdowns)
    for (int s = 0; s < NumShards(b.id); ++s) {
      if (b.levels.empty()) out.push_back({b.id, s, 2});
      for (int l : b.levels) out.push_back({b.id, s, l});
    }
  return out;
}
inline double HeadingAccuracy(const Obj& p, const Obj& g) {
  double d = fmod(fabs(p.box.yaw - g.box.yaw), 2 * M_PI);
  if (d > M_PI) d = 2 * M_PI - d;
  return std::max(0.0, 1 - d / M_PI);
}
inline DetTable CountFrame(const Cfg& c, const std::vector<float>& cutoffs, std::vector<Obj> pds,
                           const std::vector<Obj>& gts) {
  std::vector<std::vector<Pair>> pr(pds.size(), std::vector<Pair>(gts.size()));
  for (size_t i = 0; i < pds.size(); ++i)
    for (size_t j = 0; j < gts.size(); ++j) pr[i][j] = Evaluate(c, pds[i], gts[j]);
  DetTable out;
  for (const auto& b : c.breakdowns) {
    std::vector<int> levels = b.levels.empty() ? std::vector<int>{2} : b.levels;
    for (int s = 0; s < NumShards(b.id); ++s) {
      std::vector<std::vector<DetCount>> rows(levels.size());
      std::vector<int> gi;
      for (size_t j = 0; j < gts.size(); ++j) if (TakesPart(b.id, s, gts[j])) gi.push_back(j);
      for (float cut : cutoffs) {
        std::vector<int> pi;
        for (size_t i = 0; i < pds.size(); ++i)
          if (TakesPart(b.id, s, pds[i]) && pds[i].score >= cut) pi.push_back(i);
        auto pair = [&](int i, int j) -> const Pair& { return pr[pi[i]][gi[j]]; };
        std::vector<int> m;
        if (c.matcher == 1) {
          m = BestMatching(pi.size(), gi.size(), pair);
        } else {
          std::vector<float> sc;
          for (int i : pi) sc.push_back(pds[i].score);
          m = GreedyMatching(sc, gi.size(), pair);
        }
        std::vector<char> gm(gi.size(), 0);
        for (int j : m) if (j >= 0) gm[j] = 1;
        DetCount base;
        for (size_t i = 0; i < pi.size(); ++i) {
          if (m[i] >= 0) {
            const Obj& g = gts[gi[m[i]]];
            if (GtOnly(b.id) && ShardOf(b.id, g) != s) continue;
            double ha = HeadingAccuracy(pds[pi[i]], g);
            if (fabs(ha - c.min_ha) < kEps) throw Ambiguous();
            if (ha <= c.min_ha) continue;
            base.tp++;
            base.ha += ha;
            base.la += c.let.on ? pair(i, m[i]).la : 1;
          } else if (!pds[pi[i]].nlz) {
            bool excused = false;
            if (GtOnly(b.id)) {
              // Overlaps most with an object that belongs to another shard.
              double best = 0.01;
              int bj = -1;
              for (size_t j = 0; j < gi.size(); ++j) {
                double v = pair(i, j).iou;
                if (v > 0 && fabs(v - best) < kEps) throw Ambiguous();
                if (v >= best) { best = v; bj = j; }
              }
              excused = bj >= 0 && ShardOf(b.id, gts[gi[bj]]) != s;
            }
            if (!excused) base.fp++;
          }
        }
        for (size_t k = 0; k < levels.size(); ++k) {
          DetCount d = base;
          for (size_t j = 0; j < gi.size(); ++j)
            if (!gm[j] && gts[gi[j]].det_level <= levels[k] &&
                (!GtOnly(b.id) || ShardOf(b.id, gts[gi[j]]) == s)) d.fn++;
          rows[k].push_back(d);
        }
      }
      for (auto& r : rows) out.push_back(r);
    }
  }
  return out;
}
// A prediction without a speed of its own takes that of the nearest ground truth.
inline void LendSpeed(const Cfg& c, std::vector<Obj>* pds, const std::vector<Obj>& gts) {
  bool vel = false;
  for (auto& b : c.breakdowns) vel |= b.id == kVelocity;
  if (!vel) return;
  for (Obj& p : *pds) {
    double best = 1e30, second = 1e30;
    p.vx = p.vy = 0;
    for (const Obj& g : gts) {
      double d = hypot(hypot(p.box.x - g.box.x, p.box.y - g.box.y), p.box.z - g.box.z);
      if (d < best) { second = best; best = d; p.vx = g.vx; p.vy = g.vy; } else if (d < second) second = d;
    }
    (void)second;
  }
}
inline void AddTable(DetTable* a, const DetTable& b) {
  if (a->empty()) { *a = b; return; }
  for (size_t i = 0; i < b.size(); ++i)
    for (size_t j = 0; j < b[i].size(); ++j) (*a)[i][j].Add(b[i][j]);
}

// Average precision: area under the interpolated precision/recall curve,
// sampled at most `delta` apart, extended to recall 0 at the best precision.
inline double AveragePrecision(const std::vector<std::pair<float, double>>& rp, float delta) {
  if (rp.empty()) return 0;
  std::map<float, double> curve;
  curve[0.f] = 1;
  for (auto& x : rp) {
    auto it = curve.find(x.first);
    if (it == curve.end()) curve[x.first] = std::max(0.0, x.second);
    else it->second = std::max(it->second, x.second);
  }
  std::vector<std::pair<double, double>> pts;  // recall descending, precision
  double best = 0;
  double last = 0;
  bool first = true;
  for (auto it = curve.rbegin(); it != curve.rend(); ++it) {
    if (!first) {
      float cur = last;
      while (cur - it->first > delta + 1e-6f) {
        cur -= delta;
        pts.push_back({cur, best});
      }
    }
    best = std::max(best, it->second);
    pts.push_back({it->first, best});
    last = it->first;
    first = false;
  }
  if (pts.size() >= 2) pts.back().second = pts[pts.size() - 2].second;
  double ap = 0;
  for (size_t i = 1; i < pts.size(); ++i)
    ap += 0.5 * (pts[i - 1].first - pts[i].first) * (pts[i - 1].second + pts[i].second);
  return ap;
}
struct DetResult {
  double ap, ap_ha, ap_la;
  std::vector<double> p, r, p_ha, p_la;
};
inline DetResult Finish(const Cfg& c, const std::vector<DetCount>& row) {
  DetResult o;
  std::vector<std::pair<float, double>> a, b, d;
  for (const DetCount& m : row) {
    int s = m.tp + m.fp;
    auto prec = [&](double v) {
      if (s <= 0) return 0.0;
      double q = v / s;
      if (c.min_precision > 0 && fabs(q - c.min_precision) < kEps) throw Ambiguous();
      return q < c.min_precision ? 0.0 : q;
    };
    double p = prec(m.tp), ph = prec(m.ha), pl = prec(m.la);
    float r = m.tp + m.fn <= 0 ? 0.f : static_cast<float>(m.tp) / (m.tp + m.fn);
    if (r == 0) p = ph = pl = 1;
    o.p.push_back(p); o.r.push_back(r); o.p_ha.push_back(ph); o.p_la.push_back(pl);
    a.push_back({r, p}); b.push_back({r, ph}); d.push_back({r, pl});
  }
  o.ap = AveragePrecision(a, c.recall_delta);
  o.ap_ha = AveragePrecision(b, c.recall_delta);
  o.ap_la = AveragePrecision(d, c.recall_delta);
  return o;
}

// Score cutoffs when none are configured: quantiles of all scores.
inline std::vector<float> EstimateCutoffs(std::vector<float> s, int want) {
  std::sort(s.begin(), s.end());
  if (want == 1) return {0.f};
  int n = s.size();
  std::vector<float> out;
  if (want >= n) {
    float d = 1.0 / (want - 1);
    for (float v = 0; v < 1.0f; v += d) out.push_back(v);
    if (!out.empty() && 1.0f - out.back() > d * 0.5) out.push_back(1.0f);
    return out;
  }
  out.push_back(s[0]);
  int left = n, at = 0, nb = want - 1;
  for (int i = 0; i < nb; ++i) {
    int sz = left / (nb - i);
    left -= sz;
    at += sz;
    if (i < nb - 1) out.push_back(std::min(1.f, std::max(0.f, s[at])));
  }
  out.push_back(1.f);
  return out;
}

// ---------------------------------------------------------------- generation
struct Frame {
  int64_t id = 0;
  std::vector<Obj> pds, gts;
};

inline Box GenBox(double cx, double cy, bool big) {
  Box b;
  b.x = F32(cx + sim::WU(-1, 1));
  b.y = F32(cy + sim::WU(-1, 1));
  b.z = F32(sim::WU(-0.5, 0.5));
  b.l = F32(sim::WU(1.5, big ? 9 : 5));
  b.w = F32(sim::WU(1, 2.5));
  b.h = F32(sim::WU(1, 2.5));
  b.yaw = F32(sim::WU(-3.1, 3.1));
  return b;
}
inline Box Jitter(Box b, double a) {
  b.x = F32(b.x + sim::WU(-a, a));
  b.y = F32(b.y + sim::WU(-a, a));
  b.z = F32(b.z + sim::WU(-a, a) * 0.3);
  b.l = F32(b.l * (1 + sim::WU(-0.1, 0.1)));
  b.w = F32(b.w * (1 + sim::WU(-0.1, 0.1)));
  b.h = F32(b.h * (1 + sim::WU(-0.1, 0.1)));
  b.yaw = F32(b.yaw + (sim::WP(1, 4) ? M_PI : 0) + sim::WU(-0.3, 0.3));
  return b;
}
// One frame: a few clusters far apart; inside a cluster boxes compete.
inline Frame GenFrame(int64_t id, int max_clusters, bool distinct_scores) {
  Frame f;
  f.id = id;
  int nc = sim::W(max_clusters + 1);
  for (int k = 0; k < nc; ++k) {
    // Clusters on rings so that range and camera breakdowns all get members.
    double ang = sim::WU(-3.1, 3.1), rad = sim::WU(6, 75);
    double cx = rad * cos(ang), cy = rad * sin(ang);
    int type = 1 + sim::W(4);
    bool big = sim::WP(1, 3);
    int ng = sim::W(3), np = sim::W(4);
    std::vector<Obj> g;
    for (int i = 0; i < ng; ++i) {
      Obj o;
      o.type = sim::WP(1, 6) ? 1 + static_cast<int>(sim::W(4)) : type;
      o.box = i == 0 ? GenBox(cx, cy, big) : Jitter(g[0].box, 2.0);
      o.det_level = 1 + sim::W(2);
      o.trk_level = o.det_level;
      double v = sim::WU(0, 14), a = sim::WU(-3, 3);
      if (sim::WP(1, 3)) v = sim::WU(0, 0.3);
      o.vx = F32(v * cos(a));
      o.vy = F32(v * sin(a));
      g.push_back(o);
    }
    for (int i = 0; i < np; ++i) {
      Obj o;
      o.type = sim::WP(1, 6) ? 1 + static_cast<int>(sim::W(4)) : type;
      if (!g.empty() && !sim::WP(1, 5)) {
        const Obj& t = g[sim::W(g.size())];
        o.type = sim::WP(1, 8) ? o.type : t.type;
        o.box = Jitter(t.box, sim::WP(1, 2) ? 0.2 : 1.2);
      } else {
        o.box = GenBox(cx, cy, big);
      }
      o.score = distinct_scores ? static_cast<float>(sim::WU(0, 1, 1000003))
                                : static_cast<float>(sim::WU(0, 1, 20));
      o.nlz = sim::WP(1, 6);
      f.pds.push_back(o);
    }
    for (auto& o : g) f.gts.push_back(o);
  }
  return f;
}
inline Cfg GenCfg(bool need_cutoffs, bool allow_let) {
  Cfg c;
  static const std::vector<int> ids = {kOneShard, kObjectType, kRange, kVelocity, kAllButSign, kSize, kCamera};
  int nb = 1 + sim::W(3);
  for (int i = 0; i < nb; ++i) {
    Cfg::Breakdown b;
    b.id = sim::WPick(ids);
    bool dup = false;
    for (auto& x : c.breakdowns) dup |= x.id == b.id;
    if (dup) continue;
    switch (sim::W(4)) {
      case 0: b.levels = {1, 2}; break;
      case 1: b.levels = {1}; break;
      case 2: b.levels = {2}; break;
      case 3: b.levels = {}; break;
    }
    c.breakdowns.push_back(b);
  }
  if (!need_cutoffs && sim::WP(1, 4)) {
    c.desired = 1 + sim::W(8);
  } else {
    int n = 1 + sim::W(6);
    for (int i = 0; i < n; ++i) c.cutoffs.push_back(static_cast<float>(i) / n);
    if (sim::WP(1, 3)) c.cutoffs.push_back(1.0f);
  }
  c.matcher = sim::WP(1, 3) ? 2 : 1;
  float thr = static_cast<float>(sim::WU(0.2, 0.7, 50));
  for (int t = 0; t < 5; ++t) c.iou_thr[t] = sim::WP(1, 3) ? static_cast<float>(sim::WU(0.1, 0.7, 60)) : thr;
  c.box_type = 1 + sim::W(3);
  c.recall_delta = sim::WP(1, 2) ? 0.05f : static_cast<float>(sim::WU(0.02, 1.0, 98));
  if (sim::WP(1, 4)) c.min_precision = static_cast<float>(sim::WU(0, 0.5, 100));
  if (sim::WP(1, 4)) c.min_ha = static_cast<float>(sim::WU(0, 0.9, 100));
  if (allow_let && sim::WP(1, 4)) {
    c.let.on = true;
    c.box_type = 1 + sim::W(2);
    c.let.sx = sim::WU(-2, 2); c.let.sy = sim::WU(-2, 2); c.let.sz = sim::WU(-1, 2);
    c.let.pct = F32(sim::WU(0.02, 0.2)); c.let.min_m = F32(sim::WU(0.2, 1.5));
    c.let.align = 1 + sim::W(6);
  }
  return c;
}
inline std::vector<int64_t> GenIds(int n) {
  std::vector<int64_t> ids;
  int mode = sim::W(3);
  for (int i = 0; i < n; ++i) {
    int64_t v = mode == 0 ? i : mode == 1 ? 1000000000000ll * sim::WI(-40, 40) + i
                                          : (int64_t)sim::W(200) * 7 - 500;
    while (std::find(ids.begin(), ids.end(), v) != ids.end()) ++v;
    ids.push_back(v);
  }
  return ids;
}
inline uint64_t HashObj(const Obj& o, uint64_t h) {
  double v[] = {(double)o.id, (double)o.type, o.box.x, o.box.y, o.box.z, o.box.l, o.box.w, o.box.h,
                o.box.yaw, o.score, (double)o.nlz, (double)o.det_level, o.vx, o.vy};
  return sim::HashBytes(v, sizeof(v), h);
}
inline uint64_t HashFrames(const std::vector<Frame>& fs) {
  uint64_t h = 7;
  for (auto& f : fs) {
    h = sim::HashBytes(&f.id, 8, h);
    for (auto& o : f.pds) h = HashObj(o, h);
    for (auto& o : f.gts) h = HashObj(o, h * 3);
  }
  return h;
}
inline std::string Str(const Obj& o) {
  return sim::StrF("t%d (%.3f,%.3f,%.3f %.2fx%.2fx%.2f yaw %.3f) s=%.4f nlz=%d lvl=%d v=(%.2f,%.2f)", o.type,
                   o.box.x, o.box.y, o.box.z, o.box.l, o.box.w, o.box.h, o.box.yaw, o.score, o.nlz,
                   o.det_level, o.vx, o.vy);
}
inline void LogFrames(const std::vector<Frame>& fs) {
  for (auto& f : fs) {
    sim::Log("frame %lld: %zu predictions, %zu ground truths", (long long)f.id, f.pds.size(), f.gts.size());
    for (auto& o : f.pds) sim::Log("  pd %s", Str(o).c_str());
    for (auto& o : f.gts) sim::Log("  gt %s", Str(o).c_str());
  }
}
inline void LogCfg(const Cfg& c) {
  std::string b, s;
  for (auto& x : c.breakdowns) {
    b += sim::StrF("%d:", x.id);
    for (int l : x.levels) b += sim::StrF("L%d", l);
    b += " ";
  }
  for (float f : c.cutoffs) s += sim::StrF("%.3f ", f);
  sim::Log("config: breakdowns %scutoffs %sdesired %d matcher %d box %d thr %.2f/%.2f/%.2f/%.2f min_p %.3f min_ha %.3f delta %.3f let %d align %d",
           b.c_str(), s.c_str(), c.desired, c.matcher, c.box_type, c.iou_thr[1], c.iou_thr[2], c.iou_thr[3],
           c.iou_thr[4], c.min_precision, c.min_ha, c.recall_delta, c.let.on, c.let.align);
}
inline bool Near(double a, double b, double tol = 2e-4) {
  return fabs(a - b) <= tol * std::max(1.0, std::max(fabs(a), fabs(b)));
}

}  // namespace ref
#endif
