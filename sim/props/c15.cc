// C15: the command-line metric tools, on a faulty file system.
#include <zlib.h>

#include <cmath>
#include <map>
#include <set>
#include <tuple>

#include "props/tools.h"
#include "props/wod.h"
#include "waymo_open_dataset/dataset.pb.h"
#include "waymo_open_dataset/metrics/config_util.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#include "waymo_open_dataset/metrics/segmentation_metrics.h"
#include "waymo_open_dataset/metrics/tracking_metrics.h"
#include "waymo_open_dataset/protos/breakdown.pb.h"
#include "waymo_open_dataset/protos/metrics.pb.h"
#include "waymo_open_dataset/protos/segmentation_metrics.pb.h"

int wodsim_main_compute_detection_metrics_main(int, char**);
int wodsim_main_compute_detection_let_metrics_main(int, char**);
int wodsim_main_compute_tracking_metrics_main(int, char**);
int wodsim_main_compute_segmentation_metrics_main(int, char**);

namespace {
namespace co = waymo::open_dataset;

enum Tool { kDet, kLet, kTrk, kSeg };
const char* kName[] = {"compute_detection_metrics", "compute_detection_let_metrics", "compute_tracking_metrics",
                       "compute_segmentation_metrics"};

// What a tool is to print: name -> numbers.
using Table = std::map<std::string, std::vector<double>>;
Table Read(const std::string& out, Tool t) {
  Table tab;
  size_t p = 0;
  while (p < out.size()) {
    size_t e = out.find('\n', p);
    if (e == std::string::npos) e = out.size();
    std::string l = out.substr(p, e - p);
    p = e + 1;
    std::string name;
    std::vector<double> v;
    if (t == kSeg) {
      size_t c = l.find_first_of(":=");
      if (c == std::string::npos || (l.compare(0, 5, "TYPE_") != 0 && l.compare(0, 5, "miou=") != 0)) continue;
      name = l.substr(0, c);
      v.push_back(atof(l.c_str() + c + 1));
    } else {
      size_t c = l.find(": [");
      if (c == std::string::npos) continue;
      name = l.substr(0, c);
      for (size_t b = c + 2; b < l.size() && l[b] == '[';) {
        size_t sp = l.find(' ', b), q = l.find(']', b);
        if (sp == std::string::npos || q == std::string::npos) break;
        v.push_back(atof(l.c_str() + sp + 1));
        b = q + 2;
      }
    }
    if (tab.count(name)) sim::Violation("line-repeated", "%s is printed twice", name.c_str());
    tab[name] = v;
  }
  return tab;
}

// ------------------------------------------------ the metrics of given content
struct Job {
  Tool tool;
  std::string pd, gt;
} g_job;

co::Config DefaultConfig(Tool t) {
  co::Config c;
  auto add = [&](co::Breakdown::GeneratorId id) {
    c.add_breakdown_generator_ids(id);
    auto* d = c.add_difficulties();
    if (t != kLet) d->add_levels(co::Label::LEVEL_1);
    d->add_levels(co::Label::LEVEL_2);
  };
  add(co::Breakdown::OBJECT_TYPE);
  add(co::Breakdown::RANGE);
  if (t == kLet) add(co::Breakdown::CAMERA);
  c.set_matcher_type(co::MatcherProto::TYPE_HUNGARIAN);
  for (double x : t == kLet ? std::vector<double>{0, 0.5, 0.3, 0.3, 0.3} : std::vector<double>{0, 0.7, 0.5, 0.5, 0.5})
    c.add_iou_thresholds(x);
  c.set_box_type(co::Label::Box::TYPE_3D);
  for (int i = 0; i <= 100; ++i) c.add_score_cutoffs(i * 0.01);
  if (t == kLet) {
    auto* l = c.mutable_let_metric_config();
    l->set_enabled(true);
    l->set_align_type(co::Config::LongitudinalErrorTolerantConfig::TYPE_RANGE_ALIGNED);
    l->set_longitudinal_tolerance_percentage(0.1);
    l->set_min_longitudinal_tolerance_meter(0.5);
    l->mutable_sensor_location()->set_x(1.43);
    l->mutable_sensor_location()->set_y(0);
    l->mutable_sensor_location()->set_z(2.18);
  }
  return c;
}

bool Inflate(const std::string& s, std::string* out) {
  z_stream z{};
  if (inflateInit(&z) != Z_OK) return false;
  z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(s.data()));
  z.avail_in = s.size();
  out->clear();
  char buf[4096];
  int rc = Z_OK;
  while (rc == Z_OK) {
    z.next_out = reinterpret_cast<Bytef*>(buf);
    z.avail_out = sizeof(buf);
    rc = inflate(&z, Z_NO_FLUSH);
    out->append(buf, sizeof(buf) - z.avail_out);
    if (rc == Z_BUF_ERROR) break;
  }
  inflateEnd(&z);
  return rc == Z_STREAM_END;
}

// Runs as a process of its own: damaged content may make the library give up.
// Status 0: metrics printed; 7: no metrics for this content; 8: not decided.
int Reference(int, char**) {
  const Job& j = g_job;
  Table tab;
  if (j.tool == kSeg) {
    co::SegmentationFrameList pd, gt;
    if (!pd.ParseFromString(j.pd) || !gt.ParseFromString(j.gt) || j.gt.empty()) return 7;
    using Key = std::pair<std::string, int64_t>;
    std::map<Key, const co::SegmentationFrame*> pm, gm;
    for (const auto& f : pd.frames())
      if (!pm.insert({{f.context_name(), f.frame_timestamp_micros()}, &f}).second) return 8;
    for (const auto& f : gt.frames())
      if (!gm.insert({{f.context_name(), f.frame_timestamp_micros()}, &f}).second) return 8;
    co::SegmentationMetricsConfig c;
    std::map<int, std::pair<int64_t, int64_t>> cls;  // intersection, union
    for (int v = 1; v <= co::Segmentation::Type_MAX; ++v)
      if (co::Segmentation::Type_IsValid(v)) cls[v] = {0, 0};
    for (const auto& kv : gm) {
      const auto& labels = kv.second->segmentation_labels();
      if (labels.empty()) continue;
      if (labels.size() > 1 || labels[0].name() != co::LaserName::TOP) return 7;
      auto it = pm.find(kv.first);
      bool valid = it != pm.end() && it->second->segmentation_labels().size() == 1 &&
                   it->second->segmentation_labels()[0].name() == co::LaserName::TOP;
      for (int r = 0; r < 2; ++r) {
        auto get = [&](const co::Laser& l, co::MatrixInt32* m) {
          const std::string& z = (r ? l.ri_return2() : l.ri_return1()).segmentation_label_compressed();
          std::string raw;
          if (z.empty()) return 8;
          return Inflate(z, &raw) && m->ParseFromString(raw) ? 0 : 7;
        };
        co::MatrixInt32 g, p;
        if (int rc = get(labels[0], &g)) return rc;
        if (valid) {
          if (int rc = get(it->second->segmentation_labels()[0], &p)) return rc;
          if (p.data_size() != g.data_size()) return 7;
        }
        for (int i = 0; i < g.data_size(); ++i) {
          int a = g.data(i), b = valid ? p.data(i) : 0;
          bool in_a = cls.count(a), in_b = cls.count(b);
          // Points labelled outside the classes count only for the class they
          // should have had.
          if (in_a && in_b && a == b) {
            cls[a].first++;
            cls[a].second++;
          } else {
            if (in_a) cls[a].second++;
            if (in_b && in_a) cls[b].second++;
          }
        }
      }
    }
    double sum = 0;
    for (auto& c : cls) {
      double v = c.second.second > 0 ? 1.0 * c.second.first / c.second.second : 1.0;
      sum += v;
      tab[co::Segmentation::Type_Name(static_cast<co::Segmentation::Type>(c.first))] = {v};
    }
    tab["miou"] = {sum / cls.size()};
  } else {
    co::Objects pd, gt;
    if (!pd.ParseFromString(j.pd) || !gt.ParseFromString(j.gt) || j.gt.empty()) return 7;
    co::Config c = DefaultConfig(j.tool);
    std::vector<std::string> names = co::GetBreakdownNamesFromConfig(c);
    if (j.tool == kTrk) {
      std::map<std::string, std::map<int64_t, std::pair<std::vector<co::Object>, std::vector<co::Object>>>> m;
      for (const auto& o : pd.objects()) m[o.context_name()][o.frame_timestamp_micros()].first.push_back(o);
      for (const auto& o : gt.objects()) m[o.context_name()][o.frame_timestamp_micros()].second.push_back(o);
      std::vector<std::vector<std::vector<co::Object>>> p, g;
      for (const auto& s : m) {
        p.emplace_back();
        g.emplace_back();
        for (const auto& f : s.second) {
          p.back().push_back(f.second.first);
          g.back().push_back(f.second.second);
        }
      }
      auto r = co::ComputeTrackingMetrics(c, p, g);
      for (size_t i = 0; i < r.size(); ++i)
        tab[names[i]] = {r[i].mota(), r[i].motp(), r[i].miss(), r[i].mismatch(), r[i].fp()};
    } else {
      using Key = std::tuple<std::string, int, int64_t>;
      std::map<Key, std::pair<std::vector<co::Object>, std::vector<co::Object>>> m;
      auto key = [](const co::Object& o) {
        return Key(o.context_name(), o.camera_name(), o.frame_timestamp_micros());
      };
      for (const auto& o : pd.objects()) m[key(o)].first.push_back(o);
      for (co::Object o : gt.objects()) {
        auto* l = o.mutable_object();
        int pts = j.tool == kLet ? l->num_top_lidar_points_in_box() : l->num_lidar_points_in_box();
        if (pts <= 0) continue;
        if (!l->has_detection_difficulty_level() || l->detection_difficulty_level() == co::Label::UNKNOWN)
          l->set_detection_difficulty_level(pts <= 5 ? co::Label::LEVEL_2 : co::Label::LEVEL_1);
        if (j.tool == kLet) {
          if (l->most_visible_camera_name().empty()) continue;
          co::CameraName::Name n;
          if (!co::CameraName::Name_Parse(l->most_visible_camera_name(), &n)) return 7;
          *l->mutable_box() = l->camera_synced_box();
        }
        m[key(o)].second.push_back(o);
      }
      std::vector<std::vector<co::Object>> p, g;
      for (const auto& f : m) {
        p.push_back(f.second.first);
        g.push_back(f.second.second);
      }
      auto r = co::ComputeDetectionMetrics(c, p, g);
      for (size_t i = 0; i < r.size(); ++i) {
        tab[names[i]] = {r[i].mean_average_precision(), r[i].mean_average_precision_ha_weighted()};
        if (j.tool == kLet)
          tab[names[i]].insert(tab[names[i]].begin(), r[i].mean_average_precision_longitudinal_affinity_weighted());
      }
    }
  }
  for (const auto& l : tab) {
    printf(j.tool == kSeg ? "%s=" : "%s: ", l.first.c_str());
    for (size_t i = 0; i < l.second.size(); ++i)
      printf(j.tool == kSeg ? "%.9g" : i ? " [v %.9g]" : "[v %.9g]", l.second[i]);
    printf("\n");
  }
  return 0;
}

// ---------------------------------------------------------------- generation
void SetBox(const ref::Box& b, co::Label::Box* o) {
  o->set_center_x(b.x);
  o->set_center_y(b.y);
  o->set_center_z(b.z);
  o->set_length(b.l);
  o->set_width(b.w);
  o->set_height(b.h);
  o->set_heading(b.yaw);
}
struct Place {
  std::string ctx;
  int64_t ts;
  int cam;
};
co::Object Make(const Place& p, const ref::Obj& b, bool gt, Tool t) {
  co::Object o;
  auto* l = o.mutable_object();
  SetBox(b.box, l->mutable_box());
  l->set_type(static_cast<co::Label::Type>(b.type));
  o.set_context_name(p.ctx);
  o.set_frame_timestamp_micros(p.ts);
  if (p.cam) o.set_camera_name(static_cast<co::CameraName::Name>(p.cam));
  if (b.id || t == kTrk) l->set_id(sim::StrF("id%lld", static_cast<long long>(b.id)));
  if (!gt) {
    o.set_score(b.score);
    if (sim::WP(1, 8)) o.set_overlap_with_nlz(true);
    return o;
  }
  const int points[] = {100, 6, 5, 1, 0, -1};
  if (sim::W(12)) l->set_num_lidar_points_in_box(points[sim::W(6)]);
  if (sim::W(12)) l->set_num_top_lidar_points_in_box(points[sim::W(6)]);
  if (sim::WP(1, 3)) l->set_detection_difficulty_level(static_cast<co::Label::DifficultyLevel>(sim::W(3)));
  if (sim::WP(1, 3)) l->set_tracking_difficulty_level(static_cast<co::Label::DifficultyLevel>(1 + sim::W(2)));
  if (t == kLet) {
    static const char* kCams[] = {"FRONT", "FRONT_LEFT", "FRONT_RIGHT", "SIDE_LEFT", "SIDE_RIGHT"};
    if (sim::W(8)) l->set_most_visible_camera_name(sim::WP(1, 40) ? "FRONT-LEFT" : kCams[sim::W(5)]);
    if (sim::W(10)) {
      ref::Box s = b.box;
      s.x += 0.25 * sim::W(8);
      SetBox(s, l->mutable_camera_synced_box());
    }
  }
  return o;
}
std::string Deflate(const std::string& s) {
  uLongf n = compressBound(s.size());
  std::string out(n, 0);
  if (compress(reinterpret_cast<Bytef*>(&out[0]), &n, reinterpret_cast<const Bytef*>(s.data()), s.size()) != Z_OK)
    sim::HarnessError("compress");
  out.resize(n);
  return out;
}

// Objects of different frames in any order, those of one frame in theirs.
template <typename T>
std::vector<T> Interleave(const std::vector<std::vector<T>>& groups) {
  std::vector<T> out;
  std::vector<size_t> at(groups.size(), 0);
  size_t left = 0;
  for (const auto& g : groups) left += g.size();
  bool block = sim::F(2) == 0;
  std::vector<int> order = sim::Permutation(sim::kFault, groups.size());
  if (block) {
    for (int g : order) out.insert(out.end(), groups[g].begin(), groups[g].end());
    return out;
  }
  uint64_t r = 1 + sim::F(1000);
  while (left > 0) {
    r = r * 6364136223846793005ull + 1442695040888963407ull;
    size_t g = (r >> 33) % groups.size();
    while (at[g] == groups[g].size()) g = (g + 1) % groups.size();
    out.push_back(groups[g][at[g]++]);
    --left;
  }
  return out;
}

std::string Label(const std::vector<int>& v, int cols) {
  co::MatrixInt32 m;
  for (int x : v) m.add_data(x);
  m.mutable_shape()->add_dims(v.size() / cols);
  m.mutable_shape()->add_dims(cols);
  return Deflate(m.SerializeAsString());
}

void GenSeg(std::string* pd, std::string* gt) {
  co::SegmentationFrameList p, g;
  std::vector<std::vector<co::SegmentationFrame>> pf, gf;
  int n = 1 + sim::W(4);
  for (int i = 0; i < n; ++i) {
    co::SegmentationFrame f;
    f.set_context_name(sim::W(2) ? "ctx-b" : "ctx-a");
    f.set_frame_timestamp_micros(100 + i);
    int cols = 1 + sim::W(6), count = cols * sim::W(7);
    std::vector<int> a[2], b[2];
    for (int r = 0; r < 2; ++r)
      for (int k = 0; k < count; ++k) {
        int v = sim::WP(1, 3) ? sim::W(23) : 1 + sim::W(3);
        a[r].push_back(v);
        b[r].push_back(sim::WP(1, 4) ? sim::W(23) : v);
      }
    auto frame = [&](std::vector<int>* v) {
      co::SegmentationFrame x = f;
      int lasers = 1;
      for (int q = 0; q < lasers; ++q) {
        auto* l = x.add_segmentation_labels();
        l->set_name(co::LaserName::TOP);
        l->mutable_ri_return1()->set_segmentation_label_compressed(Label(v[0], cols));
        l->mutable_ri_return2()->set_segmentation_label_compressed(Label(v[1], cols));
      }
      return x;
    };
    co::SegmentationFrame x = frame(a), y = frame(b);
    if (sim::WP(1, 10)) x.clear_segmentation_labels();
    else if (sim::WP(1, 40)) x.mutable_segmentation_labels(0)->set_name(co::LaserName::FRONT);
    if (sim::WP(1, 12)) y.clear_segmentation_labels();
    else if (sim::WP(1, 12)) y.mutable_segmentation_labels(0)->set_name(co::LaserName::FRONT);
    else if (sim::WP(1, 12)) *y.add_segmentation_labels() = y.segmentation_labels(0);
    else if (sim::WP(1, 25) && count > cols) {
      b[1].resize(count - cols);
      y.mutable_segmentation_labels(0)->mutable_ri_return2()->set_segmentation_label_compressed(Label(b[1], cols));
    }
    if (sim::W(8)) gf.push_back({x});
    if (sim::W(8)) pf.push_back({y});
  }
  for (const auto& x : Interleave(pf)) *p.add_frames() = x;
  for (const auto& x : Interleave(gf)) *g.add_frames() = x;
  *pd = p.SerializeAsString();
  *gt = g.SerializeAsString();
}

void GenBoxes(Tool t, std::string* pd, std::string* gt) {
  std::vector<std::vector<co::Object>> pg, gg;
  if (t == kTrk) {
    int ns = 1 + sim::W(3);
    for (int s = 0; s < ns; ++s) {
      std::string ctx = sim::StrF("ctx_%d", s);
      int nf = 1 + sim::W(4), no = 1 + sim::W(3);
      std::vector<ref::Obj> act;
      for (int i = 0; i < no; ++i) {
        ref::Obj o;
        double ang = sim::WU(-3.1, 3.1), rad = sim::WU(6, 60);
        o.type = 1 + sim::W(4);
        o.box = ref::GenBox(rad * cos(ang), rad * sin(ang), true);
        o.id = i + 1;
        act.push_back(o);
      }
      // Time stamps with different numbers of digits, and negative ones.
      int64_t ts = sim::W(2) ? 98 : -1;
      std::vector<int> pid(no);
      for (int i = 0; i < no; ++i) pid[i] = 10 + i;
      for (int f = 0; f < nf; ++f) {
        ts += 1 + sim::W(3);
        Place pl{ctx, ts, 0};
        std::vector<co::Object> ps, gs;
        for (int i = 0; i < no; ++i) {
          act[i].box.x += 0.3;
          if (sim::WP(1, 6)) pid[i] += 100;
          if (i && sim::WP(1, 5)) std::swap(pid[i], pid[i - 1]);
          if (sim::W(8)) gs.push_back(Make(pl, act[i], true, t));
          if (sim::W(6)) {
            ref::Obj o = act[i];
            o.id = pid[i];
            o.box = ref::Jitter(o.box, sim::WP(1, 4) ? 1.0 : 0.1);
            o.score = sim::WU(0, 1, 1000);
            ps.push_back(Make(pl, o, false, t));
          }
        }
        pg.push_back(ps);
        gg.push_back(gs);
      }
    }
  } else {
    int n = 1 + sim::W(4);
    std::set<std::tuple<std::string, int64_t, int>> used;
    for (int i = 0; i < n; ++i) {
      Place pl{sim::W(2) ? "b_1" : "b", 100 + static_cast<int64_t>(sim::W(3)), static_cast<int>(sim::W(3))};
      if (!used.insert(std::make_tuple(pl.ctx, pl.ts, pl.cam)).second) continue;
      ref::Frame f = ref::GenFrame(i, 3, sim::W(2));
      std::vector<co::Object> ps, gs;
      for (const auto& o : f.pds) ps.push_back(Make(pl, o, false, t));
      for (const auto& o : f.gts) gs.push_back(Make(pl, o, true, t));
      pg.push_back(ps);
      gg.push_back(gs);
    }
  }
  co::Objects p, g;
  for (const auto& o : Interleave(pg)) *p.add_objects() = o;
  for (const auto& o : Interleave(gg)) *g.add_objects() = o;
  *pd = p.SerializeAsString();
  *gt = g.SerializeAsString();
}

bool Prints(const std::string& out) {
  for (const char* s : {"[mAP", "[LET-", "[MOTA", "miou=", "TYPE_"})
    if (out.find(s) != std::string::npos) return true;
  return false;
}

void Run() {
  sim::io::EnterScratch();
  Tool t = static_cast<Tool>(sim::W(4));
  tools::Files fs;
  if (t == kSeg) GenSeg(&fs["pd.bin"], &fs["gt.bin"]); else GenBoxes(t, &fs["pd.bin"], &fs["gt.bin"]);
  sim::Log("%s: %zu bytes of predictions, %zu of ground truths", kName[t], fs["pd.bin"].size(), fs["gt.bin"].size());
  for (const auto& f : fs) sim::NoteWorkload(sim::HashStr(f.second, 17 + t));
  if (!fs["pd.bin"].empty() && !fs["gt.bin"].empty()) sim::Nontrivial();
  bool absent = false;
  if (sim::FP(2, 5)) {
    std::string name = sim::F(2) ? "gt.bin" : "pd.bin";
    if (!tools::Damage(name.c_str(), &fs[name])) {
      absent = true;
      fs.erase(name);
    }
  }
  tools::Store(fs);
  int want = 7;  // as the status of Reference(); -1: may end in any way
  Table tab;
  if (!absent) {
    g_job = {t, fs["pd.bin"], fs["gt.bin"]};
    tools::Result r = sim::io::RunTool(Reference, {"reference"}, {});
    want = r.sig ? -1 : r.code == 8 ? -1 : r.code;
    if (want == 0) tab = Read(r.out, t);
    for (const auto& l : tab)
      for (double v : l.second)
        if (!std::isfinite(v)) want = -1;
  }
  sim::Probe(want == 0 ? "content with metrics" : want == 7 ? "content without metrics" : "content not decided");
  int attempts = 1 + sim::F(2);
  for (int a = 0; a <= attempts; ++a) {
    sim::io::Plan plan = a == attempts ? sim::io::Plan() : tools::DrawPlan(false, false, 2);
    if (a < attempts && t == kSeg && sim::FP(1, 8)) plan.fail_big_alloc = sim::F(4);
    int (*mains[])(int, char**) = {wodsim_main_compute_detection_metrics_main,
                                   wodsim_main_compute_detection_let_metrics_main,
                                   wodsim_main_compute_tracking_metrics_main,
                                   wodsim_main_compute_segmentation_metrics_main};
    tools::Result r = sim::io::RunTool(mains[t], {kName[t], "pd.bin", "gt.bin"}, plan);
    tools::Unchanged(fs);
    if (r.failed()) {
      sim::Probe("failure reported");
      if (Prints(r.out))
        sim::Violation("metrics-and-failure", "the tool failed (signal %d, status %d) after printing metrics", r.sig,
                       r.code);
      if (want == 0 && r.hard == 0 && r.soft == 0 && !fs["pd.bin"].empty())
        sim::Violation("failure-on-good-input", "readable files, but the tool failed (signal %d, status %d): %.500s",
                       r.sig, r.code, r.err.c_str());
      continue;
    }
    if (r.unread)
      sim::Violation("metrics-of-unread-file", "exit status 0 although a file could not be read");
    if (want == 7)
      sim::Violation("success-on-bad-input", "exit status 0%s, but %s", Prints(r.out) ? " and metrics" : "",
                     absent ? "a file is missing" : "there are no metrics for what is in the files");
    if (want != 0) continue;
    Table got = Read(r.out, t);
    for (const auto& l : tab) {
      auto it = got.find(l.first);
      if (it == got.end()) sim::Violation("metric-missing", "%s is not printed", l.first.c_str());
      if (it->second.size() != l.second.size())
        sim::Violation("metric-missing", "%s: %zu numbers, expected %zu", l.first.c_str(), it->second.size(),
                       l.second.size());
      for (size_t i = 0; i < l.second.size(); ++i)
        if (!(fabs(it->second[i] - l.second[i]) <= 2e-4 * std::max(1.0, fabs(l.second[i]))))
          sim::Violation("wrong-metric", "%s: number %zu is %g, expected %g", l.first.c_str(), i, it->second[i],
                         l.second[i]);
    }
    if (got.size() != tab.size()) sim::Violation("metric-unknown", "%zu lines instead of %zu", got.size(), tab.size());
    sim::Probe("metrics compared");
  }
}
sim::Register reg("C15", Run);
}  // namespace
