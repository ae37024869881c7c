// C13: comparing latency results with a submission, on a faulty file system.
#include <cmath>
#include <map>
#include <set>
#include <tuple>

#include "props/tools.h"
#include "props/wod.h"
#include "waymo_open_dataset/protos/metrics.pb.h"
#include "waymo_open_dataset/protos/submission.pb.h"

int wodsim_main_compare_objects_file_to_submission_main(int, char**);

namespace {
namespace co = waymo::open_dataset;

struct Det {
  ref::Box box;
  int type = 1;
  float score = 0.5f;
};
struct FrameKey {
  std::string ctx;
  int64_t ts;
  int cam;
};

co::Object Make(const FrameKey& k, const Det& d, bool is3d) {
  co::Object o;
  auto* b = o.mutable_object()->mutable_box();
  b->set_center_x(d.box.x);
  b->set_center_y(d.box.y);
  b->set_length(d.box.l);
  b->set_width(d.box.w);
  if (is3d) {
    b->set_center_z(d.box.z);
    b->set_height(d.box.h);
    b->set_heading(d.box.yaw);
  }
  o.mutable_object()->set_type(static_cast<co::Label::Type>(d.type));
  o.set_score(d.score);
  o.set_context_name(k.ctx);
  o.set_frame_timestamp_micros(k.ts);
  if (k.cam) o.set_camera_name(static_cast<co::CameraName::Name>(k.cam));
  return o;
}

std::string Pack(const co::Objects& os, int form) {
  if (form == 0) return os.SerializeAsString();
  co::Submission s;
  // Names a team may have; some of them happen to be readable as protobuf.
  static const char* kNames[] = {"my method", "Model", "ensem", "exp01", "A12345678", "m", "run_7"};
  s.set_unique_method_name(kNames[(form - 1) % 7]);
  s.set_account_name("someone@example.com");
  s.set_task(co::Submission::DETECTION_3D);
  *s.mutable_inference_results() = os;
  return s.SerializeAsString();
}

// The decision the tool is to make, from the bytes it is given.
struct Want {
  int ok = 1;  // 1 success, 0 failure, -1 too close to call
  std::string why;
};
bool Parse(const std::string& c, co::Objects* os) {
  co::Objects o;
  if (o.ParseFromString(c) && o.objects_size() > 0) {
    *os = o;
    return true;
  }
  bool plain = o.ParseFromString(c);
  co::Submission s;
  if (s.ParseFromString(c) && (s.has_inference_results() || !plain)) {
    *os = s.inference_results();
    return true;
  }
  *os = o;
  return plain;
}

Want Decide(const std::string& latency, const std::vector<std::string>& shards, double thr, double min_score) {
  Want w;
  auto bad = [&](const std::string& s) { if (w.ok == 1) { w.ok = 0; w.why = s; } };
  co::Objects lat, full;
  if (!Parse(latency, &lat)) bad("the latency results do not parse");
  for (size_t i = 0; i < shards.size(); ++i) {
    co::Objects os;
    if (!Parse(shards[i], &os)) bad(sim::StrF("shard %zu does not parse", i));
    for (const auto& o : os.objects()) *full.add_objects() = o;
  }
  if (w.ok != 1) return w;
  if (lat.objects_size() == 0) {
    bad("there are no latency results");
    return w;
  }
  using Key = std::tuple<std::string, int64_t, int>;
  std::map<Key, std::vector<co::Object>> lm, fm;
  std::set<bool> dims;
  bool odd = false;
  auto sort = [&](const co::Objects& os, std::map<Key, std::vector<co::Object>>* m) {
    for (const auto& o : os.objects()) {
      const auto& b = o.object().box();
      dims.insert(b.has_heading());
      for (double v : {b.center_x(), b.center_y(), b.center_z(), b.length(), b.width(), b.height(), b.heading(),
                       static_cast<double>(o.score())})
        if (!std::isfinite(v) || fabs(v) > 1e5) odd = true;
      if (b.length() < 0.1 || b.width() < 0.1 || (b.has_heading() && b.height() < 0.1)) odd = true;
      if (fabs(o.score() - min_score) < 1e-6 && min_score > 0) odd = true;
      if (o.object().type() <= 0 || o.object().type() > 4) odd = true;
      if (o.score() < min_score) continue;
      (*m)[Key(o.context_name(), o.frame_timestamp_micros(), o.camera_name())].push_back(o);
    }
  };
  sort(lat, &lm);
  sort(full, &fm);
  if (odd || dims.size() > 1) {
    w.ok = -1;
    return w;
  }
  int box_type = *dims.begin() ? ref::kBox3D : ref::kBoxAA;
  auto box = [](const co::Object& o) {
    const auto& b = o.object().box();
    ref::Box r;
    r.x = b.center_x(), r.y = b.center_y(), r.z = b.center_z();
    r.l = b.length(), r.w = b.width(), r.h = b.height(), r.yaw = b.heading();
    return r;
  };
  for (const auto& kv : lm) {
    auto it = fm.find(kv.first);
    if (it == fm.end()) {
      bad("a frame of the latency results is not in the submission");
      continue;
    }
    const auto &l = kv.second, &f = it->second;
    std::vector<std::vector<int>> edges(l.size());
    for (size_t i = 0; i < l.size(); ++i)
      for (size_t j = 0; j < f.size(); ++j) {
        if (l[i].object().type() != f[j].object().type()) continue;
        ref::Box a = box(l[i]), b = box(f[j]);
        if (fabs(a.x - b.x) > 15 || fabs(a.y - b.y) > 15) continue;
        double iou = ref::IoU(a, b, box_type);
        if (fabs(iou - thr) < 0.02) w.ok = -1;
        double ds = fabs(l[i].score() - f[j].score());
        if (iou >= thr - 0.02 && fabs(ds - 0.05) < 0.003) w.ok = -1;
        if (iou >= thr && ds <= 0.05) edges[i].push_back(j);
      }
    if (w.ok == -1) return w;
    std::vector<int> owner(f.size(), -1);
    std::function<bool(int, std::vector<bool>*)> augment = [&](int i, std::vector<bool>* seen) {
      for (int j : edges[i]) {
        if ((*seen)[j]) continue;
        (*seen)[j] = true;
        if (owner[j] < 0 || augment(owner[j], seen)) {
          owner[j] = i;
          return true;
        }
      }
      return false;
    };
    int matched = 0;
    for (size_t i = 0; i < l.size(); ++i) {
      std::vector<bool> seen(f.size());
      matched += augment(i, &seen);
    }
    int unmatched = static_cast<int>(l.size()) - matched +
                    std::max(0, static_cast<int>(f.size()) - static_cast<int>(l.size()));
    if (20 * unmatched > static_cast<int>(l.size()))
      bad(sim::StrF("%d of %zu detections of a frame do not match", unmatched, l.size()));
  }
  return w;
}

void Run() {
  sim::io::EnterScratch();
  bool is3d = sim::W(3) != 2;
  double thr = sim::W(3) ? 0.9 : 0.8;
  double min_score = sim::W(3) == 2 ? 0.25 : 0.0;
  int nf = 1 + sim::W(4);
  co::Objects lat, full;
  std::vector<co::Object> lobjs, fobjs;
  int mode = sim::W(4);  // 0, 1: equal; 2: a few differences; 3: any
  for (int i = 0; i < nf; ++i) {
    FrameKey k{sim::W(2) ? "ctx-a" : "ctx-b", 1000 + i, static_cast<int>(sim::W(3))};
    int n = sim::W(4) == 3 ? 20 + sim::W(25) : 1 + sim::W(8);
    std::vector<Det> ds;
    for (int j = 0; j < n; ++j) {
      Det d;
      d.box.x = 20 * (j % 8) - 60;
      d.box.y = 20 * (j / 8) - 60;
      d.box.z = 1;
      d.box.l = 4, d.box.w = 2, d.box.h = 1.5;
      if (sim::W(3) == 2) d.box.l = 8, d.box.w = 4;
      d.box.yaw = is3d ? 0.5 * sim::W(4) : 0;
      d.type = 1 + sim::W(4);
      d.score = 0.1f + 0.1f * sim::W(9);
      ds.push_back(d);
      if (sim::WP(1, 8)) {  // a second detection of the same thing
        if (sim::W(2)) d.score = d.score > 0.5f ? d.score - 0.3f : d.score + 0.3f;
        else d.type = 1 + d.type % 4;
        ds.push_back(d);
        sim::Probe("two detections in one place");
      }
    }
    std::vector<Det> fs = ds, ls = ds;
    FrameKey lk = k;
    bool in_latency = sim::W(4) != 3;
    if (mode >= 2 && (mode == 3 || sim::W(2))) {
      int times = mode == 2 ? 1 + sim::W(2) : sim::W(5);
      for (int t = 0; t < times; ++t) {
        std::vector<Det>& v = sim::W(2) ? ls : fs;
        if (v.empty()) continue;
        size_t at = sim::W(v.size());
        int what = sim::W(10);
        sim::Log("frame %d: difference %d at %zu", i, what, at);
        switch (what) {
          case 0: v[at].score += v[at].score > 0.5f ? -0.2f : 0.2f; break;
          case 1: v[at].score += 0.02f; break;
          case 2: v[at].type = 1 + v[at].type % 4; break;
          case 3: v[at].box.x += 1; break;
          case 4: v[at].box.x += 0.02; break;
          case 5: v.erase(v.begin() + at); break;
          case 6: {
            Det d = v[at];
            d.box.x += 100 + 20 * t;
            v.push_back(d);
            break;
          }
          case 7: v[at].box.l *= 1.6; break;
          case 8: std::swap(v[at].score, v[sim::W(v.size())].score); break;
          default:
            switch (sim::W(4)) {
              case 0: lk.ts += 1000; break;
              case 1: lk.ctx += "x"; break;
              case 2: lk.cam = (lk.cam + 1) % 4; break;
              default: fs.clear();
            }
        }
      }
    }
    for (const Det& d : fs) fobjs.push_back(Make(k, d, is3d));
    if (in_latency)
      for (const Det& d : ls) lobjs.push_back(Make(lk, d, is3d));
    sim::Log("frame %d (%s %d cam %d): %zu in the submission, %zu in the latency results", i, k.ctx.c_str(),
             static_cast<int>(k.ts), k.cam, fs.size(), in_latency ? ls.size() : 0);
  }
  if (sim::WP(1, 30)) lobjs.clear();
  // Any order of objects, any split into shards.
  auto shuffle = [](std::vector<co::Object>* v) {
    uint64_t r = sim::W(1000);
    if (r == 0) return;
    for (size_t i = v->size(); i > 1; --i) {
      r = r * 6364136223846793005ull + 1442695040888963407ull;
      std::swap((*v)[i - 1], (*v)[(r >> 33) % i]);
    }
  };
  shuffle(&lobjs);
  shuffle(&fobjs);
  int ns = 1 + sim::W(3);
  std::vector<co::Objects> parts(ns);
  for (size_t i = 0; i < fobjs.size(); ++i) *parts[i * ns / std::max<size_t>(1, fobjs.size())].add_objects() = fobjs[i];
  for (const auto& o : lobjs) *lat.add_objects() = o;
  tools::Files fs;
  std::vector<std::string> names;
  fs["latency.bin"] = Pack(lat, sim::W(3) == 2 ? 1 + sim::W(7) : 0);
  for (int i = 0; i < ns; ++i) {
    names.push_back("full" + std::to_string(i));
    fs[names[i]] = Pack(parts[i], sim::W(2) ? 1 + sim::W(7) : 0);
  }
  for (const auto& f : fs) sim::NoteWorkload(sim::HashStr(f.second));
  bool absent = false;
  if (sim::FP(1, 3)) {
    auto f = fs.begin();
    std::advance(f, sim::F(fs.size()));
    if (!tools::Damage(f->first.c_str(), &f->second)) {
      absent = true;
      sim::Log("absent: %s", f->first.c_str());
      fs.erase(f);
    }
  }
  tools::Store(fs);
  Want w;
  if (absent) {
    w.ok = 0;
    w.why = "a file is missing";
  } else {
    std::vector<std::string> shards;
    for (const auto& n : names) shards.push_back(fs[n]);
    w = Decide(fs["latency.bin"], shards, thr, min_score);
  }
  sim::Probe(w.ok == 1 ? "inputs that match" : w.ok == 0 ? "inputs that do not match" : "inputs too close to call");
  if (lobjs.size() >= 2 && w.ok >= 0) sim::Nontrivial();
  std::vector<std::string> order = names;
  int attempts = 1 + sim::F(2);
  for (int a = 0; a <= attempts; ++a) {
    sim::io::Plan plan = a == attempts ? sim::io::Plan() : tools::DrawPlan(false, false, ns + 1);
    std::vector<std::string> shuffled;
    for (int i : sim::Permutation(sim::kFault, ns)) shuffled.push_back(order[i]);
    std::vector<std::string> args = {"compare", "--latency_result_filename=latency.bin",
                                     "--full_result_filenames=" + tools::Join(shuffled),
                                     sim::StrF("--iou_threshold=%g", thr), sim::StrF("--minimum_score=%g", min_score)};
    tools::Result r = sim::io::RunTool(wodsim_main_compare_objects_file_to_submission_main, args, plan);
    tools::Unchanged(fs);
    if (!r.failed()) {
      if (w.ok == 0) sim::Violation("mismatch-passes", "exit status 0, but %s", w.why.c_str());
      if (r.unread) sim::Violation("unread-file-passes", "exit status 0 although a file could not be read");
      sim::Probe("success");
    } else {
      if (w.ok == 1 && r.hard == 0 && r.soft == 0)
        sim::Violation("match-fails", "equal results were not accepted (signal %d, status %d): %.700s", r.sig, r.code,
                       r.err.c_str());
      sim::Probe("failure reported");
    }
  }
}
sim::Register reg("C13", Run);
}  // namespace
