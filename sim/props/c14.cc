// C14: packing predictions into a submission, on a faulty file system.
#include <google/protobuf/text_format.h>

#include <cmath>
#include <limits>

#include "props/tools.h"
#include "waymo_open_dataset/protos/metrics.pb.h"
#include "waymo_open_dataset/protos/submission.pb.h"

int wodsim_main_create_submission(int, char**);

namespace {
namespace co = waymo::open_dataset;

std::string Text(int max) {
  static const char* kBytes = "ab\n\r\t \"'\\{}\x7f,0#";
  std::string s;
  int n = sim::W(max + 1);
  for (int i = 0; i < n; ++i) s += kBytes[sim::W(16) % 15];
  return s;
}

co::Object GenObject(uint64_t k) {
  co::Object o;
  auto* b = o.mutable_object()->mutable_box();
  auto coord = [&](int i) {
    double v = static_cast<double>((k * 7919 + i * 104729) % 20011) / 64 - 150;
    return v;
  };
  b->set_center_x(coord(0));
  b->set_center_y(coord(1));
  if (sim::W(4)) b->set_center_z(coord(2));
  const double sizes[] = {4.5, 1.0, 0.25, 1e-6, 1e-9, 0, -1, 1e-7};
  b->set_length(sizes[sim::W(8)]);
  b->set_width(sizes[sim::W(8)]);
  b->set_height(sizes[sim::W(8)]);
  if (sim::W(4)) b->set_heading(coord(3) / 100);
  const float scores[] = {0.5f, 0.031f, 0.0299f, 0.01f, 0.0f, 1.0f, 0.9f, 0.04f, 0.02f};
  if (sim::W(12)) o.set_score(scores[sim::W(9)]);
  if (sim::WP(1, 8)) {
    double nan = std::numeric_limits<double>::quiet_NaN();
    switch (sim::W(7)) {
      case 0: b->set_length(nan); break;
      case 1: b->set_width(nan); break;
      case 2: b->set_height(nan); break;
      case 3: b->set_center_x(nan); break;
      case 4: b->set_center_y(nan); break;
      case 5: b->set_center_z(nan); break;
      default: b->set_heading(nan);
    }
  }
  if (sim::WP(1, 40)) o.mutable_object()->clear_box();
  if (sim::W(3)) o.mutable_object()->set_id(Text(6));
  o.mutable_object()->set_type(static_cast<co::Label::Type>(1 + sim::W(4)));
  if (sim::WP(1, 4)) o.set_overlap_with_nlz(sim::W(2));
  if (sim::W(8)) o.set_context_name(Text(8));
  // Whole timestamps and ones whose last encoded byte is 10.
  if (sim::W(8)) o.set_frame_timestamp_micros(sim::WP(1, 3) ? (int64_t{10} << (7 * sim::W(8))) + k % 100
                                                            : 1500000000000000ll + k);
  if (sim::WP(1, 4)) o.set_camera_name(static_cast<co::CameraName::Name>(1 + sim::W(5)));
  return o;
}

co::Submission GenMeta() {
  co::Submission s;
  s.set_unique_method_name("m" + Text(5));
  s.set_account_name("a" + Text(5));
  if (sim::W(2)) s.set_task(static_cast<co::Submission::Task>(1 + sim::W(6)));
  for (int i = sim::W(3); i > 0; --i) s.add_authors(Text(6));
  if (sim::W(2)) s.set_affiliation(Text(6));
  if (sim::W(2)) s.set_description(Text(12));
  if (sim::WP(1, 3)) s.set_method_link(Text(6));
  if (sim::WP(1, 3)) s.set_docker_image_source(Text(6));
  if (sim::W(2)) s.set_sensor_type(static_cast<co::Submission::SensorType>(1 + sim::W(5)));
  if (sim::W(2)) s.set_number_past_frames_exclude_current(sim::W(5));
  if (sim::W(2)) s.set_number_future_frames_exclude_current(sim::W(5));
  for (int i = sim::W(4); i > 0; --i) s.add_object_types(static_cast<co::Label::Type>(1 + sim::W(4)));
  if (sim::W(2)) s.set_latency_second(0.125f * sim::W(9));
  return s;
}

// What a submission must hold, from the bytes of the files the tool is given.
struct Want {
  bool ok = true;
  std::string why;
  std::multiset<std::string> kept;
  std::string meta;
};
Want Expect(const tools::Files& fs, const std::vector<std::string>& ins, const std::string& meta,
            const std::vector<std::string>& absent, int shards) {
  Want w;
  auto bad = [&](const std::string& s) { w.ok = false; if (w.why.empty()) w.why = s; };
  for (const auto& a : absent) bad(a + " cannot be read");
  if (shards < 1) bad("no shards");
  for (const auto& n : ins) {
    auto f = fs.find(n);
    if (f == fs.end()) continue;
    co::Objects os;
    std::string c = f->second;
    if (!os.ParseFromString(c)) {
      // A newline after the message, as left by some tools, is tolerated.
      bool nl = !c.empty() && c.back() == '\n';
      if (nl) c.pop_back();
      if (!nl || !os.ParseFromString(c)) {
        bad(n + " does not parse");
        continue;
      }
    }
    for (co::Object o : os.objects()) {
      if (std::isnan(o.score())) sim::Skip("a damaged score is NaN");
      if (fabs(o.score() - 0.03) < 1e-6) sim::Skip("a score at the threshold");
      if (o.score() < 0.03) continue;
      const auto& b = o.object().box();
      if (std::isnan(b.length() + b.width() + b.height() + b.center_x() + b.center_y() + b.center_z() + b.heading())) {
        bool any = false;
        for (double v : {b.length(), b.width(), b.height(), b.center_x(), b.center_y(), b.center_z(), b.heading()})
          any |= std::isnan(v);
        if (any) continue;
      }
      auto* m = o.mutable_object()->mutable_box();
      m->set_length(std::max(m->length(), 1e-6));
      m->set_width(std::max(m->width(), 1e-6));
      m->set_height(std::max(m->height(), 1e-6));
      w.kept.insert(o.SerializeAsString());
    }
  }
  auto f = fs.find(meta);
  if (f != fs.end()) {
    co::Submission s;
    if (!google::protobuf::TextFormat::ParseFromString(f->second, &s)) bad(meta + " does not parse");
    else if (s.unique_method_name().empty() || s.account_name().empty()) bad(meta + " lacks a name");
    for (const auto& o : s.inference_results().objects()) (void)o, sim::Skip("metadata with results in it");
    w.meta = s.SerializeAsString();
  }
  return w;
}

void CheckShards(const Want& w, int shards, const std::string& out) {
  std::multiset<std::string> got;
  for (int i = 0; i < shards; ++i) {
    std::string name = out + std::to_string(i), c;
    if (!sim::io::Get(name, &c))
      sim::Violation("success-without-shard", "exit status 0, but %s is not there", name.c_str());
    co::Submission s;
    if (!s.ParseFromString(c))
      sim::Violation("success-with-broken-shard", "exit status 0, but %s (%zu bytes) does not parse", name.c_str(),
                     c.size());
    for (const auto& o : s.inference_results().objects()) got.insert(o.SerializeAsString());
    s.clear_inference_results();
    if (s.SerializeAsString() != w.meta)
      sim::Violation("shard-without-metadata", "%s does not carry the submission's metadata: %s", name.c_str(),
                     s.ShortDebugString().c_str());
  }
  if (got == w.kept) return;
  size_t missing = 0, extra = 0;
  for (const auto& o : w.kept) missing += got.count(o) < w.kept.count(o);
  for (const auto& o : got) extra += got.count(o) > w.kept.count(o);
  sim::Violation("success-with-wrong-objects",
                 "exit status 0, but of %zu kept objects the shards hold %zu: %zu missing, %zu unexpected or repeated",
                 w.kept.size(), got.size(), missing, extra);
}

void Run() {
  sim::io::EnterScratch();
  int nin = 1 + sim::W(4);
  int shards = sim::WP(1, 30) ? -static_cast<int>(sim::W(2)) : 1 + sim::W(6);
  tools::Files fs;
  std::vector<std::string> ins, absent;
  uint64_t k = sim::W(100000);
  size_t objects = 0;
  for (int i = 0; i < nin; ++i) {
    co::Objects os;
    int n = sim::W(12);
    for (int j = 0; j < n; ++j) *os.add_objects() = GenObject(k++);
    if (sim::WP(1, 10) && n) {  // a long file: many reads and writes
      int reps = 50 + sim::W(400);
      for (int j = 0; j < reps; ++j) {
        co::Object o = os.objects(j % n);
        o.mutable_object()->mutable_box()->set_center_x(j);
        *os.add_objects() = o;
      }
      sim::Probe("long input files");
    }
    std::string name = "in" + std::to_string(i) + ".bin", c = os.SerializeAsString();
    if (!c.empty() && c.back() == '\n') sim::Probe("input whose last byte is 10");
    if (sim::WP(1, 8)) { c += '\n'; sim::Probe("input with an extra newline"); }
    objects += os.objects_size();
    ins.push_back(name);
    fs[name] = c;
    sim::NoteWorkload(sim::HashStr(c));
  }
  co::Submission meta = GenMeta();
  if (sim::WP(1, 25)) meta.clear_account_name();
  if (sim::WP(1, 25)) meta.clear_unique_method_name();
  google::protobuf::TextFormat::PrintToString(meta, &fs["submission.txtpb"]);
  sim::NoteWorkload(sim::HashStr(fs["submission.txtpb"]));
  sim::Log("%d inputs, %zu objects, %d shards", nin, objects, shards);
  if (sim::FP(1, 3)) {
    int n = 1 + sim::F(2);
    for (int i = 0; i < n; ++i) {
      size_t at = sim::F(fs.size());
      auto f = fs.begin();
      std::advance(f, at);
      if (!tools::Damage(f->first.c_str(), &f->second)) {
        absent.push_back(f->first);
        fs.erase(f);
      }
      if (fs.empty()) break;
    }
  }
  if (sim::WP(1, 40)) { ins.push_back(ins[0]); sim::Probe("the same input named twice"); }
  tools::Store(fs);
  // Leftovers of an earlier attempt: longer and shorter than what is to come.
  for (int i = 0; i < shards; ++i)
    if (sim::FP(1, 6)) {
      sim::io::Put("out" + std::to_string(i), std::string(sim::F(3) * 3000, 'x'));
      sim::Fault("output of an earlier attempt lying there");
    }
  Want w = Expect(fs, ins, "submission.txtpb", absent, shards);
  if (objects >= 2 && w.ok) sim::Nontrivial();
  int attempts = 1 + sim::F(3);
  for (int a = 0; a <= attempts; ++a) {
    bool last = a == attempts;  // once faults have stopped
    sim::io::Plan plan = last ? sim::io::Plan() : tools::DrawPlan(true, true, nin + 1 + std::max(shards, 0));
    tools::Result r = sim::io::RunTool(wodsim_main_create_submission,
                                {"create_submission", "--input_filenames=" + tools::Join(ins),
                                 "--output_filename=out", "--num_shards=" + std::to_string(shards),
                                 "--submission_filename=submission.txtpb"},
                                plan);
    tools::Unchanged(fs);
    if (!r.failed()) {
      sim::Probe(r.hard ? "success in spite of a fault" : "success");
      if (!w.ok)
        sim::Violation("success-on-bad-input", "exit status 0, but %s", w.why.c_str());
      CheckShards(w, shards, "out");
    } else {
      sim::Probe(r.crashed ? "crashed" : "failure reported");
      if (w.ok && !r.crashed && r.hard == 0 && r.soft == 0)
        sim::Violation("failure-on-good-input",
                       "nothing was wrong, but the tool failed (signal %d, status %d): %.300s", r.sig, r.code,
                       r.err.c_str());
      if (r.hard) sim::Probe("failure reported after a fault");
    }
  }
}
sim::Register reg("C14", Run);
}  // namespace
