// C23: streams of scenario records, some damaged, converted to examples by
// several workers, against a model of the example a record defines.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <set>

#include "rt/sim.h"
#include "tensorflow/core/example/example.pb.h"
#include "waymo_open_dataset/data_conversion/scenario_conversion.h"

namespace {
namespace co = waymo::open_dataset;
using Counters = std::map<std::string, int>;
struct P3 { double x = 0, y = 0, z = 0; };

enum Damage {
  kNone, kShort, kTrackShort, kTrackLong, kSdcOut, kSdcNegative, kPredictOut, kPredictNegative, kEmptyPolygon, kEmptyLine, kNothing,
  kNoTimes, kNumDamages
};
const char* kDamage[] = {"", "record ends before the current step", "track misses steps", "track has extra steps", "sdc index too large",
                         "sdc index negative", "index to predict too large", "index to predict negative", "polygon without points",
                         "line without points", "nothing to predict", "no timestamps"};
struct Rec {
  co::Scenario s;
  Damage damage = kNone;
};
// ------------------------------------------------------------------ generation
void SetPoint(co::MapPoint* p, const P3& v) { p->set_x(v.x); p->set_y(v.y); p->set_z(v.z); }
// Coordinates on a grid of quarters: exact in every arithmetic.
double Q(int lim) { return 0.25 * sim::WI(-lim, lim); }
P3 AnyPoint() { return {Q(200), Q(200), Q(12)}; }

template <typename F>
void Line(F* line, int n) {
  P3 p = AnyPoint();
  P3 d = {Q(4), Q(4), sim::WP(1, 3) ? Q(1) : 0};
  for (int i = 0; i < n; ++i) {
    SetPoint(line->Add(), p);
    if (sim::WP(1, 3)) d = {Q(4), Q(4), 0};  // turns, at times without length
    p = {p.x + d.x, p.y + d.y, p.z + d.z};
  }
}
void GenFeature(co::MapFeature* f, int id) {
  f->set_id(id);
  int n = sim::WP(1, 6) ? 1 : 2 + sim::W(8);
  switch (sim::W(9)) {
    case 0: case 1:
      f->mutable_lane()->set_type(static_cast<co::LaneCenter::LaneType>(sim::W(4)));
      f->mutable_lane()->set_speed_limit_mph(25);
      Line(f->mutable_lane()->mutable_polyline(), n);
      break;
    case 2:
      f->mutable_road_line()->set_type(static_cast<co::RoadLine::RoadLineType>(sim::W(9)));
      Line(f->mutable_road_line()->mutable_polyline(), n);
      break;
    case 3:
      f->mutable_road_edge()->set_type(static_cast<co::RoadEdge::RoadEdgeType>(sim::W(3)));
      Line(f->mutable_road_edge()->mutable_polyline(), n);
      break;
    case 4: SetPoint(f->mutable_stop_sign()->mutable_position(), AnyPoint()); f->mutable_stop_sign()->add_lane(3); break;
    case 5: Line(f->mutable_crosswalk()->mutable_polygon(), 1 + sim::W(5)); break;
    case 6: Line(f->mutable_speed_bump()->mutable_polygon(), 1 + sim::W(5)); break;
    case 7: Line(f->mutable_driveway()->mutable_polygon(), 1 + sim::W(5)); break;
    default: break;  // no data
  }
}
co::MotionExampleConversionConfig GenConfig() {
  co::MotionExampleConversionConfig c;
  c.set_num_past_steps(1 + sim::W(3));
  c.set_num_future_steps(sim::W(3));
  c.set_max_num_agents(sim::WP(1, 4) ? 1 + sim::W(3) : 3 + sim::W(5));
  if (sim::WP(1, 2)) c.set_max_num_modeled_agents(1 + sim::W(6));
  c.set_max_roadgraph_samples(sim::WP(1, 3) ? sim::W(12) : 8 + sim::W(40));
  const double spacing[] = {0.5, 0.25, 1, 2, 0.75, 1.25, 0, -1};
  if (sim::WP(1, 3)) c.set_source_polyline_spacing(spacing[sim::W(4)]);  // keeps positions along lines exact
  if (sim::WP(1, 2)) c.set_polyline_sample_spacing(spacing[sim::W(8)]);
  if (sim::WP(1, 2)) c.set_polygon_sample_spacing(spacing[sim::W(8)]);
  c.set_max_traffic_light_control_points_per_step(sim::W(4));
  return c;
}
void Fill(co::ObjectState* s, int k) {
  s->set_center_x(Q(80)); s->set_center_y(Q(80)); s->set_center_z(Q(8));
  s->set_length(0.25f * (1 + sim::W(40))); s->set_width(0.25f * (1 + sim::W(10))); s->set_height(0.25f * (1 + sim::W(12)));
  s->set_heading(sim::WU(-3.1, 3.1));
  s->set_velocity_x(Q(40)); s->set_velocity_y(Q(40));
  s->set_valid(!sim::WP(1, 4));
}
Rec GenRec(const co::MotionExampleConversionConfig& c, int id) {
  Rec r;
  co::Scenario& s = r.s;
  s.set_scenario_id(sim::StrF("s%d", id));
  int need = c.num_past_steps(), all = need + c.num_future_steps();
  int steps = sim::WP(1, 4) ? sim::WI(need, all) : all + sim::W(3);  // a test record ends early
  for (int i = 0; i < steps; ++i) s.add_timestamps_seconds(0.125 * i);
  int n = 1 + sim::W(7);
  std::vector<int> ids = sim::Permutation(sim::kWork, 40);
  for (int i = 0; i < n; ++i) {
    co::Track* t = s.add_tracks();
    t->set_id(ids[i] + 100);
    t->set_object_type(static_cast<co::Track::ObjectType>(sim::WP(1, 10) ? 0 : 1 + sim::W(4)));
    for (int k = 0; k < steps; ++k) Fill(t->add_states(), k);
    if (i && sim::WP(1, 6)) *t->mutable_states() = s.tracks(sim::W(i)).states();  // an equally good context agent
  }
  s.set_sdc_track_index(sim::W(n));
  int m = 1 + sim::W(5);
  for (int i = 0; i < m; ++i) {
    auto* q = s.add_tracks_to_predict();
    q->set_track_index(sim::W(n));
    q->set_difficulty(static_cast<co::RequiredPrediction::DifficultyLevel>(sim::W(3)));
  }
  if (!sim::WP(1, 4)) s.mutable_tracks(s.tracks_to_predict(0).track_index())->mutable_states(need - 1)->set_valid(true);
  m = sim::W(3);
  for (int i = 0; i < m; ++i) s.add_objects_of_interest(sim::WP(1, 6) ? 9999 : s.tracks(sim::W(n)).id());
  m = sim::WP(1, 5) ? sim::W(steps) : steps;
  for (int i = 0; i < m; ++i) {
    auto* d = s.add_dynamic_map_states();
    int lights = sim::W(4);
    for (int k = 0; k < lights; ++k) {
      auto* l = d->add_lane_states();
      l->set_lane(sim::W(50));
      l->set_state(static_cast<co::TrafficSignalLaneState::State>(sim::W(9)));
      SetPoint(l->mutable_stop_point(), AnyPoint());
    }
  }
  m = sim::W(7);
  for (int i = 0; i < m; ++i) GenFeature(s.add_map_features(), 500 + i);
  return r;
}
// What storage and upstream pipelines do to records.
void DoDamage(const co::MotionExampleConversionConfig& c, Rec* r) {
  co::Scenario& s = r->s;
  Damage d = static_cast<Damage>(1 + sim::F(kNumDamages - 1));
  int n = s.tracks_size();
  auto cut = [](google::protobuf::RepeatedPtrField<co::ObjectState>* v, int k) { while (v->size() > k) v->RemoveLast(); };
  switch (d) {
    case kShort: {
      int k = sim::F(c.num_past_steps());
      if (k == 0) { d = kNoTimes; }
      s.mutable_timestamps_seconds()->Truncate(k);
      for (auto& t : *s.mutable_tracks()) cut(t.mutable_states(), k);
      while (s.dynamic_map_states_size() > k) s.mutable_dynamic_map_states()->RemoveLast();
      break;
    }
    case kTrackShort: cut(s.mutable_tracks(sim::F(n))->mutable_states(), sim::F(s.timestamps_seconds_size())); break;
    case kTrackLong: s.mutable_tracks(sim::F(n))->add_states()->set_valid(true); break;
    case kSdcOut: s.set_sdc_track_index(n + sim::F(3)); break;
    case kSdcNegative: s.set_sdc_track_index(-1 - (int)sim::F(3)); break;
    case kPredictOut: s.mutable_tracks_to_predict(sim::F(s.tracks_to_predict_size()))->set_track_index(n + sim::F(1000)); break;
    case kPredictNegative: s.mutable_tracks_to_predict(sim::F(s.tracks_to_predict_size()))->set_track_index(-1 - (int)sim::F(1000)); break;
    case kEmptyPolygon:
    case kEmptyLine: {
      auto* f = s.add_map_features();
      f->set_id(900);
      bool poly = d == kEmptyPolygon;
      switch (sim::F(3)) {
        case 0: poly ? (void)f->mutable_crosswalk() : (void)f->mutable_lane(); break;
        case 1: poly ? (void)f->mutable_speed_bump() : (void)f->mutable_road_line(); break;
        default: poly ? (void)f->mutable_driveway() : (void)f->mutable_road_edge(); break;
      }
      s.mutable_map_features()->SwapElements(s.map_features_size() - 1, sim::F(s.map_features_size()));
      break;
    }
    case kNothing:
      if (sim::F(2)) s.clear_tracks_to_predict();
      else for (auto& q : s.tracks_to_predict()) s.mutable_tracks(q.track_index())->mutable_states(c.num_past_steps() - 1)->set_valid(false);
      break;
    case kNoTimes: s.clear_timestamps_seconds(); for (auto& t : *s.mutable_tracks()) t.clear_states(); break;
    default: break;
  }
  r->damage = d;
  sim::Fault(kDamage[d]);
}
// ----------------------------------------------------------------------- model
struct Want {
  std::map<std::string, std::vector<double>> ints, floats;
  std::map<std::string, std::string> bytes;
};
int TypeOf(const co::MapFeature& f) {
  switch (f.feature_data_case()) {
    case co::MapFeature::kLane: return (int[]){0, 1, 2, 3}[f.lane().type()];
    case co::MapFeature::kRoadLine: return 5 + f.road_line().type();
    case co::MapFeature::kRoadEdge: return 14 + f.road_edge().type();
    case co::MapFeature::kStopSign: return 17;
    case co::MapFeature::kCrosswalk: return 18;
    case co::MapFeature::kSpeedBump: return 19;
    case co::MapFeature::kDriveway: return 20;
    default: return -1;
  }
}
P3 At(const co::MapPoint& p) { return {p.x(), p.y(), p.z()}; }
P3 Mix(const P3& a, double wa, const P3& b, double wb) { return {a.x * wa + b.x * wb, a.y * wa + b.y * wb, a.z * wa + b.z * wb}; }
double Dist(const P3& a, const P3& b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)); }

std::vector<P3> Points(const google::protobuf::RepeatedPtrField<co::MapPoint>& v) {
  std::vector<P3> out;
  for (auto& p : v) out.push_back(At(p));
  return out;
}
// All samples of a line or polygon, without regard to the limit.
std::vector<P3> SampleLine(const co::MotionExampleConversionConfig& c, const std::vector<P3>& p) {
  std::vector<P3> out;
  double src = c.source_polyline_spacing(), step = c.polyline_sample_spacing() > 0 ? c.polyline_sample_spacing() : src;
  int n = p.size();
  if (n == 0) return out;
  for (int k = 0;; ++k) {
    double at = k * step / src;
    int i = std::floor(at);
    if (i >= n - 1) break;
    double a = at - i;
    if (i == 0 || i == n - 2) out.push_back(Mix(p[i], 1 - a, p[i + 1], a));
    else {
      // Catmull-Rom through p[i], p[i+1].
      double a2 = a * a, a3 = a2 * a;
      double w0 = -0.5 * a + a2 - 0.5 * a3, w1 = 1 - 2.5 * a2 + 1.5 * a3, w2 = 0.5 * a + 2 * a2 - 1.5 * a3, w3 = -0.5 * a2 + 0.5 * a3;
      out.push_back(Mix(Mix(p[i - 1], w0, p[i], w1), 1, Mix(p[i + 1], w2, p[i + 2], w3), 1));
    }
  }
  if (out.empty() || Dist(out.back(), p[n - 1]) > 0.01) out.push_back(p[n - 1]);
  return out;
}
std::vector<P3> SamplePolygon(const co::MotionExampleConversionConfig& c, const std::vector<P3>& p) {
  std::vector<P3> out;
  int n = p.size();
  if (n == 0) return out;
  for (int i = 0; i < n; ++i) {
    const P3 &a = p[i], &b = p[(i + 1) % n];
    int parts = 1;
    if (c.polygon_sample_spacing() > 0) parts = std::max(1, (int)std::floor(Dist(a, b) / c.polygon_sample_spacing()));
    for (int k = 0; k < parts; ++k) out.push_back(Mix(a, 1 - (double)k / parts, b, (double)k / parts));
  }
  out.push_back(p[0]);
  return out;
}
void WantMap(const co::Scenario& s, const co::MotionExampleConversionConfig& c, Want* w) {
  size_t max = c.max_roadgraph_samples();
  std::vector<const co::MapFeature*> order;
  const co::MapFeature::FeatureDataCase prio[] = {co::MapFeature::kLane, co::MapFeature::kRoadLine, co::MapFeature::kStopSign,
                                                  co::MapFeature::kCrosswalk, co::MapFeature::kSpeedBump, co::MapFeature::kRoadEdge,
                                                  co::MapFeature::kDriveway};
  for (auto k : prio) for (auto& f : s.map_features()) if (f.feature_data_case() == k) order.push_back(&f);
  auto &id = w->ints["roadgraph_samples/id"], &type = w->ints["roadgraph_samples/type"], &valid = w->ints["roadgraph_samples/valid"];
  auto &xyz = w->floats["roadgraph_samples/xyz"], &dir = w->floats["roadgraph_samples/dir"];
  for (auto* f : order) {
    std::vector<P3> p;
    switch (f->feature_data_case()) {
      case co::MapFeature::kLane: p = SampleLine(c, Points(f->lane().polyline())); break;
      case co::MapFeature::kRoadLine: p = SampleLine(c, Points(f->road_line().polyline())); break;
      case co::MapFeature::kRoadEdge: p = SampleLine(c, Points(f->road_edge().polyline())); break;
      case co::MapFeature::kStopSign: p = {At(f->stop_sign().position())}; break;
      case co::MapFeature::kCrosswalk: p = SamplePolygon(c, Points(f->crosswalk().polygon())); break;
      case co::MapFeature::kSpeedBump: p = SamplePolygon(c, Points(f->speed_bump().polygon())); break;
      default: p = SamplePolygon(c, Points(f->driveway().polygon())); break;
    }
    if (p.size() > max - id.size()) p.resize(max - id.size());
    for (size_t i = 0; i < p.size(); ++i) {
      id.push_back(f->id()); type.push_back(TypeOf(*f)); valid.push_back(1);
      for (double v : {p[i].x, p[i].y, p[i].z}) xyz.push_back(v);
      P3 d;
      if (i + 1 < p.size()) {
        double len = Dist(p[i], p[i + 1]);
        if (len > 1e-9) d = Mix(p[i + 1], 1 / len, p[i], -1 / len);
        else if (len > 0) d = {NAN, NAN, NAN};  // left to rounding
      }
      for (double v : {d.x, d.y, d.z}) dir.push_back(v);
    }
  }
  if (id.size() == max && max) sim::Probe("map samples cut off");
  while (id.size() < max) {
    id.push_back(-1); type.push_back(-1); valid.push_back(0);
    for (int i = 0; i < 3; ++i) { xyz.push_back(-1); dir.push_back(-1); }
  }
  if (!max) { w->ints.clear(); w->floats.clear(); }
}
std::string Frame(const co::MotionExampleConversionConfig& c, int t) {
  return t < c.num_past_steps() - 1 ? "past/" : t == c.num_past_steps() - 1 ? "current/" : "future/";
}
void WantLights(const co::Scenario& s, const co::MotionExampleConversionConfig& c, Want* w) {
  for (int t = 0; t < c.num_past_steps() + c.num_future_steps(); ++t) {
    std::string p = "traffic_light_state/" + Frame(c, t);
    bool has = t < s.dynamic_map_states_size();
    w->ints[p + "timestamp_micros"].push_back(has ? s.timestamps_seconds(t) * 1e6 : -1);
    for (int i = 0; i < c.max_traffic_light_control_points_per_step(); ++i) {
      bool on = has && i < s.dynamic_map_states(t).lane_states_size();
      co::TrafficSignalLaneState l;
      if (on) l = s.dynamic_map_states(t).lane_states(i);
      w->floats[p + "x"].push_back(on ? l.stop_point().x() : -1);
      w->floats[p + "y"].push_back(on ? l.stop_point().y() : -1);
      w->floats[p + "z"].push_back(on ? l.stop_point().z() : -1);
      w->ints[p + "state"].push_back(on ? l.state() : -1);
      w->ints[p + "id"].push_back(on ? l.lane() : -1);
      w->ints[p + "valid"].push_back(on);
    }
  }
}
std::vector<int> Modeled(const co::Scenario& s, const co::MotionExampleConversionConfig& c) {
  int max = std::min(c.max_num_modeled_agents(), c.max_num_agents()), now = c.num_past_steps() - 1;
  std::vector<int> m;
  for (auto& q : s.tracks_to_predict()) {
    int k = q.track_index();
    if (s.tracks(k).states(now).valid() && (int)m.size() < max && std::find(m.begin(), m.end(), k) == m.end()) m.push_back(k);
  }
  std::sort(m.begin(), m.end(), [&](int a, int b) { return s.tracks(a).id() < s.tracks(b).id(); });
  return m;
}
// Context agents in front have smaller keys.
std::pair<double, double> ContextKey(const co::Scenario& s, const co::MotionExampleConversionConfig& c, int k) {
  int now = c.num_past_steps() - 1;
  const auto &a = s.tracks(k).states(now), &b = s.tracks(s.sdc_track_index()).states(now);
  if (a.valid()) return {0, (a.center_x() - b.center_x()) * (a.center_x() - b.center_x()) + (a.center_y() - b.center_y()) * (a.center_y() - b.center_y())};
  int n = 0;
  for (auto& x : s.tracks(k).states()) n += x.valid();
  return {1, -n};
}
void WantState(const co::Scenario& s, const co::MotionExampleConversionConfig& c, int k, bool context, Want* w) {
  const co::Track* t = k < 0 ? nullptr : &s.tracks(k);
  w->floats["state/id"].push_back(t ? t->id() : -1);
  w->floats["state/type"].push_back(t ? t->object_type() : -1);
  bool interest = false;
  int level = 0;
  if (t) {
    for (int id : s.objects_of_interest()) interest |= id == t->id();
    for (int i = s.tracks_to_predict_size() - 1; i >= 0; --i)
      if (s.tracks_to_predict(i).track_index() == k) level = s.tracks_to_predict(i).difficulty();
  }
  w->ints["state/objects_of_interest"].push_back(t ? interest : -1);
  w->ints["state/is_sdc"].push_back(t ? k == s.sdc_track_index() : -1);
  w->ints["state/is_context"].push_back(t ? context : -1);
  w->ints["state/tracks_to_predict"].push_back(t ? !context : -1);
  w->ints["state/difficulty_level"].push_back(t ? level : -1);
  for (int i = 0; i < c.num_past_steps() + c.num_future_steps(); ++i) {
    std::string p = "state/" + Frame(c, i);
    bool on = t && t->object_type() != co::Track::TYPE_UNSET && i < t->states_size() && t->states(i).valid();
    co::ObjectState o;
    if (on) o = t->states(i);
    w->ints[p + "timestamp_micros"].push_back(on ? s.timestamps_seconds(i) * 1e6 : -1);
    w->ints[p + "valid"].push_back(on);
    auto add = [&](const char* name, double v) { w->floats[p + name].push_back(on ? v : -1); };
    add("x", o.center_x()); add("y", o.center_y()); add("z", o.center_z());
    add("width", o.width()); add("length", o.length()); add("height", o.height());
    add("velocity_x", o.velocity_x()); add("velocity_y", o.velocity_y());
    add("speed", std::hypot(o.velocity_x(), o.velocity_y()));
    add("bbox_yaw", o.heading());
    add("vel_yaw", std::atan2(o.velocity_y(), o.velocity_x()));
  }
}
// The order of context agents that no rule tells apart is left open; it is
// read from the example.
Want WantExample(const co::Scenario& s, const co::MotionExampleConversionConfig& c, const tensorflow::Example& got) {
  Want w;
  WantMap(s, c, &w);
  WantLights(s, c, &w);
  w.bytes["scenario/id"] = s.scenario_id();
  std::vector<int> m = Modeled(s, c), ctx;
  for (int k : m) WantState(s, c, k, false, &w);
  std::vector<int> rest;
  for (int k = 0; k < s.tracks_size(); ++k) if (std::find(m.begin(), m.end(), k) == m.end()) rest.push_back(k);
  std::stable_sort(rest.begin(), rest.end(), [&](int a, int b) { return ContextKey(s, c, a) < ContextKey(s, c, b); });
  int room = c.max_num_agents() - m.size();
  auto it = got.features().feature().find("state/id");
  const tensorflow::FloatList* ids = it == got.features().feature().end() ? nullptr : &it->second.float_list();
  for (int i = 0; i < room; ++i) {
    int take = -1;
    if (!rest.empty()) {
      take = rest[0];
      int at = m.size() + i;
      for (int k : rest)
        if (ContextKey(s, c, k) == ContextKey(s, c, rest[0]) && ids && at < ids->value_size() && ids->value(at) == s.tracks(k).id()) { take = k; break; }
      rest.erase(std::find(rest.begin(), rest.end(), take));
    }
    WantState(s, c, take, true, &w);
  }
  if (!rest.empty()) sim::Probe("more agents than places");
  return w;
}
void Differ(const char* cls, const std::string& id, const std::string& key, const std::string& what) {
  sim::Violation(cls, "record %s, feature %s: %s", id.c_str(), key.c_str(), what.c_str());
}
void Compare(const co::Scenario& s, const co::MotionExampleConversionConfig& c, const tensorflow::Example& e) {
  Want w = WantExample(s, c, e);
  auto& m = e.features().feature();
  const std::string& id = s.scenario_id();
  auto cls = [](const std::string& k) {
    return k.rfind("state/", 0) == 0 ? "example-agents" : k.rfind("roadgraph", 0) == 0 ? "example-map" : k.rfind("traffic", 0) == 0 ? "example-lights" : "example-id";
  };
  auto each = [&](const std::string& k, const std::vector<double>& v, bool flt) {
    auto it = m.find(k);
    if (it == m.end()) {
      if (v.empty()) return;
      Differ(cls(k), id, k, "missing");
    }
    const tensorflow::Feature& f = it->second;
    size_t n = flt ? f.float_list().value_size() : f.int64_list().value_size();
    if (n != v.size()) Differ(cls(k), id, k, sim::StrF("%zu values, %zu expected", n, v.size()));
    for (size_t i = 0; i < n; ++i) {
      double g = flt ? f.float_list().value(i) : (double)f.int64_list().value(i);
      double tol = flt ? 1e-4 + 1e-5 * fabs(v[i]) : 0;
      if (!std::isnan(v[i]) && !(fabs(g - v[i]) <= tol)) Differ(cls(k), id, k, sim::StrF("value %zu is %.9g, %.9g expected", i, g, v[i]));
    }
  };
  for (auto& kv : w.ints) each(kv.first, kv.second, false);
  for (auto& kv : w.floats) each(kv.first, kv.second, true);
  for (auto& kv : w.bytes) {
    auto it = m.find(kv.first);
    if (it == m.end() || it->second.bytes_list().value_size() != 1 || it->second.bytes_list().value(0) != kv.second) Differ("example-id", id, kv.first, "wrong");
  }
}
// ------------------------------------------------------------------------ runs
struct Got {
  bool ok = false;
  std::string error, bits;
  tensorflow::Example example;
  Counters counters;
};
Got Convert(const std::string& wire, const co::MotionExampleConversionConfig& c, Counters* counters) {
  Got g;
  co::Scenario s;
  if (!s.ParseFromString(wire)) sim::HarnessError("record does not parse");
  auto r = co::ScenarioToExample(s, c, counters);
  g.ok = r.ok();
  if (!g.ok) { g.error = std::string(r.status().message()); return g; }
  g.example = *r;
  std::map<std::string, std::string> sorted;
  for (auto& kv : g.example.features().feature()) sorted[kv.first] = kv.second.SerializeAsString();
  for (auto& kv : sorted) g.bits += kv.first + "\n" + kv.second;
  return g;
}
void AddUp(const Counters& a, Counters* sum) { for (auto& kv : a) (*sum)[kv.first] += kv.second; }
int Get(const Counters& c, const char* k) { auto it = c.find(k); return it == c.end() ? 0 : it->second; }

void Run() {
  co::MotionExampleConversionConfig c = GenConfig();
  int n = 1 + sim::W(5);
  std::vector<Rec> recs;
  std::vector<std::string> wires;
  uint64_t h = sim::HashStr(c.SerializeAsString());
  sim::Log("config %s", c.ShortDebugString().c_str());
  for (int i = 0; i < n; ++i) {
    recs.push_back(GenRec(c, i));
    if (sim::F(3) == 2) DoDamage(c, &recs.back());
    wires.push_back(recs.back().s.SerializeAsString());
    h = sim::HashStr(wires.back(), h);
    sim::Log("record %d%s%s: %s", i, recs[i].damage ? " damaged: " : "", kDamage[recs[i].damage], recs[i].s.ShortDebugString().c_str());
  }
  sim::NoteWorkload(h);
  // Each record on its own.
  std::vector<Got> alone;
  for (int i = 0; i < n; ++i) {
    Counters own;
    Got g = Convert(wires[i], c, &own);
    g.counters = own;
    const co::Scenario& s = recs[i].s;
    Damage d = recs[i].damage;
    bool must = d == kNone || d == kEmptyLine, cannot = d == kShort || d == kNoTimes || d == kSdcOut || d == kSdcNegative || d == kNothing ||
                  d == kTrackShort || d == kTrackLong;
    if (must || d == kEmptyPolygon) {
      must = must && !Modeled(s, c).empty();
      cannot = Modeled(s, c).empty();
    }
    if (must && !g.ok) sim::Violation("well-formed-rejected", "record %d: %s", i, g.error.c_str());
    if (cannot && g.ok) sim::Violation("bad-record-accepted", "record %d (%s) gives an example", i, d ? kDamage[d] : "nothing to predict");
    if (g.ok && (d == kNone || d == kEmptyLine || d == kEmptyPolygon)) {
      Compare(s, c, g.example);
      int m = Modeled(s, c).size();
      std::map<std::string, int> w = {{"Num_Modeled_Agents", m}, {"Num_Context_Agents", std::min(s.tracks_size(), c.max_num_agents()) - m},
                                      {"Valid_Scenario", 1}};
      for (auto& kv : w)
        if (Get(own, kv.first.c_str()) != kv.second)
          sim::Violation("counter", "record %d: %s is %d, expected %d", i, kv.first.c_str(), Get(own, kv.first.c_str()), kv.second);
      int road = Get(own, "Road_Graph_Samples_Valid_Points") + Get(own, "Road_Graph_Samples_Padded_Points");
      if (road != c.max_roadgraph_samples()) sim::Violation("counter", "record %d: %d map samples counted of %d", i, road, c.max_roadgraph_samples());
      sim::Probe("example compared with the model");
    }
    if (Get(own, "Num_Attempted_TF_Examples") != 1 || Get(own, "Num_Success_Generate_TF_Examples") != g.ok)
      sim::Violation("counter", "record %d: %d attempts and %d successes counted, the conversion %s", i, Get(own, "Num_Attempted_TF_Examples"),
                     Get(own, "Num_Success_Generate_TF_Examples"), g.ok ? "succeeded" : "failed");
    alone.push_back(g);
  }
  // The same records as a stream, in another process, by several workers.
  sim::NewProcessMemory();
  int workers = 1 + sim::Draw(sim::kSched, 3);
  std::vector<int> order = sim::Permutation(sim::kSched, n);
  int again = sim::F(3);
  for (int i = 0; i < again; ++i) {
    order.push_back(sim::F(n));
    sim::Fault("record delivered twice");
  }
  std::vector<Counters> mine(workers);
  Counters sum, want;
  size_t next = 0;
  std::vector<char> counted(order.size(), 1);
  for (size_t k = 0; k < order.size(); ++k) counted[k] = sim::W(4) != 3;
  sim::Simulate([&] {
    std::vector<int> tids;
    for (int t = 0; t < workers; ++t)
      tids.push_back(sim::Spawn([&, t] {
        while (true) {
          sim::YieldPoint();
          if (next >= order.size()) break;
          size_t k = next++;
          int i = order[k];
          Got g = Convert(wires[i], c, counted[k] ? &mine[t] : nullptr);
          if (g.ok != alone[i].ok || g.bits != alone[i].bits)
            sim::Violation("not-the-same-example", "record %d gives %s in the stream, %s on its own", i,
                           g.ok ? "an example" : g.error.c_str(), !alone[i].ok ? alone[i].error.c_str() : g.ok ? "another example" : "an example");
        }
      }));
    sim::JoinAll(tids);
  });
  for (auto& m : mine) AddUp(m, &sum);
  for (size_t k = 0; k < order.size(); ++k) if (counted[k]) AddUp(alone[order[k]].counters, &want);
  for (auto& kv : want)
    if (Get(sum, kv.first.c_str()) != kv.second)
      sim::Violation("counters-do-not-add-up", "%s is %d after the stream, the records alone give %d", kv.first.c_str(), Get(sum, kv.first.c_str()), kv.second);
  for (auto& kv : sum)
    if (kv.second && !want.count(kv.first)) sim::Violation("counters-do-not-add-up", "%s is %d after the stream, the records alone give none", kv.first.c_str(), kv.second);
  if (n >= 2) sim::Nontrivial();
  if (workers > 1) sim::Probe("several workers");
}
void Warm() {
  co::MotionExampleConversionConfig c;
  co::Scenario s;
  (void)co::ScenarioToExample(s, c, nullptr);
}
sim::Register reg("C23", Run, Warm);
}  // namespace
