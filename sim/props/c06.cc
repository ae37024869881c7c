// C06: motion statistics combined by a drawn history of evaluations, failed
// evaluations, retries, merges and reads, against serial evaluation and a model.
#include <set>

#include "props/mo.h"
#include "waymo_open_dataset/metrics/motion_metrics_utils.h"
#include "waymo_open_dataset/protos/motion_submission.pb.h"

namespace {
namespace co = waymo::open_dataset;

// Custom metrics of the simulated caller: a function of what is evaluated.
struct Custom {
  bool on = false;
  int fail_at = -1;  // fails at this call of the current evaluation
  int calls = 0;
  static double Value(const std::string& sid, int step, int object) {
    return (double)(sim::HashStr(sid, 77 + 13 * step + 1000003ull * object) % 1000) / 64.0;
  }
  static bool Second(const std::string& sid, int step) { return (sim::HashStr(sid) + step) % 2 == 0; }
  co::CustomMetricsFn Fn() {
    if (!on) return {};
    return [this](const co::MotionMetricsConfig&, const absl::flat_hash_map<int, const co::Track*>& tracks,
                  const co::Scenario& scenario, int step, const co::MultimodalPrediction& p,
                  co::MetricsStats& stats) -> co::Status {
      int object = p.joint_predictions(0).trajectories(0).object_id();
      if (!tracks.count(object)) sim::Violation("custom-arguments", "the predicted object is not among the tracks");
      bool fail = calls++ == fail_at;
      bool late = fail && fail_at % 2;
      if (fail && !late) return co::InvalidArgumentError("custom metric failed");
      stats.custom_metrics["first"].Add(Value(scenario.scenario_id(), step, object));
      if (Second(scenario.scenario_id(), step)) stats.custom_metrics["second"].Add(1);
      if (late) return co::InvalidArgumentError("custom metric failed late");
      return co::OkStatus();
    };
  }
};
using CustomTable = std::map<std::pair<int, int>, std::map<std::string, mo::Acc>>;

int GroupType(const mo::Scen& s, const mo::Group& g) {
  int type = 0;
  for (int a : g.agents) if (mo::TypePriority(s.agents[a].type) > mo::TypePriority(type)) type = s.agents[a].type;
  return type;
}
void AddCustom(const mo::Cfg& c, const mo::Scen& s, CustomTable* t) {
  for (auto& g : s.groups)
    for (auto& st : c.steps) {
      auto& x = (*t)[{GroupType(s, g), st.m}];
      x["first"].Add(Custom::Value(s.id, st.m, s.agents[g.agents[0]].id));
      if (Custom::Second(s.id, st.m)) x["second"].Add(1);
    }
}
// What a caller reads from statistics.
std::string Read(co::BucketedMetricsStats s) {
  std::string r;
  co::MotionMetrics m = co::ComputeMotionMetrics(&s);
  for (auto& b : m.metrics_bundles()) r += b.ShortDebugString() + "\n";
  return r;
}
void CheckMetrics(const co::MotionMetrics& m, const mo::Table& want, const CustomTable* custom, const char* what) {
  mo::CompareTables(mo::FromMetrics(m), want, what);
  if (!custom) return;
  for (auto& b : m.metrics_bundles()) {
    int type = b.has_object_filter() ? b.object_filter() : 0;
    auto it = custom->find({type, b.measurement_step()});
    size_t n = it == custom->end() ? 0 : it->second.size();
    if ((size_t)b.custom_metrics().size() != n)
      sim::Violation("custom-metrics-lost", "type %d step %d has %d custom metrics, expected %zu", type, b.measurement_step(),
                     b.custom_metrics().size(), n);
    if (!n) continue;
    for (auto& kv : it->second) {
      auto q = b.custom_metrics().find(kv.first);
      if (q == b.custom_metrics().end() || !ref::Near(q->second, kv.second.Mean()))
        sim::Violation("custom-metrics-value", "type %d step %d %s: %g, expected %g", type, b.measurement_step(),
                       kv.first.c_str(), q == b.custom_metrics().end() ? NAN : q->second, kv.second.Mean());
    }
  }
}

// A scenario's predictions as they are handed in for the challenge, drawn faults
// on the way, and the predictions that the metrics get to see.
using Sub = co::MotionChallengeSubmission;
void FillPath(const mo::Traj& t, co::Trajectory* out) {
  for (auto& p : t.p) { out->add_center_x(p.first); out->add_center_y(p.second); }
}
bool ToSubmission(const mo::Scen& s, co::ChallengeScenarioPredictions* out, Sub::SubmissionType* type) {
  bool single = true, pair = s.groups.size() == 1 && s.groups[0].agents.size() == 2;
  for (auto& g : s.groups) single = single && g.agents.size() == 1;
  out->set_scenario_id(s.id);
  if (single) {
    *type = Sub::MOTION_PREDICTION;
    out->mutable_single_predictions();
    for (auto& g : s.groups) {
      auto* p = out->mutable_single_predictions()->add_predictions();
      p->set_object_id(s.agents[g.agents[0]].id);
      for (auto& k : g.k) {
        auto* t = p->add_trajectories();
        t->set_confidence(k.conf);
        FillPath(k.t[0], t->mutable_trajectory());
      }
    }
  } else if (pair) {
    *type = Sub::INTERACTION_PREDICTION;
    for (auto& k : s.groups[0].k) {
      auto* j = out->mutable_joint_prediction()->add_joint_trajectories();
      j->set_confidence(k.conf);
      for (auto& t : k.t) {
        auto* o = j->add_trajectories();
        o->set_object_id(s.agents[t.agent].id);
        FillPath(t, o->mutable_trajectory());
      }
    }
  } else {
    return false;
  }
  return true;
}
void CheckSubmission(const mo::Scen& s) {
  co::ScenarioPredictions want = mo::ToPredictions(s);
  co::ChallengeScenarioPredictions sub;
  Sub::SubmissionType type;
  if (!ToSubmission(s, &sub, &type)) {
    // Neither of the two challenges: no submission of this shape is accepted.
    for (int t = 0; t <= 2; ++t)
      if (co::ValidateChallengePredictions(want, (Sub::SubmissionType)t).ok())
        sim::Violation("submission-accepted", "%s has a mixed shape and is accepted as type %d", s.id.c_str(), t);
    return;
  }
  co::ScenarioPredictions got;
  co::Status st = co::ConvertChallengePredictions(sub, &got);
  if (!st.ok()) sim::Violation("submission-rejected", "%s: %s", s.id.c_str(), std::string(st.message()).c_str());
  if (got.SerializeAsString() != want.SerializeAsString())
    sim::Violation("submission-altered", "%s is evaluated as %s", s.id.c_str(), got.ShortDebugString().c_str());
  if (!co::ValidateChallengePredictions(got, type).ok()) sim::Violation("submission-rejected", "%s as type %d", s.id.c_str(), type);
  if (got.multi_modal_predictions_size() && got.multi_modal_predictions(0).joint_predictions_size()) {
    int other = type == Sub::MOTION_PREDICTION ? Sub::INTERACTION_PREDICTION : Sub::MOTION_PREDICTION;
    if (co::ValidateChallengePredictions(got, (Sub::SubmissionType)other).ok() ||
        co::ValidateChallengePredictions(got, Sub::UNKNOWN).ok())
      sim::Violation("submission-accepted", "%s passes for the wrong challenge", s.id.c_str());
  }
  // A damaged submission is refused, at whichever place it is damaged.
  co::ChallengeScenarioPredictions bad = sub;
  const char* what = nullptr;
  auto damage = [&](co::Trajectory* t) {
    if (sim::F(2)) t->add_center_x(1);
    else t->add_center_y(1);
  };
  switch (sim::F(4)) {
    case 0: {
      if (bad.has_joint_prediction()) {
        auto* j = bad.mutable_joint_prediction();
        if (!j->joint_trajectories_size()) return;
        auto* k = j->mutable_joint_trajectories(sim::F(j->joint_trajectories_size()));
        damage(k->mutable_trajectories(sim::F(k->trajectories_size()))->mutable_trajectory());
      } else {
        auto* q = bad.mutable_single_predictions();
        if (!q->predictions_size()) return;
        auto* p = q->mutable_predictions(sim::F(q->predictions_size()));
        if (!p->trajectories_size()) return;
        damage(p->mutable_trajectories(sim::F(p->trajectories_size()))->mutable_trajectory());
      }
      what = "submission with a coordinate too many";
      break;
    }
    case 1: {
      if (!bad.has_joint_prediction() || !bad.joint_prediction().joint_trajectories_size()) return;
      auto* j = bad.mutable_joint_prediction();
      auto* k = j->mutable_joint_trajectories(sim::F(j->joint_trajectories_size()));
      if (sim::F(2)) *k->add_trajectories() = k->trajectories(0);
      else k->mutable_trajectories()->RemoveLast();
      what = "joint submission of one or three objects";
      break;
    }
    case 2:
      bad.clear_prediction_set();
      what = "submission without predictions";
      break;
    default:
      return;
  }
  sim::Fault(what);
  co::ScenarioPredictions none;
  if (co::ConvertChallengePredictions(bad, &none).ok())
    sim::Violation("damaged-submission-accepted", "%s: %s", s.id.c_str(), what);
}

void Run() {
  mo::Cfg c = mo::GenCfg();
  mo::Dims d;
  d.A = 1 + sim::W(4);
  d.M = 1 + sim::W(3);
  d.K = 1 + sim::W(4);
  d.N = 1 + sim::W(2);
  int n = 1 + sim::W(6);
  std::vector<mo::Scen> ss;
  for (int i = 0; i < n; ++i) {
    ss.push_back(mo::GenScen(c, d, sim::StrF("s%d", i)));
    if (sim::WP(1, 2)) {  // equal confidences in different groups
      int off = sim::W(4);
      for (auto& g : ss.back().groups)
        for (size_t k = 0; k < g.k.size(); ++k) g.k[k].conf = 0.125f * (1 + (k + off) % 4);
    }
  }
  mo::LogCfg(c);
  for (auto& s : ss) mo::LogScen(s);
  co::MotionMetricsConfig pc = mo::ToConfig(c);
  uint64_t h = sim::HashStr(pc.SerializeAsString());
  for (auto& s : ss) h = mo::Hash(s, h);
  sim::NoteWorkload(h);
  Custom custom;
  custom.on = sim::W(2);
  int groups = 0;
  for (auto& s : ss) groups += s.groups.size();
  if (n >= 2 && groups >= 3) sim::Nontrivial();

  std::vector<co::Scenario> sc;
  std::vector<co::ScenarioPredictions> pr;
  for (auto& s : ss) {
    sc.push_back(mo::ToScenario(s));
    pr.push_back(mo::ToPredictions(s));
    // A group without any trajectory is not a prediction of anything.
    if (sim::FP(1, 8)) {
      sim::Fault("prediction group without trajectories");
      auto* m = pr.back().mutable_multi_modal_predictions();
      auto* e = m->Add();
      if (sim::F(2)) e->add_joint_predictions()->set_confidence(0.5);
      int at = sim::F(m->size());
      for (int i = m->size() - 1; i > at; --i) m->SwapElements(i, i - 1);
    }
  }

  for (auto& s : ss) CheckSubmission(s);

  // The references.
  std::vector<const mo::Scen*> all;
  CustomTable want_custom;
  for (auto& s : ss) { all.push_back(&s); AddCustom(c, s, &want_custom); }
  const CustomTable* wc = custom.on ? &want_custom : nullptr;
  mo::Table model;
  bool have_model = mo::ModelTable(c, all, &model);
  mo::Table serial;
  {
    co::BucketedMetricsStats sum;
    for (int i = 0; i < n; ++i) {
      co::BucketedMetricsStats one;
      custom.fail_at = -1;
      custom.calls = 0;
      co::Status st = co::ComputeMetricsStats(pc, mo::ToPredictions(ss[i]), sc[i], &one, custom.Fn());
      if (!st.ok()) sim::Violation("valid-scenario-rejected", "%s", std::string(st.message()).c_str());
      sum.Accumulate(one);
    }
    co::MotionMetrics m = co::ComputeMotionMetrics(&sum);
    serial = mo::FromMetrics(m);
    if (have_model) CheckMetrics(m, model, wc, "model");
  }

  // A drawn history. Nodes hold partial sums; every scenario is evaluated into
  // some node exactly once, possibly after failed attempts.
  int num_nodes = 1 + sim::W(4);
  std::vector<co::BucketedMetricsStats> node(num_nodes);
  std::vector<int> todo;
  for (int i : sim::Permutation(sim::kSched, n)) todo.push_back(i);
  int failures = 0;
  auto evaluate = [&](int i, co::BucketedMetricsStats* into) -> bool {
    co::Scenario s = sc[i];
    co::ScenarioPredictions p = pr[i];
    custom.fail_at = -1;
    custom.calls = 0;
    bool bad = false;
    if (failures < 4 && sim::FP(1, 3)) {
      bad = true;
      ++failures;
      switch (sim::F(7)) {
        case 0:
          if (!custom.on) { bad = false; --failures; break; }
          custom.fail_at = sim::F(ss[i].groups.size() * c.steps.size());
          sim::Fault("custom metric fails");
          break;
        case 1: {
          auto& g = ss[i].groups[sim::F(ss[i].groups.size())];
          s.mutable_tracks(g.agents[sim::F(g.agents.size())])->set_object_type(static_cast<co::Track::ObjectType>(40));
          sim::Fault("object of unknown type");
          break;
        }
        case 2: {
          auto* t = p.mutable_multi_modal_predictions(sim::F(p.multi_modal_predictions_size()));
          if (!t->joint_predictions_size() || !t->joint_predictions(0).trajectories_size()) { bad = false; --failures; break; }
          auto* j = t->mutable_joint_predictions(sim::F(t->joint_predictions_size()));
          j->mutable_trajectories(0)->mutable_center_y()->RemoveLast();
          sim::Fault("trajectory too short");
          break;
        }
        case 3:
          p.set_scenario_id("other");
          sim::Fault("prediction of another scenario");
          break;
        case 4: {
          auto* t = s.mutable_tracks(sim::F(s.tracks_size()));
          int k = 1 + sim::F(t->states_size());
          for (int q = 0; q < k; ++q) t->mutable_states()->RemoveLast();
          sim::Fault("track too short");
          break;
        }
        case 5: {
          auto* t = p.mutable_multi_modal_predictions(sim::F(p.multi_modal_predictions_size()));
          if (!t->joint_predictions_size() || !t->joint_predictions(0).trajectories_size()) { bad = false; --failures; break; }
          t->mutable_joint_predictions(sim::F(t->joint_predictions_size()))->mutable_trajectories(0)->set_object_id(987654321);
          sim::Fault("prediction of an unknown object");
          break;
        }
        case 6: {
          // Some group is not predicted although it is required.
          std::set<int> others;
          int g = sim::F(ss[i].groups.size());
          for (size_t k = 0; k < ss[i].groups.size(); ++k)
            if ((int)k != g) others.insert(ss[i].groups[k].agents.begin(), ss[i].groups[k].agents.end());
          bool covered = true;
          for (int a : ss[i].groups[g].agents) covered &= others.count(a) > 0;
          if (covered) { bad = false; --failures; break; }
          p = mo::ToPredictions(ss[i]);
          p.mutable_multi_modal_predictions()->DeleteSubrange(g, 1);
          sim::Fault("required prediction missing");
          break;
        }
      }
    }
    std::string before = Read(*into);
    co::Status st = co::ComputeMetricsStats(pc, p, s, into, custom.Fn());
    if (st.ok() == bad)
      sim::Violation(bad ? "failure-not-reported" : "valid-scenario-rejected", "scenario %s: status %s", ss[i].id.c_str(),
                     st.ok() ? "OK" : std::string(st.message()).c_str());
    if (bad) {
      sim::Probe("evaluation failed");
      std::string after = Read(*into);
      if (after != before)
        sim::Violation("failed-scenario-contributes", "after a failed evaluation (%s) the statistics changed from\n%s\nto\n%s",
                       std::string(st.message()).c_str(), before.c_str(), after.c_str());
    }
    return !bad;
  };
  while (!todo.empty()) {
    int i = todo.back();
    int k = sim::Draw(sim::kSched, num_nodes);
    bool done;
    if (sim::Draw(sim::kSched, 2)) {
      done = evaluate(i, &node[k]);  // straight into the partial sum
      sim::Probe("evaluated into a partial sum");
    } else {
      co::BucketedMetricsStats one;
      done = evaluate(i, &one);
      if (done || sim::Draw(sim::kSched, 2)) node[k].Accumulate(one);
    }
    if (done) todo.pop_back();
    switch (sim::Draw(sim::kSched, 5)) {
      case 1: {  // hand a partial sum to another node
        int b = sim::Draw(sim::kSched, num_nodes);
        if (b == k) break;
        node[b].Accumulate(node[k]);
        node[k] = co::BucketedMetricsStats();
        sim::Probe("partial sums merged");
        break;
      }
      case 2:  // read a partial sum; reading sorts the samples inside
        co::ComputeMotionMetrics(&node[k]);
        sim::Probe("partial sum read");
        break;
      case 3: {
        std::string a = Read(node[k]);
        node[k].AccumulateAcrossTypes();
        if (Read(node[k]) != a) sim::Violation("read-changes-statistics", "AccumulateAcrossTypes changed the statistics");
        break;
      }
      default: break;
    }
  }
  co::BucketedMetricsStats total;
  for (int i : sim::Permutation(sim::kSched, num_nodes)) total.Accumulate(node[i]);

  // Across types: the model's statistics regrouped by step.
  if (have_model) {
    mo::Stats sum;
    for (auto* s : all) mo::AddStats(&sum, mo::Model(c, *s));
    mo::Stats by_step;
    for (auto& t : sum) mo::AddStats(&by_step, mo::Stats{{0, t.second}});
    std::map<int, co::MetricsStats> across = total.AccumulateAcrossTypes();
    co::BucketedMetricsStats one;
    one.stats[co::Track::TYPE_UNSET] = across;
    CustomTable cs;
    for (auto& kv : want_custom) for (auto& q : kv.second) cs[{0, kv.first.second}][q.first].Add(q.second);
    CheckMetrics(co::ComputeMotionMetrics(&one), mo::Finish(by_step), custom.on ? &cs : nullptr, "across-types");
  }
  co::MotionMetrics got = co::ComputeMotionMetrics(&total);
  CheckMetrics(got, serial, wc, "serial");
  if (have_model) CheckMetrics(got, model, wc, "model");
  if (co::ComputeMotionMetrics(&total).SerializeAsString().size() != got.SerializeAsString().size())
    sim::Violation("second-read-differs", "reading the statistics twice gives different metrics");

  // The same by one call over maps, possibly failing first.
  absl::flat_hash_map<std::string, co::ScenarioPredictions> pm;
  absl::flat_hash_map<std::string, co::Scenario> sm;
  for (int i : sim::Permutation(sim::kSched, n)) { pm[ss[i].id] = pr[i]; sm[ss[i].id] = sc[i]; }
  co::MotionMetrics out;
  if (sim::FP(1, 3)) {
    auto bad_s = sm;
    int i = sim::F(n);
    custom.calls = 0;
    custom.fail_at = -1;
    if (sim::F(2)) bad_s.erase(ss[i].id);
    else bad_s[ss[i].id].set_scenario_id("other");
    sim::Fault("scenario missing or mislabelled");
    out.add_metrics_bundles()->set_min_ade(-7);
    std::string before = out.SerializeAsString();
    if (co::ComputeMotionMetrics(pc, pm, bad_s, &out, custom.Fn()).ok())
      sim::Violation("failure-not-reported", "metrics of a missing scenario");
    if (out.SerializeAsString() != before) sim::Violation("failed-call-writes-metrics", "a failed call changed its output");
  }
  custom.calls = 0;
  custom.fail_at = -1;
  co::Status st = co::ComputeMotionMetrics(pc, pm, sm, &out, custom.Fn());
  if (!st.ok()) sim::Violation("valid-scenario-rejected", "%s", std::string(st.message()).c_str());
  CheckMetrics(out, serial, wc, "serial");
}
sim::Register reg("C06", Run, mo::Warm);
}  // namespace
